#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS, NOT_APPLICABLE, NOTES
from checks import CHECKS

lines, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                    "observe_at": p["observe"], "hook_needed": None}}))
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 bin/vfrun.py check %s" % p["id"],
                       "thorough_cmd": "python3 bin/vfrun.py check %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": c.get("level", "exploration"),
                       "level_note": p["level_note"]})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/vfrun.py selftest", "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE], "notes": NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties", len(checks), "checks")
