#!/usr/bin/env python3
"""Builds the harnesses of one property against /repo's working tree, runs them under
sanitizers with the monitors on, and decides the property from what they observed.

  vfrun.py check <ID>     decide one property (VERIF_SEED, VERIF_TIER from the environment)
  vfrun.py selftest       see that the compiler and both sanitizers work here (setup)
  vfrun.py build [ID...]  build only
  vfrun.py replay <file>  run the single case recorded in a replay file again

Exit 0 held, 1 violated (VIOLATION line printed), 2 the check could not decide.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS, TARGETS  # noqa: E402

CXX = os.environ.get("VF_CXX", "g++")
NCPU = os.cpu_count() or 4
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-fconstexpr-ops-limit=4294967295",
        "-ftemplate-backtrace-limit=0", "-DBOOST_ENABLE_ASSERT_HANDLER", "-pthread"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,object-size,null,alignment", "-fno-sanitize-recover=undefined"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize=vptr,object-size,null,alignment", "-fno-sanitize-recover=undefined"],
    "glibcxx": ["-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}


def sha(path):
    h = hashlib.sha256()
    try:
        with open(path, "rb") as f:
            h.update(f.read())
    except OSError:
        return "missing"
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def compile_one(src, flags, obj, timeout):
    """Compiles src to obj unless every file it depends on still has the content it had."""
    stamp = obj + ".stamp"
    cmd = [CXX] + flags + ["-c", src, "-o", obj, "-MMD", "-MF", obj + ".d"]
    sig = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            rec = json.load(open(stamp))
            if rec["cmd"] == sig and all(sha(p) == h for p, h in rec["deps"].items()):
                return False
        except (ValueError, KeyError, OSError):
            pass
    for p in (stamp, obj):
        if os.path.exists(p):
            os.unlink(p)
    try:
        r = run(cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise BuildError("compiling %s timed out" % src)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    txt = open(obj + ".d").read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    keep = {p: sha(p) for p in deps if not p.startswith("/usr/")}
    json.dump({"cmd": sig, "deps": keep}, open(stamp, "w"))
    return True


def build(names, timeout=840):
    """Builds targets (parallel over translation units). Returns {target: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    jobs, out = [], {}
    for n in names:
        t = TARGETS[n]
        d = os.path.join(BUILD, n)
        os.makedirs(d, exist_ok=True)
        flags = BASE + ["-O%s" % t.get("opt", "1")] + SAN[t.get("san", "asan")] + t.get("flags", [])
        flags += ["-I" + os.path.join(VERIF, "harness")]
        if t.get("shim", False):
            flags += ["-I" + os.path.join(VERIF, "shim")]
        flags += ["-I" + os.path.join(REPO, "include")]
        objs = []
        for s in t["src"]:
            src = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
            src = src.replace("@REPO@", REPO)
            obj = os.path.join(d, os.path.basename(s).replace(".cpp", ".o"))
            objs.append(obj)
            jobs.append((t.get("weight", 1), src, flags, obj))
        out[n] = (os.path.join(d, n), objs, t)
    jobs.sort(key=lambda j: -j[0])
    changed = set()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_one, s, f, o, timeout): o for _, s, f, o in jobs}
        err = None
        for fu in cf.as_completed(futs):
            try:
                if fu.result():
                    changed.add(futs[fu])
            except BuildError as e:
                err = err or e
        if err:
            raise err
    bins = {}
    for n, (binp, objs, t) in out.items():
        if not os.path.exists(binp) or any(o in changed for o in objs) or \
                any(os.path.getmtime(o) > os.path.getmtime(binp) for o in objs):
            tmp = binp + ".tmp"
            r = run([CXX] + SAN[t.get("san", "asan")] + objs + ["-o", tmp, "-pthread"] + t.get("libs", []))
            if r.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (n, r.stdout[-4000:]))
            os.replace(tmp, binp)
        bins[n] = binp
    return bins


def crash_kind(text, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", text)
    if not kind and m2:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", m2.group(1).lower())[:40].strip("-")
    if not kind and "WARNING: ThreadSanitizer: data race" in text:
        kind = "tsan-data-race"
    if not kind and "LeakSanitizer" in text:
        kind = "lsan-leak"
    if not kind and rc == 97:
        kind = "hang"
    if not kind and ("Assertion" in text and rc < 0):
        kind = "abort-assertion"
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    where = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (?:.*?) (/[^\s:]+):(\d+)", text):
        if m.group(1).startswith(REPO + "/"):
            where = os.path.relpath(m.group(1), REPO)
            break
    if not where:
        m = re.search(re.escape(REPO) + r"/([^\s:]+):\d+", text)
        where = m.group(1) if m else ""
    return kind, where


def load_known():
    """known_findings.txt: lines `known: property=<id> key=<key-prefix> :: <what fails>`."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def run_shard(binp, env, timeout):
    t0 = time.time()
    try:
        p = subprocess.run([binp], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace", cwd=env["VF_TMP"])
        return p.returncode, p.stdout[-20000:], time.time() - t0
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return None, (o.decode(errors="replace") if isinstance(o, bytes) else o)[-4000:], time.time() - t0


def run_target(pid, name, binp, spec, tier, seed, shards, timeout, only="", tag=""):
    """Runs a target in parallel shards; restarts a shard past a crashing case."""
    work = os.path.join(BUILD, "run", pid, name)
    os.makedirs(work, exist_ok=True)
    base = dict(os.environ)
    base.update({"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VF_PROP": pid, "VF_SHARDS": str(shards),
                 "VF_ONLY": only, "VF_TMP": work, "VF_REPO": REPO,
                 "ASAN_OPTIONS": "detect_leaks=%d:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
                                 "detect_stack_use_after_return=0" % spec.get("leaks", 0),
                 "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
                 "TSAN_OPTIONS": "exitcode=68:halt_on_error=1"})
    base.update(spec.get("env", {}))

    def one(i):
        outs, tries, skip = [], 0, []
        res = {"viol": [], "stats": [], "incon": []}
        while True:
            outf = os.path.join(work, "out%d_%d%s" % (i, tries, tag))
            curf = os.path.join(work, "cur%d%s" % (i, tag))
            for f in (outf, curf):
                if os.path.exists(f):
                    os.unlink(f)
            env = dict(base, VF_OUT=outf, VF_CUR=curf, VF_SHARD=str(i), VF_SKIP="\n".join(skip))
            rc, text, dt = run_shard(binp, env, timeout)
            done = False
            if os.path.exists(outf):
                for line in open(outf, errors="replace"):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if rec["t"] == "viol":
                        res["viol"].append(rec)
                    elif rec["t"] == "stat":
                        res["stats"].append(rec)
                    elif rec["t"] == "done":
                        done = True
            if rc is None:
                res["incon"].append("%s shard %d: no answer within %ds" % (name, i, timeout))
                return res
            if rc == 0 and done:
                return res
            cur = ""
            if os.path.exists(curf):
                cur = open(curf, "rb").read().split(b"\0", 1)[0].decode(errors="replace")
            if not cur and not done:
                kind, where = crash_kind(text, rc)
                if where:
                    cur = "startup @ startup"
                else:
                    res["incon"].append("%s shard %d ended with %s outside any case: %s" % (name, i, rc, text[-1500:]))
                    return res
            kind, where = crash_kind(text, rc)
            case, _, key = cur.partition(" @ ")
            if done:
                case, key = "exit", "exit"
            res["viol"].append({"key": "%s:%s%s" % (key, kind, (":" + where) if where else ""), "case": case,
                                "detail": text[-3500:]})
            if done or case in ("startup", "") or tries >= 4 or only:
                return res
            skip.append(case)
            tries += 1

    with cf.ThreadPoolExecutor(shards) as ex:
        return list(ex.map(one, range(shards)))


def decide(pid):
    spec = CHECKS[pid]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    limit = float(os.environ.get("VF_LIMIT", "870"))
    names = spec["targets"]
    try:
        bins = build(names, timeout=limit - 60)
    except BuildError as e:
        print("cannot decide %s: %s" % (pid, e))
        return 2
    tb = time.time() - t0
    shards = spec.get("shards", NCPU)
    viol, stats, incon = [], [], []
    per_target = {}
    for n in names:
        left = limit - (time.time() - t0)
        rs = run_target(pid, n, bins[n], dict(TARGETS[n], **spec.get("run", {})), tier, seed, shards, max(20, left))
        ev = 0
        for r in rs:
            for v in r["viol"]:
                v["target"] = n
            viol += r["viol"]
            stats += r["stats"]
            incon += r["incon"]
            ev += sum(s["evaluations"] for s in r["stats"])
        per_target[n] = ev
    evaluations = sum(s["evaluations"] for s in stats)
    distinct = sum(s["distinct"] for s in stats)
    counters, seen, samples = {}, {}, []
    for s in stats:
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s["seen"].items():
            seen.setdefault(k, set()).update(v)
        samples += s["samples"]
    known = [k for k in load_known() if k[0] == pid]
    new, old = {}, {}
    for v in viol:
        for _, kk, what in known:
            if v["key"] == kk or (kk.endswith("*") and v["key"].startswith(kk[:-1])):
                old.setdefault(kk, what)
                break
        else:
            new.setdefault(v["key"], v)
    step = max(1, len(samples) // 5)
    cov = {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": spec["rule"],
           "samples": samples[::step][:6], "per_harness": per_target,
           "observed": counters,
           "observed_values": {k: (sorted(v) if len(v) <= 80 else {"count": len(v), "first": sorted(v)[:40]})
                               for k, v in seen.items()},
           "sanitizers": sorted({TARGETS[n].get("san", "asan") for n in names}),
           "build_s": round(tb, 1)}
    if old:
        cov["known_findings_seen"] = sorted(old)
    os.makedirs(EVID, exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
               "coverage": cov, "wall_s": round(time.time() - t0, 2),
               "assumptions": spec.get("assumptions", []), "violations": len(new)},
              open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct, build %.1fs, total %.1fs" %
          (pid, tier, seed, evaluations, distinct, tb, time.time() - t0))
    for k in sorted(counters):
        print("  observed %s = %d" % (k, counters[k]))
    for kk, what in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if new:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for key, v in sorted(new.items())[:8]:
            f = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256(key.encode()).hexdigest()[:12]))
            json.dump({"property": pid, "target": v["target"], "key": key, "case": v["case"], "seed": seed,
                       "tier": tier, "detail": v["detail"],
                       "how": "VERIF_SEED and VERIF_TIER as here; python3 bin/vfrun.py replay <this file>"},
                      open(f, "w"), indent=1)
            print("  %s: %s" % (key, v["detail"][:600].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if incon:
        print("cannot decide %s: %s" % (pid, "; ".join(incon)[:3000]))
        return 2
    floor = spec.get("floor", 1)
    if evaluations < floor or distinct < 1:
        print("cannot decide %s: only %d evaluations observed (needs %d)" % (pid, evaluations, floor))
        return 2
    for c in spec.get("need", []):
        if not counters.get(c):
            print("cannot decide %s: nothing observed for '%s'" % (pid, c))
            return 2
    return 0


def replay(path):
    r = json.load(open(path))
    bins = build([r["target"]])
    res = run_target(r["property"], r["target"], bins[r["target"]], TARGETS[r["target"]], r["tier"], r["seed"], 1, 600,
                     only=r["case"], tag="replay")
    for x in res:
        for v in x["viol"]:
            print(v["key"], v["detail"])
    return 1 if any(x["viol"] for x in res) else 0


def selftest():
    """A heap overflow and a signed overflow must be reported by the sanitizers of this machine."""
    os.makedirs(BUILD, exist_ok=True)
    src, out = os.path.join(BUILD, "selftest.cpp"), os.path.join(BUILD, "selftest")
    with open(src, "w") as f:
        f.write("#include <cstdlib>\nint main(int c, char **v) { int k = std::atoi(v[1]); if (k == 1) { volatile char *p = new char[c]; p[c] = 1; delete[] p; }\n"
                "if (k == 2) { volatile int x = 2147483647; x = x + c; return 0; } return 0; }\n")
    r = run([CXX] + BASE + ["-O1"] + SAN["asan"] + [src, "-o", out])
    if r.returncode:
        print(r.stdout)
        return 2
    outs = [run([out, str(k)]) for k in (0, 1, 2)]
    good = outs[0].returncode == 0 and "heap-buffer-overflow" in outs[1].stdout and "signed integer overflow" in outs[2].stdout
    print("sanitizers work" if good else "sanitizers do not report planted errors")
    return 0 if good else 2


def main():
    if sys.argv[1] == "selftest":
        return selftest()
    if sys.argv[1] == "build":
        ids = sys.argv[2:] or list(CHECKS)
        names = []
        for i in ids:
            names += [n for n in CHECKS[i]["targets"] if n not in names]
        t0 = time.time()
        try:
            build(names, timeout=1500)
        except BuildError as e:
            # a tree that does not build is reported by the checks themselves
            print(e)
        print("built %d harnesses in %.1fs" % (len(names), time.time() - t0))
        return 0
    if sys.argv[1] == "check":
        return decide(sys.argv[2])
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never let a bug of the driver look like a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
