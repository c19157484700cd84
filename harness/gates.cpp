// C11 (identity of gates and selectors), C12 (satisfiability of tables), C13 (connectedness).
#include "oracle.hpp"
#include "gen.hpp"
#include <nil/blueprint/utils/satisfiability_check.hpp>
#include <nil/blueprint/utils/connectedness_check.hpp>

using namespace nil::blueprint;
namespace fields = nil::crypto3::algebra::fields;
using namespace vf;

template<typename F>
static void identity(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using P = poly<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    for (std::uint64_t b = 0; b < scaled(6000, 60000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("identity/" + id, "identity", [&] {
            auto g = case_rng("identity" + id);
            gen<F> gn{g, g.range(1, 16), g.range(0, 2)};
            gn.S = g.chance(1, 3) ? 3 : 0;
            circuit_t<F> bp;
            std::vector<std::vector<C>> pool;
            std::vector<std::vector<L>> lpool;
            std::map<std::multiset<P>, std::size_t> known;
            std::map<std::multiset<std::pair<std::size_t, std::vector<P>>>, std::size_t> lknown;
            std::size_t next = 0;
            auto key = [](const std::vector<C> &v) { std::multiset<P> k; for (auto &c : v) k.insert(P::of(c)); return k; };
            auto lkey = [](const std::vector<L> &v) {
                std::multiset<std::pair<std::size_t, std::vector<P>>> k;
                for (auto &c : v) { std::vector<P> in; for (auto &e : c.lookup_input) in.push_back(P::of(e)); k.insert({c.table_id, in}); }
                return k;
            };
            std::size_t steps = g.range(2, 14);
            bool by_hand = false;
            auto width = [](std::size_t table) { static const std::size_t w[] = {1, 2, 3, 6, 12}; return w[table % 5]; };
            for (std::size_t k = 0; k < steps; k++) {
                if (g.chance(1, 12)) {
                    std::size_t s = bp.get_dynamic_lookup_table_selector();
                    evaluated(id + "dyn" + std::to_string(k));
                    if (s != next) violation("identity:dynamic-selector", "selector " + std::to_string(s) + ", expected " + std::to_string(next));
                    next = s + 1;
                    count("dynamic table selectors");
                    continue;
                }
                if (g.chance(1, 10)) {
                    // gates put under a selector by hand: nothing else may change
                    by_hand = true;
                    std::size_t s = g.chance(1, 2) ? g.range(0, next + 2) : next;
                    std::size_t before = bp.gates().size(), lbefore = bp.lookup_gates().size(), got;
                    bool lookup = g.chance(1, 2);
                    std::vector<C> v;
                    std::vector<L> lv;
                    if (lookup) {
                        if (!lpool.empty() && g.chance(1, 2)) lv = g.pick(lpool);
                        else { L l; l.table_id = 5; l.lookup_input = {C(gn.expr(1))}; lv.push_back(l); lpool.push_back(lv); }
                        got = bp.add_lookup_gate(s, lv);
                        lbefore++;
                    } else {
                        if (!pool.empty() && g.chance(1, 2)) v = g.pick(pool);
                        else { v.push_back(gn.expr(unsigned(g.range(0, 3)))); pool.push_back(v); }
                        got = bp.add_gate(s, v);
                        before++;
                    }
                    evaluated(id + "hand" + std::to_string(k));
                    count("gates put under a chosen selector");
                    if (got != s) violation("identity:hand", "a gate put under selector " + std::to_string(s) + " came back with " + std::to_string(got));
                    if (bp.gates().size() != before || bp.lookup_gates().size() != lbefore) { violation("identity:hand", "a gate put under a chosen selector was not stored once"); break; }
                    if (lookup ? bp.lookup_gates().back().tag_index != s || lkey(bp.lookup_gates().back().constraints) != lkey(lv)
                               : bp.gates().back().selector_index != s || key(bp.gates().back().constraints) != key(v)) violation("identity:hand", "a gate put under a chosen selector was stored differently");
                    if (bp.get_next_selector_index() != next) { violation("identity:next", "a gate put under a chosen selector moved the next free one"); next = bp.get_next_selector_index(); }
                    continue;
                }
                if (g.chance(2, 3)) {
                    std::vector<C> v;
                    std::string how;
                    if (pool.empty() || g.chance(1, 3)) {
                        std::size_t n = g.chance(1, 10) ? g.range(20, 30) : g.chance(1, 40) ? g.range(40, 90) : g.range(1, 5);
                        for (std::size_t i = 0; i < n; i++) v.push_back(gn.expr(unsigned(g.range(0, 3))));
                        how = "new";
                    } else {
                        v = g.pick(pool);
                        switch (g.range(0, 6)) {
                            case 0: for (auto &c : v) c = gn.rewrite(c); how = "rewritten"; break;
                            case 1: std::shuffle(v.begin(), v.end(), g); how = "reordered"; break;
                            case 2: { std::size_t i = g.range(0, v.size() - 1); v[i] = gn.nudge(v[i]); how = "nudged"; break; }
                            case 3: v.push_back(v[g.range(0, v.size() - 1)]); how = "repeated constraint"; break;
                            case 4: if (v.size() > 1) v.pop_back(); how = "dropped constraint"; break;
                            case 5: if (v.size() > 1) { std::size_t i = g.range(1, v.size() - 1); C c = v[i]; v[i] = C(c + v[0]); v[0] = C(v[0] - c); } how = "same sum"; break;
                            default: how = "identical";
                        }
                    }
                    pool.push_back(v);
                    auto kk = key(v);
                    std::size_t before = bp.gates().size(), s;
                    bool single = v.size() == 1 && g.chance(1, 2);
                    if (single) s = bp.add_gate(v[0]);
                    else if (v.size() == 2 && g.chance(1, 2)) { s = bp.add_gate({v[0], v[1]}); how += " listed"; }
                    else s = bp.add_gate(v);
                    count("gates added");
                    saw("ways of adding", how + (single ? " single" : ""));
                    evaluated(id + "g" + std::to_string(k) + how);
                    // a polynomial that is identically zero carries no condition: leave such gates out of the comparison
                    bool degenerate = kk.count(P{});
                    if (degenerate) { next = bp.get_next_selector_index(); known[kk] = s; continue; }
                    auto it = known.find(kk);
                    if (it != known.end()) {
                        if (s != it->second) violation("identity:split", how + (single ? " (single constraint)" : "") + ": the same gate got selectors " + std::to_string(it->second) + " and " + std::to_string(s));
                        else if (bp.gates().size() != before) violation("identity:duplicate", how + ": a known gate was stored again");
                        if (s >= next) next = s + 1;
                    } else {
                        if (s != next || bp.gates().size() != before + 1) { violation("identity:merged", how + ": a gate that differs from all others got selector " + std::to_string(s) + ", expected " + std::to_string(next)); next = bp.get_next_selector_index(); known[kk] = s; continue; }
                        if (bp.gates().back().selector_index != s) violation("identity:stored", how + ": stored under another selector");
                        if (key(bp.gates().back().constraints) != kk) violation("identity:stored", how + ": stored with other constraints");
                        known[kk] = s;
                        next = s + 1;
                    }
                } else {
                    std::vector<L> v;
                    std::string how = "new";
                    if (lpool.empty() || g.chance(1, 3)) {
                        std::size_t n = g.range(1, 4);
                        for (std::size_t i = 0; i < n; i++) {
                            L l;
                            l.table_id = g.range(1, 25);
                            std::size_t cols = width(l.table_id);    // a table has one width
                            for (std::size_t c = 0; c < cols; c++) l.lookup_input.push_back(g.chance(1, 8) ? C(V(0)) : C(gn.expr(unsigned(g.range(0, 2)))));
                            v.push_back(l);
                        }
                    } else {
                        v = g.pick(lpool);
                        auto &l = v[g.range(0, v.size() - 1)];
                        switch (g.range(0, 6)) {
                            case 0: for (auto &x : v) for (auto &e : x.lookup_input) e = gn.rewrite(e); how = "rewritten"; break;
                            case 1: std::shuffle(v.begin(), v.end(), g); how = "reordered"; break;
                            case 2: l.table_id = (l.table_id + 4) % 25 + 1; how = "other table"; break;
                            case 3: { auto &e = l.lookup_input[g.range(0, l.lookup_input.size() - 1)]; e = gn.nudge(e); how = "nudged"; break; }
                            case 4: if (l.lookup_input.size() > 1) std::swap(l.lookup_input[g.range(0, l.lookup_input.size() - 1)], l.lookup_input[g.range(0, l.lookup_input.size() - 1)]); how = "swapped columns"; break;
                            case 5: if (v.size() > 1 && width(v[0].table_id) == width(v[1].table_id)) std::swap(v[0].table_id, v[1].table_id); how = "swapped tables"; break;
                            default: how = "identical";
                        }
                    }
                    lpool.push_back(v);
                    auto kk = lkey(v);
                    std::size_t before = bp.lookup_gates().size(), s;
                    bool single = v.size() == 1 && g.chance(1, 2);
                    if (single) s = bp.add_lookup_gate(v[0]);
                    else if (v.size() == 2 && g.chance(1, 2)) { s = bp.add_lookup_gate({v[0], v[1]}); how += " listed"; }
                    else s = bp.add_lookup_gate(v);
                    count("lookup gates added");
                    saw("ways of adding", "lookup " + how + (single ? " single" : ""));
                    evaluated(id + "l" + std::to_string(k) + how);
                    auto it = lknown.find(kk);
                    if (it != lknown.end()) {
                        if (s != it->second) violation("identity:lookup-split", how + (single ? " (single constraint)" : "") + ": the same lookup gate got selectors " + std::to_string(it->second) + " and " + std::to_string(s));
                        else if (bp.lookup_gates().size() != before) violation("identity:lookup-duplicate", how + ": a known lookup gate was stored again");
                        if (s >= next) next = s + 1;
                    } else {
                        if (s != next || bp.lookup_gates().size() != before + 1) { violation("identity:lookup-merged", how + ": a lookup gate that differs from all others got selector " + std::to_string(s) + ", expected " + std::to_string(next)); next = bp.get_next_selector_index(); lknown[kk] = s; continue; }
                        if (bp.lookup_gates().back().tag_index != s || lkey(bp.lookup_gates().back().constraints) != kk) violation("identity:lookup-stored", how + ": stored differently");
                        lknown[kk] = s;
                        next = s + 1;
                    }
                }
                if (bp.get_next_selector_index() != next) { violation("identity:next", "the next free selector is " + std::to_string(bp.get_next_selector_index()) + ", expected " + std::to_string(next)); next = bp.get_next_selector_index(); }
            }
            if (bp.num_gates() != bp.gates().size() || bp.num_lookup_gates() != bp.lookup_gates().size()) violation("identity:counts", "announced gate counts differ from the gates stored");
            // a circuit made of another one, or of its constraints alone, goes on with the same selectors
            if (!by_hand && g.chance(1, 3)) {
                bool whole = g.chance(1, 2);
                using system = snark::plonk_constraint_system<F>;
                circuit_t<F> again = whole ? circuit_t<F>(bp) : circuit_t<F>(static_cast<const system &>(bp));
                std::string how = whole ? "copied circuit" : "circuit made of a constraint system";
                evaluated(id + how);
                count(whole ? "circuits copied" : "circuits made of constraint systems");
                std::set<std::size_t> used;
                for (auto &x : bp.gates()) used.insert(x.selector_index);
                for (auto &x : bp.lookup_gates()) used.insert(x.tag_index);
                for (auto &v : pool) {
                    auto kk = key(v);
                    if (kk.count(P{})) continue;
                    std::size_t s = again.add_gate(v);
                    if (s != known.at(kk)) { violation("identity:again", how + ": a gate of selector " + std::to_string(known.at(kk)) + " got selector " + std::to_string(s)); break; }
                }
                for (auto &v : lpool) {
                    std::size_t s = again.add_lookup_gate(v);
                    if (s != lknown.at(lkey(v))) { violation("identity:again", how + ": a lookup gate of selector " + std::to_string(lknown.at(lkey(v))) + " got selector " + std::to_string(s)); break; }
                }
                std::vector<C> fresh = {C(gn.expr(2)), C(gn.expr(3))};
                if (!key(fresh).count(P{}) && !known.count(key(fresh))) {
                    std::size_t s = again.add_gate(fresh);
                    if (used.count(s) || (whole && s != next)) violation("identity:again", how + ": a further gate got selector " + std::to_string(s) + ", which is taken");
                }
                std::size_t s = again.get_dynamic_lookup_table_selector();
                if (used.count(s)) violation("identity:again", how + ": a dynamic table got selector " + std::to_string(s) + ", which is taken");
                if (bp.get_next_selector_index() != next) violation("identity:again", how + ": the original moved on");
            }
            // an ordering that sorts gates must be a strict order whose ties are exactly the equal gates
            for (int k = 0; k < 6 && pool.size() >= 2; k++) {
                auto &x = g.pick(pool), &y = g.pick(pool);
                if (key(x).count(P{}) || key(y).count(P{})) continue;
                gate_id<F> a(x), c(y);
                bool eq = key(x) == key(y);
                evaluated(id + "order" + std::to_string(k));
                if ((a == c) != eq || (a != c) == eq || (a < c && c < a) || (!(a < c) && !(c < a)) != eq) violation("identity:order", "comparison of gate identities contradicts the gates");
            }
            sample(id + ": " + std::to_string(bp.gates().size()) + " gates, " + std::to_string(bp.lookup_gates().size()) + " lookup gates from " + std::to_string(steps) + " additions");
        });
    }
}

// Gates that differ in nothing but a column, a row, a kind of cell, a table or a place in a row of a table.
template<typename F>
static void near_gates(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    run_case("near/" + fname, "near", [&] {
        auto g = case_rng("near" + fname);
        std::vector<C> cells;
        std::size_t N = scaled(140, 600);
        for (auto t : {var::column_type::witness, var::column_type::constant, var::column_type::selector})
            for (std::size_t i = 0; i < N; i++) for (int r = -1; r <= 1; r++) cells.push_back(C(var(i, r, true, t)));
        std::shuffle(cells.begin(), cells.end(), g);
        circuit_t<F> bp;
        std::vector<std::size_t> sel;
        for (auto &c : cells) {
            std::size_t next = bp.get_next_selector_index(), s = bp.add_gate(c);
            evaluated(fname + "cell" + std::to_string(sel.size()));
            if (s != next) violation("near:cell", "a gate on a cell of its own got the selector of another");
            sel.push_back(s);
        }
        for (std::size_t i = 0; i < cells.size(); i++) if (bp.add_gate(std::vector<C>{cells[i]}) != sel[i]) violation("near:cell", "the same gate got two selectors");
        if (bp.gates().size() != cells.size()) violation("near:stored", std::to_string(bp.gates().size()) + " gates stored, " + std::to_string(cells.size()) + " added");
        else for (std::size_t i = 0; i < cells.size(); i++) if (bp.gates()[i].selector_index != sel[i] || bp.gates()[i].constraints.size() != 1) { violation("near:stored", "gate " + std::to_string(i) + " is stored under another selector"); break; }
        std::vector<std::pair<L, std::size_t>> lookups;
        for (std::size_t t = 1; t <= scaled(100, 400); t++) for (std::size_t k = 0; k < 2; k++) {
            L l;
            l.table_id = t;
            l.lookup_input = {cells[k], cells[1 - k]};
            std::size_t next = bp.get_next_selector_index(), s = bp.add_lookup_gate(l);
            evaluated(fname + "table" + std::to_string(2 * t + k));
            if (s != next) violation("near:table", "a lookup in a table of its own got the selector of another");
            lookups.push_back({l, s});
        }
        // one cell in one place of a wide row, everything else zero
        std::size_t wide = scaled(64, 200);
        for (std::size_t k = 0; k < wide; k++) {
            L l;
            l.table_id = 1000;
            for (std::size_t i = 0; i < wide; i++) l.lookup_input.push_back(i == k ? cells[0] : C(V(0)));
            std::size_t next = bp.get_next_selector_index(), s = bp.add_lookup_gate(l);
            evaluated(fname + "place" + std::to_string(k));
            if (s != next) violation("near:place", "lookups in different places of a row got one selector");
            lookups.push_back({l, s});
        }
        for (auto &l : lookups) if (bp.add_lookup_gate(l.first) != l.second) violation("near:table", "the same lookup got two selectors");
        if (bp.lookup_gates().size() != lookups.size()) violation("near:stored", std::to_string(bp.lookup_gates().size()) + " lookup gates stored, " + std::to_string(lookups.size()) + " added");
        else for (std::size_t i = 0; i < lookups.size(); i++) if (bp.lookup_gates()[i].tag_index != lookups[i].second) { violation("near:stored", "lookup gate " + std::to_string(i) + " is stored under another selector"); break; }
        if (bp.get_dynamic_lookup_table_selector() != cells.size() + lookups.size()) violation("near:stored", "a dynamic table got a selector that is taken");
        count("near gates", cells.size());
    });
}

template<typename F>
static void satisfiability(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    using ex = nil::crypto3::math::expression<var>;
    for (std::uint64_t b = 0; b < scaled(40000, 300000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("sat/" + id, "sat", [&] {
            auto g = case_rng("sat" + id);
            bool tall = g.chance(1, 150), crowd = !tall && g.chance(1, 100);
            std::size_t W = tall ? g.range(1, 2) : crowd ? g.range(6, 20) : g.range(1, 6), K = tall ? g.range(0, 1) : crowd ? g.range(1, 5) : g.range(0, 2), R = tall ? g.range(200, 1600) : crowd ? g.range(12, 50) : g.range(3, 14), S = crowd ? 160 : 12;
            if (tall) count("tall tables");
            if (crowd) count("crowded circuits");
            circuit_t<F> bp;
            assignment_t<F> as(W, 1, K, S);
            gen<F> gn{g, W, K};
            for (std::size_t r = 0; r < R; r++) {
                for (std::size_t i = 0; i < W; i++) as.witness(i, r) = gn.small();
                for (std::size_t i = 0; i < K; i++) as.constant(i, r) = gn.small();
                as.public_input(0, r) = gn.small();
            }
            bool shared = g.chance(1, 3);
            if (shared) for (std::size_t r = 0; r < R; r++) as.shared(0, r) = gn.small();
            grid<F> g0(as);
            auto value = [&](const ex &e, std::size_t r) { return eval<F>(e, [&](const var &v) { return g0.get(v, r); }); };
            // gates that hold on the rows where they are enabled
            std::size_t NG = crowd ? g.range(20, 90) : g.range(0, 3);
            for (std::size_t i = 0; i < NG; i++) {
                std::size_t n = crowd && g.chance(1, 6) ? g.range(4, 24) : g.range(1, 3);
                std::set<std::size_t> rows;
                for (std::size_t k = crowd ? g.range(0, 2) : g.range(0, 3); k > 0; k--) rows.insert(g.range(1, R - 2));
                std::vector<C> cs;
                for (std::size_t k = 0; k < n; k++) {
                    ex e = gn.expr(unsigned(g.range(1, 3)));
                    ex z = ex(V(1));
                    std::set<std::uint64_t> seen;
                    for (auto r : rows) { V v = value(e, r); if (seen.insert(row_hash<F>({v})).second) z = z * (e - ex(v)); }
                    cs.push_back(rows.empty() ? C(e) : C(z));
                }
                std::size_t s = bp.add_gate(cs);
                for (auto r : rows) as.enable_selector(s, r);
            }
            // static lookups with ranges, and a dynamic table
            std::vector<std::string> tnames;
            std::vector<std::pair<std::shared_ptr<small_table<F>>, std::string>> subs;
            bool lookups = g.chance(2, 3);
            if (lookups) {
                std::size_t cols = crowd ? g.range(1, 16) : g.range(1, 3), rows = crowd ? g.range(2, 600) : g.range(2, 10);
                std::vector<std::vector<V>> d(cols, std::vector<V>(rows));
                for (auto &c : d) for (auto &v : c) v = V(g.range(0, 3));
                auto t = std::make_shared<small_table<F>>("tab", d);
                std::size_t n = crowd ? g.range(1, 20) : g.range(1, 2);
                for (std::size_t i = 0; i < n; i++) {
                    std::vector<std::size_t> ci;
                    for (std::size_t c = 0; c < cols; c++) if (ci.empty() || g.chance(2, 3)) ci.push_back(c);
                    if (g.chance(1, 3)) std::reverse(ci.begin(), ci.end());
                    std::size_t lo = g.range(0, rows - 1), hi = g.range(lo, rows - 1);
                    t->subtables["p" + std::to_string(i)] = {ci, lo, hi};
                    subs.push_back({t, "p" + std::to_string(i)});
                }
                bp.register_lookup_table(t);
                for (std::size_t i = 0; i < n; i++) { bp.reserve_table("tab/p" + std::to_string(i)); tnames.push_back("tab/p" + std::to_string(i)); }
            }
            std::size_t dyn_cols = 0;
            std::vector<std::vector<V>> dyn_rows;
            if (lookups && g.chance(1, 2)) {
                dyn_cols = g.range(1, 2);
                bp.reserve_dynamic_table("dyn");
                std::size_t s = bp.get_dynamic_lookup_table_selector();
                snark::plonk_lookup_table<F> t(dyn_cols, s);
                std::size_t options = g.chance(1, 4) ? g.range(3, 6) : g.range(1, 2);
                std::vector<std::vector<ex>> opts;
                for (std::size_t o = 0; o < options; o++) {
                    std::vector<C> row;
                    std::vector<ex> raw;
                    for (std::size_t c = 0; c < dyn_cols; c++) { ex e = gn.expr(1); row.push_back(e); raw.push_back(e); }
                    t.append_option(row);
                    opts.push_back(raw);
                }
                std::set<std::size_t> rows;
                for (std::size_t k = g.range(1, 4); k > 0; k--) rows.insert(g.range(1, R - 2));
                for (auto r : rows) {
                    as.enable_selector(s, r);
                    for (auto &o : opts) { std::vector<V> v; for (auto &e : o) v.push_back(value(e, r)); dyn_rows.push_back(v); }
                }
                bp.define_dynamic_table("dyn", t);
                // the satisfiability check reads dynamic tables at their index
                while (bp.lookup_tables().size() < bp.get_reserved_indices().size()) {
                    if (bp.lookup_tables().size() + 1 == bp.get_reserved_indices().at("dyn")) bp.add_lookup_table(t);
                    else bp.add_lookup_table(snark::plonk_lookup_table<F>(1, 0));
                }
                tnames.push_back("dyn");
            }
            if (!tnames.empty()) {
                std::size_t n = crowd ? g.range(5, 40) : g.range(1, 3);
                for (std::size_t i = 0; i < n; i++) {
                    std::size_t row = g.range(1, R - 2);
                    std::vector<L> many;
                    for (std::size_t m = crowd && g.chance(1, 4) ? g.range(4, 10) : g.chance(1, 3) ? g.range(2, 3) : 1; m > 0; m--) {
                        std::string name = g.pick(tnames);
                        std::vector<V> hit;
                        if (name == "dyn") hit = g.pick(dyn_rows);
                        else {
                            auto &t = subs[0].first;
                            auto &sb = t->subtables[name.substr(4)];
                            std::size_t r = crowd || g.chance(4, 5) ? g.range(sb.begin, sb.end) : g.range(0, t->data[0].size() - 1);    // sometimes outside the part
                            for (auto c : sb.column_indices) hit.push_back(t->data[c][r]);
                        }
                        L l;
                        l.table_id = bp.get_reserved_indices().at(name);
                        for (auto &h : hit) { ex e = gn.expr(1); l.lookup_input.push_back(C(e - ex(value(e, row)) + ex(h))); }
                        many.push_back(l);
                    }
                    std::size_t s = many.size() == 1 && g.chance(1, 2) ? bp.add_lookup_gate(many[0]) : bp.add_lookup_gate(many);
                    as.enable_selector(s, row);
                }
            }
            // copies between cells that happen to agree (or are made to)
            std::vector<var> cells;
            for (std::size_t r = 0; r < R; r++) {
                for (std::size_t i = 0; i < W; i++) cells.push_back(var(i, r, false, var::column_type::witness));
                for (std::size_t i = 0; i < K; i++) cells.push_back(var(i, r, false, var::column_type::constant));
                cells.push_back(var(0, r, false, var::column_type::public_input));
                if (shared) cells.push_back(var(1, r, false, var::column_type::public_input));
            }
            std::size_t copies = crowd ? g.range(5, 200) : g.range(0, 4);
            for (std::size_t k = 0, tries = 0; k < copies && tries < 200 + 20 * copies; tries++) {
                auto &x = g.pick(cells), &y = g.pick(cells);
                if (x == y || g0.get(x) != g0.get(y)) continue;
                bp.add_copy_constraint({x, y});
                k++;
            }
            if (g.chance(1, 4)) {
                // any selector that is not zero switches its gate on
                for (std::size_t s = 0; s < bp.get_next_selector_index(); s++)
                    for (std::size_t r = 0; r < as.selector_column_size(s); r++)
                        if (!as.selector(s)[r].is_zero() && g.chance(1, 2)) { as.selector(s, r) = g.chance(1, 2) ? V(2) : -V(1); count("selectors other than one"); }
            }
            auto compare = [&](const std::string &what) {
                grid<F> gr(as);
                auto bad = judge<F>(bp, gr, {false});
                bool got = is_satisfied<F>(bp, as);
                evaluated(id + what);
                count(bad.empty() ? "satisfied tables" : bad[0].kind == broken::gate ? "tables breaking a gate" : bad[0].kind == broken::lookup ? "tables breaking a lookup" : "tables breaking a copy");
                if (got != bad.empty()) violation(got ? "sat:accepts" : "sat:rejects", what + (got ? ": accepted, but " + bad[0].str() + " is broken" : ": rejected, but nothing is broken"));
                // any selection of gates, copies and rows
                std::set<std::uint32_t> gs, ls, cs, rs;
                for (std::uint32_t i = 0; i < bp.gates().size(); i++) if (g.chance(2, 3)) gs.insert(i);
                for (std::uint32_t i = 0; i < bp.lookup_gates().size(); i++) if (g.chance(2, 3)) ls.insert(i);
                for (std::uint32_t i = 0; i < bp.copy_constraints().size(); i++) if (g.chance(2, 3)) cs.insert(i);
                for (std::uint32_t i = 0; i < R; i++) if (g.chance(2, 3)) rs.insert(i);
                judge_options o{false};
                o.gates = &gs; o.lookup_gates = &ls; o.copies = &cs; o.rows = &rs;
                auto part = judge<F>(bp, gr, o);
                bool pgot = is_satisfied<F>(bp, as, gs, ls, cs, rs);
                evaluated(id + what + "part");
                if (pgot != part.empty()) violation(pgot ? "sat:part-accepts" : "sat:part-rejects", what + " (a selection): " + (pgot ? "accepted, but " + part[0].str() + " is broken" : "rejected, but nothing selected is broken"));
            };
            compare("built");
            for (int k = 0; k < (crowd ? 24 : 5); k++) {
                // damage one cell
                V *cell;
                std::size_t r = g.range(0, R - 1);
                std::string what;
                switch (g.range(0, 5)) {
                    case 0: if (K) { cell = &as.constant(g.range(0, K - 1), r); what = "constant"; break; }
                    case 1: cell = &as.public_input(0, r); what = "public input"; break;
                    case 2: if (shared) { cell = &as.shared(0, r); what = "shared"; break; }
                    default: cell = &as.witness(g.range(0, W - 1), r); what = "witness";
                }
                V old = *cell;
                V bump = g.chance(1, 2) ? V(1) : gn.small() + V(1);
                *cell = old + bump;
                compare("damaged " + what);
                *cell = old;
            }
            {
                std::size_t s = g.range(0, std::max<std::size_t>(bp.get_next_selector_index(), 1) - 1);
                std::size_t r = g.range(1, R - 2);
                as.enable_selector(s, r);
                compare("enabled one more row");
            }
            sample(id + ": " + std::to_string(bp.gates().size()) + " gates " + std::to_string(bp.lookup_gates().size()) + " lookup gates " + std::to_string(bp.copy_constraints().size()) + " copies, " + std::to_string(R) + " rows");
        });
    }
}

template<typename F>
static void connectedness(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    for (std::uint64_t b = 0; b < scaled(90000, 600000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("conn/" + id, "conn", [&] {
            auto g = case_rng("conn" + id);
            bool big = g.chance(1, 20);
            std::size_t W = big ? g.range(5, 15) : g.range(2, 5), K = g.range(0, 3), R = big ? g.range(8, g.chance(1, 4) ? 150 : 40) : g.range(3, 8), start = g.chance(1, 10) ? g.range(4, 300) : g.range(0, 3);
            std::size_t NI = g.chance(1, 6) ? g.range(5, 12) : g.range(1, 4);
            circuit_t<F> bp;
            assignment_t<F> as(W, 1, K, 40);
            for (std::size_t r = 0; r < start + R; r++) {
                for (std::size_t i = 0; i < W; i++) as.witness(i, r) = V(0);
                for (std::size_t i = 0; i < K; i++) as.constant(i, r) = V(0);
            }
            // model: cells of the component and the public inputs
            std::map<var, var> up;
            std::function<var(var)> find = [&](var v) -> var {
                auto it = up.find(v);
                if (it == up.end()) { up.insert({v, v}); return v; }
                if (it->second == v) return v;
                return find(it->second);
            };
            auto unite = [&](const var &x, const var &y) { var a = find(x), c = find(y); if (a != c) up[a] = c; };
            std::vector<var> touched;
            auto cell = [&]() {
                std::size_t r = start + g.range(0, R - 1);
                if (K && g.chance(1, 5)) return var(g.range(0, K - 1), r, false, var::column_type::constant);
                if (g.chance(1, 4)) return var(0, g.range(0, NI - 1), false, var::column_type::public_input);
                return var(g.range(0, W - 1), r, false, var::column_type::witness);
            };
            gen<F> gn{g, W, K};
            std::size_t ng = big && g.chance(1, 2) ? g.range(5, 30) : g.range(0, 4);
            for (std::size_t i = 0; i < ng; i++) {
                std::vector<C> cs;
                std::size_t s;
                if (g.chance(3, 4)) {
                    for (std::size_t k = g.range(1, 2); k > 0; k--) { cs.push_back(gn.expr(unsigned(g.range(0, 2)))); }
                    s = bp.add_gate(cs);
                } else {
                    std::vector<L> many(g.chance(1, 2) ? 1 : g.range(2, 3));
                    for (auto &l : many) {
                        l.table_id = g.range(1, 3);
                        for (std::size_t k = g.range(1, 2); k > 0; k--) { l.lookup_input.push_back(gn.expr(1)); }
                    }
                    s = bp.add_lookup_gate(many);
                }
                for (std::size_t k = g.range(0, 2); k > 0; k--) {
                    std::size_t r = start + g.range(1, R - 2);
                    as.enable_selector(s, r);
                    if (g.chance(1, 8)) as.selector(s, r) = V(2);
                }
            }
            auto apply = [&](std::size_t s, const std::set<var> &vars) {
                if (as.selector_column_size(s) == 0) return;
                for (std::size_t r = start; r < std::min<std::size_t>(start + R, as.selector_column_size(s)); r++) {
                    if (as.selector(s)[r].is_zero()) continue;
                    std::vector<var> abs;
                    for (auto &v : vars) abs.push_back(var(v.index, std::int32_t(r) + v.rotation, false, v.type));
                    for (auto &a : abs) { touched.push_back(a); unite(a, abs[0]); }
                }
            };
            for (auto &gt : bp.gates()) { std::set<var> vs; for (auto &c : gt.constraints) each_var<F>(c, [&](const var &v) { vs.insert(v); }); apply(gt.selector_index, vs); }
            for (auto &gt : bp.lookup_gates()) { std::set<var> vs; for (auto &c : gt.constraints) for (auto &e : c.lookup_input) each_var<F>(e, [&](const var &v) { vs.insert(v); }); apply(gt.tag_index, vs); }
            std::vector<var> in, out;
            for (std::size_t i = 0; i < NI; i++) in.push_back(g.chance(3, 4) ? var(0, i, false, var::column_type::public_input) : cell());
            bool linking = g.chance(2, 3);
            if (linking) {
                std::vector<var> ends = touched;
                ends.insert(ends.end(), in.begin(), in.end());
                for (auto &x : ends) {
                    if (g.chance(1, 16)) continue;
                    var y = g.chance(1, 2) ? in[0] : g.pick(ends);
                    bp.add_copy_constraint({x, y});
                    if (x == y) continue;
                    touched.push_back(x); touched.push_back(y);
                    unite(x, y);
                }
            }
            for (std::size_t k = linking ? g.range(0, 1) : g.range(0, 6); k > 0; k--) {
                var x = cell(), y = cell();
                bp.add_copy_constraint({x, y});
                if (x == y) continue;
                touched.push_back(x); touched.push_back(y);
                unite(x, y);
            }
            for (std::size_t k = g.chance(1, 6) ? g.range(4, 10) : g.range(1, 3); k > 0; k--) {
                if (!touched.empty() && g.chance(linking ? 15 : 10, 16)) out.push_back(g.pick(touched));
                else out.push_back(cell());
            }
            std::set<var> zin, zout, zall;
            for (auto &v : in) { zin.insert(find(v)); zall.insert(find(v)); }
            for (auto &v : out) { zout.insert(find(v)); zall.insert(find(v)); }
            bool strong = zall.size() == 1;
            bool weak = zin == zout;
            bool islands = true;
            for (auto &t : touched) if (!zall.count(find(t))) islands = false;
            std::vector<std::reference_wrapper<var>> ri(in.begin(), in.end()), ro(out.begin(), out.end());
            using T = connectedness_check_type;
            struct { T t; bool want; const char *name; } q[] = {
                {T(T::type::NONE), true, "none"},
                {T(T::type::WEAK, T::island_type::NONE), weak, "weak"},
                {T(T::type::STRONG, T::island_type::NONE), strong, "strong"},
                {T(T::type::WEAK, T::island_type::ISLANDS), weak && islands, "weak with islands"},
                {T(T::type::STRONG), strong && islands, "strong with islands"}};
            for (auto &x : q) {
                bool got = check_connectedness<F>(as, bp, ri, ro, start, R, x.t);
                evaluated(id + x.name);
                count(std::string("answers ") + x.name + (x.want ? " yes" : " no"));
                if (got != x.want) violation(std::string("conn:") + x.name, std::string(x.name) + " gives " + (got ? "connected" : "not connected") + ", expected the opposite");
            }
            sample(id + ": " + std::to_string(bp.gates().size()) + " gates, " + std::to_string(bp.copy_constraints().size()) + " copies, strong " + std::to_string(strong) + " weak " + std::to_string(weak) + " islands ok " + std::to_string(islands));
        });
    }
}

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    const std::string &p = st().prop;
    if (p.empty() || p == "C11") { identity<fields::pallas_base_field>("pallas"); identity<fields::goldilocks64>("goldilocks"); near_gates<fields::pallas_base_field>("pallas"); near_gates<fields::goldilocks64>("goldilocks"); }
    if (p.empty() || p == "C12") { satisfiability<fields::pallas_base_field>("pallas"); }
    if (p.empty() || p == "C13") { connectedness<fields::pallas_base_field>("pallas"); }
    return finish();
}
