// C16 (proxies of circuits and tables), C20 (exports).
#include "oracle.hpp"
#include "gen.hpp"
#include <nil/blueprint/utils/satisfiability_check.hpp>
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>

using namespace nil::blueprint;
namespace fields = nil::crypto3::algebra::fields;
using namespace vf;

template<typename F> using cproxy = circuit_proxy<system_t<F>>;
template<typename F> using aproxy = assignment_proxy<system_t<F>>;

struct silence {    // what goes to the standard output meanwhile
    std::ostringstream text;
    std::streambuf *old;
    silence() : old(std::cout.rdbuf(text.rdbuf())) { std::cout.clear(); }
    ~silence() { std::cout.rdbuf(old); std::cout.setstate(std::ios::failbit); }
};

template<typename S> static std::string show_set(const S &s) {
    std::string r = "{";
    for (auto x : s) r += " " + std::to_string(x);
    return r + " }";
}

template<typename F>
static std::string table_difference(const assignment_t<F> &x, const assignment_t<F> &y) {
    grid<F> a(x), b(y);
    auto cmp = [](const char *n, const auto &p, const auto &q) -> std::string {
        if (p.size() != q.size()) return std::string(n) + " columns: " + std::to_string(p.size()) + " against " + std::to_string(q.size());
        for (std::size_t i = 0; i < p.size(); i++) {
            if (p[i].size() != q[i].size()) return std::string(n) + " column " + std::to_string(i) + " has " + std::to_string(p[i].size()) + " rows against " + std::to_string(q[i].size());
            for (std::size_t r = 0; r < p[i].size(); r++) if (p[i][r] != q[i][r]) return std::string(n) + " column " + std::to_string(i) + " differs on row " + std::to_string(r);
        }
        return "";
    };
    std::string d = cmp("witness", a.w, b.w);
    if (d.empty()) d = cmp("public", a.p, b.p);
    if (d.empty()) d = cmp("constant", a.c, b.c);
    if (d.empty()) d = cmp("selector", a.s, b.s);
    if (d.empty()) d = cmp("shared", a.sh, b.sh);
    if (d.empty() && x.rows_amount() != y.rows_amount()) d = "rows amount";
    if (d.empty() && x.private_storage_size() != y.private_storage_size()) d = "private storage size";
    if (d.empty()) for (std::size_t i = 0; i < x.private_storage_size(); i++) if (x.private_storage(i) != y.private_storage(i)) d = "private storage";
    if (d.empty() && (x.get_lookup_constant_cols() != y.get_lookup_constant_cols() || x.get_lookup_selector_cols() != y.get_lookup_selector_cols() ||
                      x.get_lookup_constant_amount() != y.get_lookup_constant_amount() || x.get_lookup_selector_amount() != y.get_lookup_selector_amount()))
        d = "lookup columns";
    return d;
}

template<typename F>
static std::string circuit_difference(const circuit_t<F> &x, const circuit_t<F> &y) {
    using P = poly<F>;
    if (x.gates().size() != y.gates().size()) return "gates " + std::to_string(x.gates().size()) + " against " + std::to_string(y.gates().size());
    if (x.num_gates() != y.num_gates() || x.num_lookup_gates() != y.num_lookup_gates()) return "announced gate amounts";
    for (std::size_t i = 0; i < x.gates().size(); i++) {
        auto &a = x.gates()[i], &b = y.gates()[i];
        if (a.selector_index != b.selector_index || a.constraints.size() != b.constraints.size()) return "gate " + std::to_string(i);
        for (std::size_t k = 0; k < a.constraints.size(); k++) if (!(P::of(a.constraints[k]) == P::of(b.constraints[k]))) return "gate " + std::to_string(i) + " constraint " + std::to_string(k);
    }
    if (x.lookup_gates().size() != y.lookup_gates().size()) return "lookup gates " + std::to_string(x.lookup_gates().size()) + " against " + std::to_string(y.lookup_gates().size());
    for (std::size_t i = 0; i < x.lookup_gates().size(); i++) {
        auto &a = x.lookup_gates()[i], &b = y.lookup_gates()[i];
        if (a.tag_index != b.tag_index || a.constraints.size() != b.constraints.size()) return "lookup gate " + std::to_string(i);
        for (std::size_t k = 0; k < a.constraints.size(); k++) if (a.constraints[k].table_id != b.constraints[k].table_id) return "lookup gate " + std::to_string(i) + " table";
    }
    if (x.copy_constraints().size() != y.copy_constraints().size()) return "copy constraints";
    for (std::size_t i = 0; i < x.copy_constraints().size(); i++)
        if (x.copy_constraints()[i].first != y.copy_constraints()[i].first || x.copy_constraints()[i].second != y.copy_constraints()[i].second) return "copy constraint " + std::to_string(i);
    if (x.get_next_selector_index() != y.get_next_selector_index()) return "next selector " + std::to_string(x.get_next_selector_index()) + " against " + std::to_string(y.get_next_selector_index());
    if (x.lookup_tables().size() != y.lookup_tables().size()) return "lookup tables";
    auto &ix = x.get_reserved_indices(), &iy = y.get_reserved_indices();
    if (ix.size() != iy.size()) return "reserved tables";
    for (auto it = iy.begin(); it != iy.end(); it++) {
        if (ix.find(it->first) == ix.end() || ix.at(it->first) != it->second) return "index of table " + it->first;
        if (x.get_reserved_indices_right().at(it->second) != it->first) return "table of an index";
    }
    return "";
}

template<typename F>
static void proxies(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    using ex = nil::crypto3::math::expression<var>;
    for (std::uint64_t b = 0; b < scaled(2500, 40000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("proxy/" + id, "proxy", [&] {
            auto g = case_rng("proxy" + id);
            bool big = g.chance(1, 60);
            std::size_t W = big ? g.range(1, 20) : g.range(1, 5), K = big ? g.range(1, 6) : g.range(1, 2), S = big ? 150 : 16, N = big ? g.range(2, 12) : g.range(1, 4), R = big ? g.range(30, 700) : g.range(4, 12);
            if (big) count("long histories");
            auto bp = std::make_shared<circuit_t<F>>();
            auto as = std::make_shared<assignment_t<F>>(W, 1, K, S);
            circuit_t<F> plain;
            assignment_t<F> table(W, 1, K, S);
            std::vector<cproxy<F>> cp;
            std::vector<aproxy<F>> ap;
            for (std::uint32_t i = 0; i < N; i++) { cp.emplace_back(bp, i); ap.emplace_back(as, i); }
            struct uses { std::set<std::uint32_t> gates, lookups, copies, tables, rows, selectors; };
            std::vector<uses> u(N);
            gen<F> gn{g, W, K};
            std::vector<std::vector<C>> pool;
            std::vector<std::vector<L>> lpool;
            std::vector<std::string> tnames = {"byte_range_table/full", "binary_and_table/full", "binary_xor_table/full"};
            std::size_t dyn = 0;
            bool read = false;
            std::vector<std::size_t> sels;
            auto first_gate = [&](std::size_t s) { std::uint32_t i = 0; while (plain.gates()[i].selector_index != s) i++; return i; };
            auto first_lookup = [&](std::size_t s) { std::uint32_t i = 0; while (plain.lookup_gates()[i].tag_index != s) i++; return i; };
            auto random_var = [&] {
                switch (g.range(0, 6)) {
                    case 0: return var(0, g.range(0, R - 1), false, var::column_type::public_input);
                    case 1: return var(g.range(0, K - 1), g.range(0, R - 1), false, var::column_type::constant);
                    case 2: return var(assignment_t<F>::private_storage_index, g.range(0, 3), false, var::column_type::public_input);
                    default: return var(g.range(0, W - 1), g.range(0, R - 1), false, var::column_type::witness);
                }
            };
            auto compare = [&](const std::string &what) {
                evaluated(id + what);
                for (std::size_t i = 0; i < N; i++) {
                    std::string d = circuit_difference<F>(cp[i], plain);
                    if (d.empty()) d = circuit_difference<F>(cp[i].get(), plain);
                    if (!d.empty()) { violation("proxy:circuit", what + ": seen through proxy " + std::to_string(i) + " the circuit differs from one that got the same calls: " + d); return false; }
                    d = table_difference<F>(ap[i], table);
                    if (d.empty()) d = table_difference<F>(ap[i].get(), table);
                    if (d.empty() && ap[i].allocated_rows() != as->allocated_rows()) d = "allocated rows";
                    if (!d.empty()) { violation("proxy:table", what + ": seen through proxy " + std::to_string(i) + " the table differs from one that got the same calls: " + d); return false; }
                    auto same = [&](const char *n, const auto &got, const auto &want) {
                        if (got == want) return true;
                        violation("proxy:used", what + ": proxy " + std::to_string(i) + " used " + n + " " + show_set(got) + ", expected " + show_set(want));
                        return false;
                    };
                    if (cp[i].get_id() != i || ap[i].get_id() != i) violation("proxy:id", "a proxy changed its id");
                    if (!same("gates", cp[i].get_used_gates(), u[i].gates) || !same("lookup gates", cp[i].get_used_lookup_gates(), u[i].lookups) ||
                        !same("copy constraints", cp[i].get_used_copy_constraints(), u[i].copies) || !same("lookup tables", cp[i].get_used_lookup_tables(), u[i].tables) ||
                        !same("rows", ap[i].get_used_rows(), u[i].rows) || !same("selector rows", ap[i].get_used_selector_rows(), u[i].selectors)) return false;
                }
                return true;
            };
            std::size_t steps = big ? g.range(300, 900) : g.range(5, 40);
            for (std::size_t k = 0; k < steps; k++) {
                std::size_t i = g.range(0, N - 1);
                circuit_t<F> &c = cp[i];
                assignment_t<F> &a = ap[i];
                std::string what;
                switch (g.range(0, 19)) {
                    case 0: case 1: {
                        std::vector<C> v;
                        if (pool.empty() || g.chance(1, 2)) { for (std::size_t n = g.range(1, 3); n > 0; n--) v.push_back(gn.expr(2) + ex(V(k + 1))); pool.push_back(v); }
                        else v = g.pick(pool);
                        if (plain.get_next_selector_index() >= S) continue;
                        std::size_t s, want;
                        if (v.size() == 1 && g.chance(1, 2)) { s = c.add_gate(v[0]); want = plain.add_gate(v[0]); }
                        else if (v.size() == 2 && g.chance(1, 2)) { s = c.add_gate({v[0], v[1]}); want = plain.add_gate({v[0], v[1]}); }
                        else { s = c.add_gate(v); want = plain.add_gate(v); }
                        what = "gate";
                        if (s != want) { violation("proxy:selector", "gate added through a proxy got selector " + std::to_string(s) + ", expected " + std::to_string(want)); return; }
                        u[i].gates.insert(first_gate(want));
                        sels.push_back(want);
                        break;
                    }
                    case 2: {
                        if (sels.empty()) continue;
                        std::size_t s = g.pick(sels);
                        std::vector<C> v{C(gn.expr(2))};
                        c.add_gate(s, v); plain.add_gate(s, v);
                        u[i].gates.insert(plain.gates().size() - 1);
                        what = "gate on a given selector";
                        break;
                    }
                    case 3: case 4: {
                        if (plain.get_reserved_indices().empty() || plain.get_next_selector_index() >= S) continue;
                        std::vector<L> v;
                        if (lpool.empty() || g.chance(1, 2)) {
                            for (std::size_t n = g.range(1, 2); n > 0; n--) {
                                L l;
                                l.table_id = g.range(1, plain.get_reserved_indices().size());
                                std::string name = plain.get_reserved_indices_right().at(l.table_id);
                                std::size_t cols = name.find("binary") != std::string::npos ? 3 : 1;
                                for (std::size_t q = 0; q < cols; q++) l.lookup_input.push_back(C(gn.expr(1)));
                                v.push_back(l);
                            }
                            lpool.push_back(v);
                        } else v = g.pick(lpool);
                        std::size_t s, want;
                        if (v.size() == 1 && g.chance(1, 2)) { s = c.add_lookup_gate(v[0]); want = plain.add_lookup_gate(v[0]); }
                        else if (v.size() == 2 && g.chance(1, 2)) { s = c.add_lookup_gate({v[0], v[1]}); want = plain.add_lookup_gate({v[0], v[1]}); }
                        else { s = c.add_lookup_gate(v); want = plain.add_lookup_gate(v); }
                        what = "lookup gate";
                        if (s != want) { violation("proxy:selector", "lookup gate added through a proxy got selector " + std::to_string(s) + ", expected " + std::to_string(want)); return; }
                        u[i].lookups.insert(first_lookup(want));
                        sels.push_back(want);
                        if (g.chance(1, 3)) {
                            c.add_lookup_gate(want, v); plain.add_lookup_gate(want, v);
                            u[i].lookups.insert(plain.lookup_gates().size() - 1);
                            what = "lookup gate on a given selector";
                        }
                        break;
                    }
                    case 5: case 6: {
                        var x = random_var(), y = g.chance(1, 6) ? x : random_var();
                        std::size_t before = plain.copy_constraints().size();
                        c.add_copy_constraint({x, y}); plain.add_copy_constraint({x, y});
                        what = plain.copy_constraints().size() == before ? "copy constraint left out" : "copy constraint";
                        if (plain.copy_constraints().size() != before) u[i].copies.insert(before);
                        break;
                    }
                    case 7: {
                        if (read) continue;
                        std::string name = g.pick(tnames);
                        c.reserve_table(name); plain.reserve_table(name);
                        u[i].tables.insert(plain.get_reserved_indices().at(name) - 1);
                        what = "table";
                        break;
                    }
                    case 8: {
                        if (read || plain.get_next_selector_index() + 1 >= S) continue;
                        std::string name = "dyn" + std::to_string(dyn++);
                        c.reserve_dynamic_table(name); plain.reserve_dynamic_table(name);
                        u[i].tables.insert(plain.get_reserved_indices().at(name) - 1);
                        std::size_t s = c.get_dynamic_lookup_table_selector(), want = plain.get_dynamic_lookup_table_selector();
                        if (s != want) { violation("proxy:selector", "dynamic table selector " + std::to_string(s) + ", expected " + std::to_string(want)); return; }
                        snark::plonk_lookup_table<F> t(1, s);
                        t.append_option(std::vector<C>{C(gn.expr(1))});
                        c.define_dynamic_table(name, t); plain.define_dynamic_table(name, t);
                        if (c.get_dynamic_table_definition(name)->lookup_table.tag_index != want) violation("proxy:dynamic", "definition read back through a proxy differs");
                        what = "dynamic table";
                        break;
                    }
                    case 9: {
                        if (plain.get_reserved_indices().empty()) continue;
                        read = true;
                        for (auto &p : cp) {
                            const auto &x = p.get_reserved_dynamic_tables(), &y = plain.get_reserved_dynamic_tables();
                            const auto &p1 = p.get_reserved_tables(), &p2 = plain.get_reserved_tables();
                            bool ok = x.size() == y.size() && p1.size() == p2.size();
                            for (auto &e : y) ok = ok && x.count(e.first) && x.at(e.first)->is_defined() == e.second->is_defined() && x.at(e.first)->lookup_table.tag_index == e.second->lookup_table.tag_index;
                            for (auto &e : p2) ok = ok && p1.count(e.first) && p1.at(e.first)->get_table() == e.second->get_table() && p1.at(e.first)->subtables.size() == e.second->subtables.size();
                            if (!ok) { violation("proxy:tables", "reserved tables seen through a proxy differ"); return; }
                        }
                        what = "reserved tables read";
                        break;
                    }
                    case 10: case 11: {
                        std::size_t s = g.range(0, S - 1), r = g.range(0, R - 1);
                        if (g.chance(1, 2)) {
                            a.enable_selector(s, r); table.enable_selector(s, r);
                            u[i].rows.insert(r); u[i].selectors.insert(r);
                            what = "selector enabled";
                        } else if (g.chance(1, 2)) {
                            std::size_t e = g.range(r, R - 1), st = g.range(1, 3);
                            a.enable_selector(s, r, e, st); table.enable_selector(s, r, e, st);
                            for (std::size_t q = r; q <= e; q += st) { u[i].rows.insert(q); u[i].selectors.insert(q); }
                            what = "selectors enabled";
                        } else {
                            V v = gn.small();
                            a.selector(s, r) = v; table.selector(s, r) = v;
                            u[i].rows.insert(r); u[i].selectors.insert(r);
                            what = "selector set";
                        }
                        break;
                    }
                    case 12: {
                        std::size_t x = g.range(0, K - 1), r = g.range(0, R - 1);
                        V v = gn.small();
                        a.constant(x, r) = v; table.constant(x, r) = v;
                        u[i].rows.insert(r);
                        what = "constant";
                        break;
                    }
                    case 13: {
                        std::size_t r = g.range(0, R - 1);
                        V v = gn.small();
                        a.public_input(0, r) = v; table.public_input(0, r) = v;
                        what = "public input";
                        break;
                    }
                    case 14: {
                        std::size_t r = g.chance(1, 12) ? g.range(50, 400) : g.range(0, R + 2);
                        V v = gn.small();
                        if (g.chance(1, 2)) { a.shared(0, r) = v; table.shared(0, r) = v; what = "shared"; }
                        else { a.private_storage(r) = v; table.private_storage(r) = v; what = "private storage"; }
                        break;
                    }
                    case 15: {
                        std::size_t w = g.range(0, W - 1);
                        if (!as->witness_column_size(w)) continue;
                        var v(w, g.range(0, as->witness_column_size(w) - 1), false, var::column_type::witness);
                        std::size_t row = table.shared_column_size(0);
                        V want = table.witness(w)[v.rotation];
                        if (row && g.chance(1, 3)) { v = var(1, g.range(0, row - 1), false, var::column_type::public_input); want = table.shared(0)[v.rotation]; }    // what was shared is shared again
                        if (g.chance(1, 3)) {    // several at once
                            std::vector<var> many(g.range(1, 4), v);
                            auto got = save_shared_var<F>(ap[i], many);
                            for (std::size_t q = 0; q < many.size(); q++) table.shared(0, row + q) = want;
                            bool ok = got.size() == many.size();
                            for (std::size_t q = 0; ok && q < got.size(); q++) ok = got[q] == var(1, row + q, false, var::column_type::public_input) && var_value<F>(ap[i], got[q]) == want;
                            if (!ok) { violation("proxy:shared", "variables shared together do not lead to their values"); return; }
                            what = "shared variables";
                            break;
                        }
                        var got = save_shared_var<F>(ap[i], v);
                        table.shared(0, row) = want;
                        what = "shared variable";
                        if (got != var(1, row, false, var::column_type::public_input) || var_value<F>(ap[g.range(0, N - 1)], got) != want) { violation("proxy:shared", "a shared variable does not lead to the value that was shared"); return; }
                        break;
                    }
                    case 16: {
                        if (g.chance(2, 3)) continue;
                        snark::plonk_column<F> col;
                        for (std::size_t r = g.range(1, R); r > 0; r--) col.push_back(gn.small());
                        if (g.chance(1, 2)) { std::size_t x = g.range(0, K - 1); a.fill_constant(x, col); table.fill_constant(x, col); what = "constant column filled"; }
                        else { std::size_t x = g.range(0, S - 1); a.fill_selector(x, col); table.fill_selector(x, col); what = "selector column filled"; }
                        break;
                    }
                    case 17: {
                        if (g.chance(3, 4)) continue;
                        switch (g.range(0, 2)) {
                            case 0: W++; a.resize_witnesses(W); table.resize_witnesses(W); gn.W = W; what = "witnesses resized"; break;
                            case 1: K++; a.resize_constants(K); table.resize_constants(K); gn.C = K; what = "constants resized"; break;
                            default: S++; a.resize_selectors(S); table.resize_selectors(S); what = "selectors resized";
                        }
                        break;
                    }
                    default: {
                        std::size_t x = g.range(0, W - 1), r = g.range(0, R - 1);
                        V v = gn.small();
                        a.witness(x, r) = v; table.witness(x, r) = v;
                        u[i].rows.insert(r);
                        what = "witness";
                    }
                }
                saw("calls through proxies", what);
                if ((!big || g.chance(1, 60)) && !compare(what)) return;
            }
            if (big && !compare("all calls")) return;
            // a watching proxy complains exactly about reading what it does not own, and still reads right
            for (std::size_t i = 0; i < N; i++) {
                bool on = g.chance(4, 5);
                ap[i].set_check(on);
                const assignment_t<F> &a = ap[i], &t = table;
                for (int k = 0; k < 12; k++) {
                    unsigned kind = unsigned(g.range(0, 3));
                    std::size_t n = kind == 0 ? W : kind == 1 ? K : kind == 2 ? S : 1, x = g.range(0, n - 1);
                    std::size_t size = kind == 0 ? t.witness_column_size(x) : kind == 1 ? t.constant_column_size(x) : kind == 2 ? t.selector_column_size(x) : t.shared_column_size(0);
                    if (!size) continue;
                    std::size_t r = g.range(0, size - 1);
                    bool owned = kind == 0 ? u[i].rows.count(r) : kind == 1 ? u[i].rows.count(r) || t.get_lookup_constant_cols().count(x) : kind == 2 ? u[i].selectors.count(r) || t.get_lookup_selector_cols().count(x) : true;
                    bool complained = false, read = true;
                    V got, want = kind == 0 ? t.witness(x, r) : kind == 1 ? t.constant(x, r) : kind == 2 ? t.selector(x, r) : t.shared(0, r);
                    {
                        silence s;
                        try { got = kind == 0 ? a.witness(x, r) : kind == 1 ? a.constant(x, r) : kind == 2 ? a.selector(x, r) : a.shared(0, r); }
                        catch (const std::exception &) { complained = true; read = false; }
                        complained |= !s.text.str().empty();
                    }
                    std::string what = std::string(kind == 0 ? "witness" : kind == 1 ? "constant" : kind == 2 ? "selector" : "shared value") + " on row " + std::to_string(r);
                    evaluated(id + what + std::to_string(k) + "w" + std::to_string(i));
                    count(owned ? "own cells read" : "foreign cells read");
                    if (complained != (on && !owned)) { violation("proxy:watch", complained ? "reading " + what + " was reported as foreign" : "reading a foreign " + what + " was not reported"); return; }
                    if (read && got != want) { violation("proxy:watch", what + " reads differently through a proxy"); return; }
                }
                ap[i].set_check(false);
            }
            sample(id + ": " + std::to_string(N) + " proxies, " + std::to_string(plain.gates().size()) + " gates, " + std::to_string(steps) + " calls");
        });
    }
    // which proxies are satisfied?
    for (std::uint64_t b = 0; b < scaled(5000, 50000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("proxysat/" + id, "proxysat", [&] {
            auto g = case_rng("proxysat" + id);
            bool big = g.chance(1, 60);
            std::size_t W = g.range(1, big ? 16 : 5), K = g.range(1, 2), S = big ? 100 : 16, N = g.range(1, big ? 8 : 3), R = big ? g.range(20, 120) : g.range(4, 12);
            auto bp = std::make_shared<circuit_t<F>>();
            auto as = std::make_shared<assignment_t<F>>(W, 1, K, S);
            std::vector<cproxy<F>> cp;
            std::vector<aproxy<F>> ap;
            for (std::uint32_t i = 0; i < N; i++) { cp.emplace_back(bp, i); ap.emplace_back(as, i); }
            gen<F> gn{g, W, K};
            bool small = g.chance(1, 2);
            for (std::size_t r = 0; r < R; r++) {
                std::size_t i = g.range(0, N - 1);
                for (std::size_t w = 0; w < W; w++) ap[i].witness(w, r) = small ? V(g.range(0, 1)) : gn.small();
                for (std::size_t w = 0; w < K; w++) ap[i].constant(w, r) = gn.small();
                as->public_input(0, r) = V(g.range(0, 1));
            }
            cp[0].reserve_table("binary_xor_table/full");
            cp[0].reserve_table("byte_range_table/full");
            grid<F> g0(*as);
            auto value = [&](const ex &e, std::size_t r) { return eval<F>(e, [&](const var &v) { return g0.get(v, r); }); };
            for (std::size_t n = big ? g.range(20, 90) : g.range(1, 6); n > 0; n--) {
                std::size_t i = g.range(0, N - 1), r = g.range(1, R - 2);
                ex e = gn.expr(2);
                if (g.chance(2, 3)) {
                    std::size_t s = cp[i].add_gate(C(e - ex(value(e, r))));
                    ap[g.chance(4, 5) ? i : g.range(0, N - 1)].enable_selector(s, r);
                } else {
                    L l;
                    V x(g.range(0, big ? 256 : 300));
                    l.table_id = cp[i].get_reserved_indices().at("byte_range_table/full");
                    l.lookup_input = {C(e - ex(value(e, r)) + ex(x))};
                    std::size_t s = cp[i].add_lookup_gate(l);
                    ap[g.chance(4, 5) ? i : g.range(0, N - 1)].enable_selector(s, r);
                }
            }
            for (std::size_t n = big ? g.range(0, 150) : g.range(0, 3); n > 0; n--) {
                var x(g.range(0, W - 1), g.range(0, R - 1), false, var::column_type::witness), y(g.range(0, W - 1), g.range(0, R - 1), false, var::column_type::witness);
                if (g0.get(x) == g0.get(y) || (!big && g.chance(1, 10))) cp[g.range(0, N - 1)].add_copy_constraint({x, y});
            }
            for (int round = 0; round < (big ? 8 : 4); round++) {
                grid<F> gr(*as);
                for (std::size_t i = 0; i < N; i++) {
                    judge_options o{true};
                    o.gates = &cp[i].get_used_gates(); o.lookup_gates = &cp[i].get_used_lookup_gates(); o.copies = &cp[i].get_used_copy_constraints(); o.rows = &ap[i].get_used_selector_rows();
                    auto bad = judge<F>(*bp, gr, o);
                    bool got = is_satisfied<F>(cp[i], ap[i]);
                    evaluated(id + "r" + std::to_string(round) + "p" + std::to_string(i));
                    count(bad.empty() ? "satisfied proxies" : "broken proxies");
                    if (got != bad.empty()) violation(got ? "proxysat:accepts" : "proxysat:rejects", got ? "accepted, but " + bad[0].str() + " of the proxy is broken" : "rejected, but nothing the proxy uses is broken");
                }
                std::size_t r = g.range(0, R - 1);
                as->witness(g.range(0, W - 1), r) = gn.small();
            }
        });
    }
}

// ---- exports

static std::vector<std::vector<std::vector<std::string>>> table_rows(const std::string &text, bool numbered) {
    std::vector<std::vector<std::vector<std::string>>> out;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.find('|') == std::string::npos) continue;
        std::vector<std::vector<std::string>> row(1);
        std::istringstream l(line);
        std::string tok;
        if (numbered) l >> tok;
        while (l >> tok) {
            if (tok == "|") row.emplace_back();
            else row.back().push_back(tok);
        }
        out.push_back(row);
    }
    return out;
}
static long header(const std::string &text, const std::string &name) {
    auto p = text.find(name + ": ");
    if (p == std::string::npos) return -1;
    return std::stol(text.substr(p + name.size() + 2));
}
static std::set<std::size_t> listed(const std::string &text, const std::string &name) {
    std::set<std::size_t> r;
    auto p = text.find("\n" + name + ": ");
    if (p == std::string::npos) return r;
    std::istringstream in(text.substr(p + name.size() + 3, text.find('\n', p + 1) - p - name.size() - 3));
    for (std::size_t x; in >> x;) r.insert(x);
    return r;
}
template<typename V> static std::string hexa(const V &v, std::size_t width) {
    std::ostringstream o;
    o << std::hex << std::setfill('0') << std::setw(int(width)) << v.data;
    return o.str();
}

template<typename F>
static void exports(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    using col = std::vector<std::vector<V>>;
    using ranges = std::vector<std::pair<std::size_t, std::size_t>>;
    for (std::uint64_t b = 0; b < scaled(15000, 100000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("export/" + id, "export", [&] {
            auto g = case_rng("export" + id);
            bool big = g.chance(1, 200);
            std::size_t W = g.range(0, big ? 24 : 4), K = g.range(0, big ? 12 : 3), S = g.range(0, big ? 50 : 4), R = g.range(0, big ? 200 : 8), P = g.range(1, big ? 6 : 2);
            if (big) count("large exports");
            if (g.chance(1, 20)) P = 0;
            auto bp = std::make_shared<circuit_t<F>>();
            auto as = std::make_shared<assignment_t<F>>(W, P, K, S);
            cproxy<F> cp(bp, 1), other(bp, 2);
            aproxy<F> ap(as, 1);
            gen<F> gn{g, std::max<std::size_t>(W, 1), K};
            auto fill = [&](std::size_t n, auto set) { for (std::size_t i = 0; i < n; i++) for (std::size_t r = 0, e = R ? g.range(0, R) : 0; r < e; r++) set(i, r); };
            std::set<std::size_t> used, usedsel;
            fill(W, [&](std::size_t i, std::size_t r) { if (g.chance(1, 2)) { ap.witness(i, r) = gn.small(); used.insert(r); } else as->witness(i, r) = gn.small(); });
            fill(P, [&](std::size_t i, std::size_t r) { ap.public_input(i, r) = gn.small(); });
            fill(K, [&](std::size_t i, std::size_t r) { as->constant(i, r) = gn.small(); });
            auto sv = [&]() -> V { return g.chance(1, 8) ? gn.small() : V(g.range(0, 1)); };
            fill(S, [&](std::size_t i, std::size_t r) { if (g.chance(1, 3)) { ap.selector(i, r) = sv(); used.insert(r); usedsel.insert(r); } else as->selector(i, r) = sv(); });
            std::set<std::size_t> lc, ls;
            for (std::size_t k = 0; k < 2; k++) if (g.chance(1, 3)) {
                snark::plonk_column<F> column;
                for (std::size_t r = g.range(1, R + 1); r > 0; r--) column.push_back(V(g.range(0, 1)));
                if (k && K) { std::size_t x = g.range(0, K - 1); as->fill_constant(x, column); lc.insert(x); }
                if (!k && S) { std::size_t x = g.range(0, S - 1); as->fill_selector(x, column); ls.insert(x); }
            }
            if (g.chance(1, 2)) fill(1, [&](std::size_t i, std::size_t r) { as->shared(i, r) = gn.small(); });
            grid<F> gr(*as);
            std::size_t maxrow = gr.rows(), maxall = std::max(maxrow, gr.sh[0].size());
            auto check = [&](const std::string &what, const std::string &text, bool numbered, const ranges &rows, std::vector<std::pair<const col *, ranges>> parts, std::size_t width, const std::set<std::size_t> *shown) {
                evaluated(id + what + std::to_string(width) + std::to_string(rows.size()));
                saw("exports", what);
                auto got = table_rows(text, numbered);
                std::vector<std::size_t> rr;
                for (auto &x : rows) for (std::size_t r = x.first; r <= x.second; r++) rr.push_back(r);
                if (got.size() != rr.size()) { violation("export:rows", what + ": " + std::to_string(got.size()) + " rows exported, expected " + std::to_string(rr.size())); return; }
                for (std::size_t k = 0; k < rr.size(); k++) {
                    if (got[k].size() != parts.size()) { violation("export:parts", what + ": row " + std::to_string(rr[k]) + " has " + std::to_string(got[k].size()) + " groups of columns, expected " + std::to_string(parts.size())); return; }
                    for (std::size_t p = 0; p < parts.size(); p++) {
                        std::vector<std::string> want;
                        for (auto &x : parts[p].second) for (std::size_t c = x.first; c <= x.second; c++) {
                            V v = rr[k] < (*parts[p].first)[c].size() ? (*parts[p].first)[c][rr[k]] : V::zero();
                            if (p == 0 && shown && !shown->count(rr[k])) v = V::zero();
                            want.push_back(hexa(v, p + 1 == parts.size() ? 0 : width));
                        }
                        if (got[k][p] != want) {
                            std::string a, e;
                            for (auto &x : got[k][p]) a += x + " ";
                            for (auto &x : want) e += x + " ";
                            violation("export:cells", what + ": row " + std::to_string(rr[k]) + " group " + std::to_string(p) + " reads [" + a + "], expected [" + e + "]");
                            return;
                        }
                    }
                    count("exported rows compared");
                }
            };
            auto all = [](std::size_t n) { return n ? ranges{{0, n - 1}} : ranges{}; };
            auto run = [&](auto f, const std::string &what) {
                std::ostringstream os;
                auto flags = os.flags();
                silence s;
                f(os);
                if (os.flags() != flags) violation("export:flags", what + ": the stream's format was changed");
                // whatever format the stream had, it has afterwards
                std::ostringstream other;
                other.flags(g.chance(1, 2) ? std::ios_base::hex | std::ios_base::showbase : std::ios_base::oct | std::ios_base::left | std::ios_base::uppercase);
                other.fill('*');
                auto before = other.flags();
                f(other);
                if (other.flags() != before || other.fill() != '*' || os.fill() != ' ') violation("export:flags", what + ": the stream's format was changed");
                if (!s.text.str().empty()) violation("export:stdout", what + ": part of the text went to the standard output");
                return os.str();
            };
            for (int wide = 0; wide < 2; wide++) {
                std::size_t width = wide ? (F::modulus_bits + 3) / 4 : 0;
                std::string t = run([&](std::ostream &o) { as->export_table(o, wide); }, "table");
                check(wide ? "table wide" : "table", t, false, all(maxrow), {{&gr.w, all(W)}, {&gr.p, all(P)}, {&gr.c, all(K)}, {&gr.s, all(S)}}, width, nullptr);
                if (header(t, "witnesses_size") != long(W) || header(t, "public_inputs_size") != long(P) || header(t, "constants_size") != long(K) || header(t, "selectors_size") != long(S) || header(t, "max_size") != long(maxrow))
                    violation("export:header", "the heading announces other sizes than the table has");
                std::string q = run([&](std::ostream &o) { ap.export_table(o, wide); }, "table of a proxy");
                check(wide ? "table of a proxy wide" : "table of a proxy", q, true, all(maxall), {{&gr.w, all(W)}, {&gr.sh, all(1)}, {&gr.p, all(P)}, {&gr.c, all(K)}, {&gr.s, all(S)}}, width, &used);
                if (header(q, "witnesses_size") != long(W) || header(q, "shared_size") != 1 || header(q, "public_inputs_size") != long(P) || header(q, "constants_size") != long(K) || header(q, "selectors_size") != long(S) || header(q, "max_size") != long(maxall))
                    violation("export:header", "the heading of a proxy announces other sizes than the table has");
                for (auto &[name, want] : std::vector<std::pair<std::string, std::set<std::size_t>>>{{"internal used rows", used}, {"internal used selector rows", usedsel}, {"lookup constants", lc}, {"lookup selectors", ls}}) {
                    auto got = listed(q, name);
                    if (got != want) violation("export:header", "the " + name + " of a proxy read " + show_set(got) + ", expected " + show_set(want));
                }
                {
                    std::istringstream in(q);
                    std::string line;
                    for (std::size_t r = 0; std::getline(in, line); ) if (line.find('|') != std::string::npos) {
                        if (std::stoul(line, nullptr, 16) != r) { violation("export:label", "row " + std::to_string(r) + " of a proxy is labelled otherwise"); break; }
                        r++;
                    }
                }
                if (maxrow) {
                    auto some = [&](std::size_t n) {
                        ranges x;
                        for (std::size_t i = 0; i < n; ) {
                            if (g.chance(1, 3)) { i++; continue; }
                            std::size_t e = g.range(i, n - 1);
                            x.push_back({i, e});
                            i = e + 1;
                        }
                        return x;
                    };
                    auto w = some(W), p = some(P), c = some(K), s = some(S), r = some(maxrow);
                    std::string part = run([&](std::ostream &o) { as->export_table(o, w, p, c, s, r, wide); }, "part of a table");
                    check("part of a table", part, false, r, {{&gr.w, w}, {&gr.p, p}, {&gr.c, c}, {&gr.s, s}}, width, nullptr);
                }
            }
            // the circuit: every gate and copy constraint, in order
            cp.reserve_table("byte_range_table/full");
            other.reserve_table("binary_and_table/full");
            std::vector<bool> mine;
            for (std::size_t n = big ? g.range(30, 160) : g.range(0, 4); n > 0; n--) {
                std::vector<C> v;
                for (std::size_t k = g.range(1, 3); k > 0; k--) v.push_back(C(gn.expr(2) + nil::crypto3::math::expression<var>(V(n * 100))));
                (g.chance(1, 2) ? cp : other).add_gate(v);
                if (g.chance(1, 2)) {
                    L l;
                    l.table_id = 1;
                    l.lookup_input = {C(gn.expr(2))};
                    (g.chance(1, 2) ? cp : other).add_lookup_gate(l);
                }
                var x(g.range(0, 3), g.range(0, 9), false, var::column_type::witness), y(g.range(0, 3), g.range(0, 9), false, var::column_type::constant);
                (g.chance(1, 2) ? cp : other).add_copy_constraint({x, y});
            }
            auto snippets = [&](const std::string &what, const std::string &text, const std::vector<std::string> &want) {
                evaluated(id + what);
                saw("exports", what);
                std::size_t at = 0;
                for (auto &w : want) {
                    auto p = text.find(w, at);
                    if (p == std::string::npos) { violation("export:circuit", what + ": \"" + w + "\" is missing"); return; }
                    at = p + w.size();
                    count("exported constraints found");
                }
            };
            std::vector<std::string> whole, part;
            for (std::size_t i = 0; i < bp->gates().size(); i++) {
                std::vector<std::string> w{std::to_string(bp->gates()[i].selector_index)};
                for (auto &c : bp->gates()[i].constraints) w.push_back(show(c) + "\n");
                whole.insert(whole.end(), w.begin(), w.end());
                if (cp.get_used_gates().count(i)) part.insert(part.end(), w.begin(), w.end());
            }
            for (std::size_t i = 0; i < bp->copy_constraints().size(); i++) {
                auto &c = bp->copy_constraints()[i];
                std::string w = show(c.first) + " " + show(c.second) + "\n";
                whole.push_back(w);
                if (cp.get_used_copy_constraints().count(i)) part.push_back(w);
            }
            for (std::size_t i = 0; i < bp->lookup_gates().size(); i++) if (cp.get_used_lookup_gates().count(i)) {
                part.push_back(std::to_string(bp->lookup_gates()[i].tag_index));
                for (auto &l : bp->lookup_gates()[i].constraints) for (auto &e : l.lookup_input) part.push_back(show(e) + "\n");
            }
            part.push_back("byte_range_table/full");
            std::string t = run([&](std::ostream &o) { bp->export_circuit(o); }, "circuit");
            snippets("circuit", t, whole);
            if (header(t, "gates_size") != long(bp->gates().size()) || header(t, "copy_constraints_size") != long(bp->copy_constraints().size()) || header(t, "lookup_gates_size") != long(bp->lookup_gates().size()))
                violation("export:header", "the heading announces other amounts than the circuit has");
            std::string q = run([&](std::ostream &o) { cp.export_circuit(o); }, "circuit of a proxy");
            snippets("circuit of a proxy", q, part);
            if (q.find("binary_and_table") != std::string::npos) violation("export:circuit", "a table of another proxy is listed");
            if (header(q, "used_gates_size") != long(cp.get_used_gates().size()) || header(q, "used_copy_constraints_size") != long(cp.get_used_copy_constraints().size()) || header(q, "lookup_gates_size") != long(cp.get_used_lookup_gates().size()))
                violation("export:header", "the heading announces other amounts than the proxy uses");
        });
    }
}

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    const std::string &p = st().prop;
    if (p == "C16") { proxies<fields::pallas_base_field>("pallas"); proxies<fields::goldilocks64>("goldilocks"); }
    if (p == "C20") { exports<fields::pallas_base_field>("pallas"); exports<fields::goldilocks64>("goldilocks"); }
    std::cout.clear();
    return finish();
}
