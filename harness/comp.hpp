// Runs one component of the library on its own table and watches what it does: is the
// circuit satisfied, are the results right and pinned down, does it keep to its rows and
// columns, do its announced numbers hold?
#pragma once
#include "forge.hpp"
#include <nil/blueprint/component.hpp>
#include <algorithm>
#include <cassert>
#include <numeric>

namespace vf {

// Value and derivatives of an expression at a point.
template<typename F>
struct slope {
    using V = value_t<F>;
    V v;
    std::map<std::size_t, V> d;
};
template<typename F, typename L>
slope<F> differentiate(const nil::crypto3::math::expression<var_t<F>> &e, const L &leaf) {
    using namespace nil::crypto3::math;
    using V = value_t<F>;
    auto times = [](const slope<F> &a, const slope<F> &b) {
        slope<F> r{a.v * b.v, {}};
        for (auto &x : a.d) r.d[x.first] = x.second * b.v;
        for (auto &x : b.d) {
            auto it = r.d.find(x.first);
            if (it == r.d.end()) r.d[x.first] = x.second * a.v; else it->second = it->second + x.second * a.v;
        }
        return r;
    };
    if (auto *t = boost::get<term<var_t<F>>>(&e.get_expr())) {
        slope<F> r{t->get_coeff(), {}};
        for (auto &v : t->get_vars()) r = times(r, leaf(v));
        return r;
    }
    if (auto *p = boost::get<pow_operation<var_t<F>>>(&e.get_expr())) {
        slope<F> b = differentiate<F>(p->get_expr(), leaf), r{V::one(), {}};
        for (int i = 0; i < p->get_power(); i++) r = times(r, b);
        return r;
    }
    auto *b = boost::get<binary_arithmetic_operation<var_t<F>>>(&e.get_expr());
    slope<F> l = differentiate<F>(b->get_expr_left(), leaf), r = differentiate<F>(b->get_expr_right(), leaf);
    if (b->get_op() != ArithmeticOperator::ADD && b->get_op() != ArithmeticOperator::SUB) return times(l, r);
    V s = b->get_op() == ArithmeticOperator::ADD ? V::one() : -V::one();
    l.v = l.v + s * r.v;
    for (auto &x : r.d) {
        auto it = l.d.find(x.first);
        if (it == l.d.end()) l.d[x.first] = s * x.second; else it->second = it->second + s * x.second;
    }
    return l;
}

// Looks for a direction in which the results could move while every constraint stays
// satisfied to first order and all inputs, constants and lookups stay put. Returns the
// position of a result that can move, or -1.
template<typename F>
int loose_result(const circuit_t<F> &bp, const grid<F> &g, const std::vector<var_t<F>> &inputs, const std::vector<var_t<F>> &results) {
    using V = value_t<F>;
    using var = var_t<F>;
    cells<F> cs;
    cs.join(bp);
    std::set<std::size_t> fixed;
    for (auto &v : inputs) fixed.insert(cs.of_var(v));
    for (std::size_t i = 0; i < cs.where.size(); i++)
        if (std::get<0>(cs.where[i]) != int(var::column_type::witness)) fixed.insert(cs.root(i));
    auto leaf = [&](const var &v, std::size_t r) {
        slope<F> s{g.get(v, r), {}};
        if (v.type != var::column_type::witness) return s;
        std::size_t c = cs.of_var(v, r);
        if (!fixed.count(c)) s.d[c] = V::one();
        return s;
    };
    std::vector<std::map<std::size_t, V>> rows;
    auto add = [&](const nil::crypto3::math::expression<var> &e, std::size_t r) {
        auto s = differentiate<F>(e, [&](const var &v) { return leaf(v, r); });
        for (auto it = s.d.begin(); it != s.d.end();) it = it->second.is_zero() ? s.d.erase(it) : std::next(it);
        if (!s.d.empty()) rows.push_back(std::move(s.d));
    };
    for (auto &x : bp.gates()) {
        auto &sel = g.s.at(x.selector_index);
        for (std::size_t r = 0; r < sel.size(); r++) if (!sel[r].is_zero()) for (auto &c : x.constraints) add(c, r);
    }
    for (auto &x : bp.lookup_gates()) {
        auto &sel = g.s.at(x.tag_index);
        for (std::size_t r = 0; r < sel.size(); r++) if (!sel[r].is_zero()) for (auto &l : x.constraints) for (auto &c : l.lookup_input) add(c, r);
    }
    std::map<std::size_t, int> wanted;
    for (std::size_t i = 0; i < results.size(); i++) {
        if (results[i].type != var::column_type::witness) continue;
        std::size_t c = cs.of_var(results[i]);
        if (!fixed.count(c)) wanted.emplace(c, int(i));
    }
    std::map<std::size_t, std::set<std::size_t>> by_col;
    for (std::size_t i = 0; i < rows.size(); i++) for (auto &x : rows[i]) by_col[x.first].insert(i);
    // eliminate everything but the results, the emptiest columns first
    auto eliminate = [&](std::size_t col) {
        auto &at = by_col[col];
        std::size_t best = *at.begin();
        for (auto i : at) if (rows[i].size() < rows[best].size()) best = i;
        auto pivot = rows[best];
        for (auto &x : pivot) by_col[x.first].erase(best);
        rows[best].clear();
        V inv = pivot[col].inversed();
        auto others = at;
        for (auto i : others) {
            V f = rows[i][col] * inv;
            for (auto &x : pivot) {
                auto it = rows[i].find(x.first);
                V nv = it == rows[i].end() ? -(f * x.second) : it->second - f * x.second;
                if (nv.is_zero()) { rows[i].erase(x.first); by_col[x.first].erase(i); }
                else if (it == rows[i].end()) { rows[i][x.first] = nv; by_col[x.first].insert(i); }
                else it->second = nv;
            }
        }
    };
    std::set<std::pair<std::size_t, std::size_t>> queue;
    std::set<std::size_t> todo;
    for (auto &c : by_col) if (!wanted.count(c.first)) todo.insert(c.first);
    while (true) {
        std::size_t pick = 0, n = ~std::size_t(0);
        for (auto it = todo.begin(); it != todo.end();) {
            std::size_t k = by_col[*it].size();
            if (!k) { it = todo.erase(it); continue; }
            if (k < n) { n = k; pick = *it; if (k == 1) break; }
            ++it;
        }
        if (n == ~std::size_t(0)) break;
        eliminate(pick);
        todo.erase(pick);
    }
    std::set<std::size_t> free_cols;
    for (auto &w : wanted) {
        if (by_col[w.first].empty()) return w.second;
        eliminate(w.first);
    }
    return -1;
}

// A table that gives a wrong value at one of the places where it is read: what is computed
// from it is honest save for the tie to where the value came from.
template<typename F>
struct misread : assignment_t<F> {
    using V = value_t<F>;
    using base = assignment_t<F>;
    using base::witness;
    using base::public_input;
    std::size_t at;
    mutable std::size_t reads = 0;
    misread(const base &b, std::size_t at_) : base(b), at(at_) {}
    V slip(V v) const {
        if (reads++ != at) return v;
        return static_cast<std::uint64_t>(typename F::integral_type(v.data) & 1) ? v - V(1) : v + V(1);
    }
    V witness(std::uint32_t c, std::uint32_t r) const override { return slip(base::witness(c, r)); }
    V public_input(std::uint32_t c, std::uint32_t r) const override { return slip(base::public_input(c, r)); }
};

struct comp_options {
    std::size_t constants = 1;        // constant columns of the table
    std::size_t component_constants = 1;
    std::size_t selectors = 60;
    bool rigid = true;                // results are determined by the inputs
    bool moves = true;                // nor can they move together with other cells
    std::set<std::size_t> held;       // rows whose cells stay put when they are looked at
    bool inputs_tied = true;          // every input matters to some constraint
    bool statics = true;              // announced gate and row amounts are compared
    bool gates_exact = true;          // as many gates as announced, else at most as many
    bool two = true;                  // a second instance on the same circuit
    bool public_only = false;         // inputs only from the public input column
    bool shuffle = true;              // columns in a random order
    bool in_order = false;            // whole table width is the component's
    bool empty = true;                // the assignment without constraints gives the same results
    bool inputs_listed = true;        // the input's list of variables is exactly what was given
    bool alone = true;                // the constraints need no values
    bool exact_rows = true;           // the component fills its last row
    std::size_t bound = 0;            // how many of the filled cells are exchanged: none may be free
    std::set<std::size_t> unbound;    // save in these rows of the component
    std::size_t misread = 12;         // values misread while the table is filled
    std::size_t forge = 6;            // attempts of the dishonest prover per target
    std::size_t max_start = 6;
    std::size_t extra_columns = 2;
};

template<typename T, typename F, typename = void> struct has_empty : std::false_type {};
template<typename T, typename F>
struct has_empty<T, F, std::void_t<decltype(generate_empty_assignments(std::declval<const T &>(), std::declval<assignment_t<F> &>(), std::declval<typename T::input_type>(), std::uint32_t(0)))>> : std::true_type {};

template<typename T, typename = void> struct has_empty_rows : std::false_type {};
template<typename T> struct has_empty_rows<T, std::void_t<decltype(std::declval<T &>().empty_rows_amount)>> : std::true_type {};
template<typename T, typename = void> struct has_all_vars : std::false_type {};
template<typename T> struct has_all_vars<T, std::void_t<decltype(std::declval<T &>().all_vars())>> : std::true_type {};

// inputs: values; bind: makes the component's input out of variables; want: the values the
// results must have, or nothing if no satisfying table may exist.
template<typename F, typename Make, typename Bind, typename... Statics>
void exercise(const std::string &name, rng &g, std::size_t width, const Make &make, const Bind &bind,
              const std::vector<std::vector<value_t<F>>> &inputs, const std::vector<std::optional<std::vector<value_t<F>>>> &want,
              const comp_options &o, Statics... statics) {
    using V = value_t<F>;
    using var = var_t<F>;
    using namespace nil::blueprint::components;
    std::size_t W = o.in_order ? width : width + o.extra_columns;
    std::vector<std::uint32_t> cols(W), C(o.component_constants), PI = {0};
    std::iota(cols.begin(), cols.end(), 0);
    if (o.shuffle && g.chance(2, 3)) for (std::size_t i = W; i > 1; i--) std::swap(cols[i - 1], cols[g.range(0, i - 1)]);
    std::vector<std::uint32_t> outside(cols.begin() + width, cols.end());
    cols.resize(width);
    std::iota(C.begin(), C.end(), 0);
    auto comp = make(cols, C, PI);
    using Comp = decltype(comp);
    circuit_t<F> bp;
    // gates of somebody else, never switched on
    std::vector<V> strange(g.chance(1, 2) ? 0 : g.range(1, 3));
    for (auto &v : strange) v = V(g.next()) * V(g.next()) * V(g.next());
    auto occupy = [&](circuit_t<F> &b) { for (auto &v : strange) b.add_gate({var(cols[0], 0) - v}); };
    occupy(bp);
    assignment_t<F> as(W, 1, std::max<std::size_t>(o.constants, 1), o.selectors);
    if constexpr (nil::blueprint::use_lookups<Comp>()) {
        auto tables = comp.component_lookup_tables();
        for (auto &[k, v] : tables) { if (v == 1) bp.reserve_dynamic_table(k); else bp.reserve_table(k); }
    }
    std::size_t start = g.chance(1, 3) ? 0 : g.range(0, o.max_start), n = inputs.size();
    bool noisy = g.chance(1, 2);
    auto fail = [&](const std::string &what, const std::string &detail) { violation(name + ":" + what, detail + " (" + std::to_string(width) + " columns from row " + std::to_string(start) + (n > 1 ? ", one of two placements)" : ")")); };
    auto noise = [&] { return V(g.next() | 1); };
    // places for the inputs
    std::vector<std::vector<var>> ins(n);
    std::size_t pub = 0;
    std::map<std::size_t, std::size_t> depth;
    for (std::size_t k = 0; k < n; k++) for (auto &v : inputs[k]) {
        if (o.public_only || outside.empty() || g.chance(1, 2)) {
            as.public_input(0, pub) = v;
            ins[k].push_back(var(0, pub++, false, var::column_type::public_input));
        } else {
            std::size_t c = g.pick(outside);
            as.witness(c, depth[c]) = v;
            ins[k].push_back(var(c, depth[c]++, false));
        }
    }
    std::size_t rows = comp.rows_amount, end = start + rows * n;
    if (noisy) {
        for (auto c : outside) while (depth[c] < end) as.witness(c, depth[c]++) = noise();
        for (auto c : cols) for (std::size_t r = 0; r < start; r++) as.witness(c, r) = noise();
        for (std::size_t c = 0; c < o.constants; c++) for (std::size_t r = 0; r < start; r++) as.constant(c, r) = noise();
    }
    grid<F> before(as);
    std::vector<std::vector<var>> res(n);
    std::size_t gates = 0;
    bool gave_up = false;
    std::optional<assignment_t<F>> blank;
    for (std::size_t k = 0; k < n; k++) {
        auto in = bind(ins[k]);
        std::size_t row = start + k * rows;
        if constexpr (has_all_vars<decltype(in)>::value) if (o.inputs_listed) {
            std::set<var> given(ins[k].begin(), ins[k].end()), listed;
            for (auto &v : in.all_vars()) listed.insert(v.get());
            if (given != listed) { fail("inputs", "the input lists " + std::to_string(listed.size()) + " different variables, " + std::to_string(given.size()) + " were given or others"); return; }
            count("inputs listed");
        }
        auto r1 = generate_circuit(comp, bp, as, in, row);
        auto r2 = r1;
        if (!k && o.rigid && o.misread && want[0]) blank.emplace(as);
        try {
            r2 = generate_assignments(comp, as, in, row);
        } catch (const std::exception &e) {
            if (want[k]) throw;    // outside the domain the assignment may well give up
            gave_up = true;
        }
        auto a1 = r1.all_vars(), a2 = r2.all_vars();
        if (a1.size() != a2.size()) { fail("results", "circuit and assignment give different numbers of results"); return; }
        for (std::size_t i = 0; i < a1.size(); i++) {
            if (!(a1[i].get() == a2[i].get())) { fail("results", "circuit and assignment place result " + std::to_string(i) + " in different cells"); return; }
            if (a2[i].get().relative) { fail("results", "result " + std::to_string(i) + " is a relative place"); return; }
            res[k].push_back(a2[i].get());
        }
        std::size_t now = bp.num_gates() + bp.num_lookup_gates() - strange.size();
        if (k && now != gates) { fail("gates", "a second instance added " + std::to_string(now - gates) + " gates"); return; }
        gates = now;
    }
    if (o.statics) {
        std::size_t m = Comp::get_gate_manifest(width, statics...).get_gates_amount();
        if (o.gates_exact ? m != gates : m < gates) { fail("gates", std::to_string(m) + " gates announced, " + std::to_string(gates) + " added"); return; }
        std::size_t sr = Comp::get_rows_amount(width, statics...);
        if (sr != rows) { fail("rows", std::to_string(sr) + " rows announced, the component says " + std::to_string(rows)); return; }
    }
    for (auto &c : bp.copy_constraints()) for (auto &v : {c.first, c.second})
        if (v.relative) { fail("copies", "a copy constraint names a relative place"); return; }
    // footprint
    {
        grid<F> after(as);
        std::set<std::uint32_t> own(cols.begin(), cols.end());
        std::size_t reach = 0;
        for (std::size_t c = 0; c < W; c++) for (std::size_t r = 0; r < after.w[c].size(); r++) {
            bool mine = own.count(c) && r >= start && r < end;
            if (mine) { reach = std::max(reach, r + 1); continue; }
            V b = r < before.w[c].size() ? before.w[c][r] : V::zero();
            if (after.w[c][r] != b) { fail("footprint", "a cell outside the component's rows and columns was written: column " + std::to_string(c) + " row " + std::to_string(r)); return; }
        }
        for (std::size_t c = 0; c < after.c.size(); c++) for (std::size_t r = 0; r < after.c[c].size(); r++) {
            if (r >= start && r < end) { reach = std::max(reach, r + 1); continue; }
            V b = r < before.c[c].size() ? before.c[c][r] : V::zero();
            if (after.c[c][r] != b) { fail("footprint", "a constant outside the component's rows was written: row " + std::to_string(r)); return; }
        }
        for (auto &s : after.s) for (std::size_t r = 0; r < s.size(); r++) if (!s[r].is_zero()) {
            if (r < start || r >= end) { fail("footprint", "a selector outside the component's rows was switched on: row " + std::to_string(r)); return; }
            reach = std::max(reach, r + 1);
        }
        if (after.p[0].size() > before.p[0].size()) { fail("footprint", "public inputs were written"); return; }
        if (o.exact_rows && !gave_up && reach != end) { fail("rows", "the last used row is " + std::to_string(reach) + ", announced " + std::to_string(end)); return; }
    }
    std::size_t below = end;    // batches come below everything else, on all columns
    for (auto c : outside) below = std::max<std::size_t>(below, as.witness_column_size(c));
    std::size_t e1 = as.finalize_component_batches(bp, below), e2 = as.finalize_constant_batches(bp, 0, std::max<std::size_t>(start, 1));
    for (auto &r : res) for (auto &v : r) {
        auto &m = as.get_batch_variable_map();
        auto it = m.find(v);
        if (it != m.end()) v = it->second;
    }
    if (noisy) for (std::size_t c = 0; c < W; c++) for (std::size_t r = std::max<std::size_t>({e1, e2, as.witness_column_size(c)}), k = 0; k < 3; k++) as.witness(c, r + k) = noise();
    grid<F> done(as);
    std::string shown;
    for (auto &v : inputs[0]) if (shown.size() < 200) shown += show(v) + " ";
    bool all = true;
    for (std::size_t k = 0; k < n; k++) all &= bool(want[k]);
    auto bad = judge<F>(bp, done);
    evaluated(name + shown + std::to_string(start) + std::to_string(W));
    if (!all) {
        if (bad.empty()) { fail("accepted", "an input outside the domain is accepted: " + shown); return; }
        if (o.forge) {
            std::vector<std::pair<var, V>> fixed;
            for (auto &x : ins) for (auto &v : x) fixed.push_back({v, done.get(v)});
            if (forge<F>(bp, done, fixed, g, o.forge)) { fail("accepted", "a table was found that accepts an input outside the domain: " + shown); return; }
            count("forgeries attempted");
        }
        count("refused inputs");
        return;
    }
    if (!bad.empty()) { fail("unsatisfied", bad[0].str() + " is broken for input " + shown); return; }
    for (std::size_t k = 0; k < n; k++) {
        if (want[k]->size() != res[k].size()) { fail("results", std::to_string(res[k].size()) + " results, expected " + std::to_string(want[k]->size())); return; }
        for (std::size_t i = 0; i < res[k].size(); i++) {
            if (done.get(res[k][i]) != (*want[k])[i]) { std::string s; for (auto &v : inputs[k]) s += show(v) + " "; fail("value", "result " + std::to_string(i) + " is " + show(done.get(res[k][i])) + ", expected " + show((*want[k])[i]) + " for input " + s.substr(0, 600)); return; }
            count("results compared");
        }
    }
    // a wrong input or result must not pass
    if (o.inputs_tied) for (std::size_t k = 0; k < n; k++) for (std::size_t i = 0; i < ins[k].size(); i++) {
        if (ins[k].size() > 12 && !g.chance(12, ins[k].size())) continue;
        grid<F> h = done;
        auto &v = ins[k][i];
        auto &cell = v.type == var::column_type::witness ? h.w[v.index][v.rotation] : h.p[v.index][v.rotation];
        cell = cell + V(1);
        if (judge<F>(bp, h).empty()) { fail("untied", "input " + std::to_string(i) + " can be exchanged without breaking a constraint"); return; }
        count("inputs exchanged");
    }
    if (o.rigid) {
        std::vector<var> fi, fr;
        for (auto &x : ins) fi.insert(fi.end(), x.begin(), x.end());
        for (auto &x : res) fr.insert(fr.end(), x.begin(), x.end());
        for (auto &v : fr) {
            if (v.type != var::column_type::witness) continue;
            grid<F> h = done;
            h.w[v.index][v.rotation] = h.w[v.index][v.rotation] + V(1);
            if (judge<F>(bp, h).empty()) { fail("loose", "a result can be changed without breaking a constraint"); return; }
        }
        std::vector<var> stay = fi;
        for (std::size_t k = 0; k < n; k++) for (auto r : o.held) for (auto c : cols) stay.push_back(var(c, start + k * rows + r, false));
        int l = o.moves ? loose_result<F>(bp, done, stay, fr) : -1;
        if (l >= 0) { fail("loose", "result " + std::to_string(l) + " can be moved together with other cells, input " + shown); return; }
        count(o.moves ? "results found rigid" : "results exchanged", fr.size());
        if (o.moves && o.forge && !fr.empty()) for (int t = 0; t < 3; t++) {
            std::size_t k = g.range(0, fr.size() - 1);
            V old = done.get(fr[k]), nw = t == 0 ? old + V(1) : t == 1 ? old - V(1) : g.chance(1, 2) ? V(1) - old : V(g.next());
            if (nw == old || fr[k].type != var::column_type::witness) continue;
            std::vector<std::pair<var, V>> fixed;
            for (auto &v : fi) fixed.push_back({v, done.get(v)});
            fixed.push_back({fr[k], nw});
            grid<F> found = done;
            if (forge<F>(bp, done, fixed, g, o.forge, &found)) {
                std::string s;
                for (auto &v : fr) s += show(found.get(v)) + " ";
                fail("forged", "the results can be made " + s.substr(0, 300) + "for input " + shown);
                return;
            }
            count("forgeries attempted");
        }
    }
    // nor may a value be another one where it is used
    if (blank && as.get_batch_variable_map().empty()) {
        auto fill = [&](std::size_t at, grid<F> &h) {
            misread<F> m(*blank, at);
            vshim::asserts_throw = true;
            bool through = true;
            try { generate_assignments(comp, m, bind(ins[0]), start); } catch (const std::exception &) { through = false; }
            vshim::asserts_throw = false;
            if (!through) return std::size_t(0);
            h = done;
            for (auto c : cols) for (std::size_t r = start; r < start + rows && r < h.w[c].size(); r++)
                h.w[c][r] = r < m.witness_column_size(c) ? std::as_const(m).witness(c)[r] : V::zero();
            return m.reads;
        };
        grid<F> h = done;
        std::size_t reads = fill(~std::size_t(0), h);
        for (std::size_t t = 0; reads && t < o.misread; t++) {
            std::size_t at = g.range(0, reads - 1);
            if (!fill(at, h)) { count("misread values given up on"); continue; }
            bool other = false;
            for (std::size_t i = 0; i < res[0].size(); i++) other |= h.get(res[0][i]) != (*want[0])[i];
            if (!other) continue;
            if (judge<F>(bp, h).empty()) { fail("misread", "value " + std::to_string(at) + " of " + std::to_string(reads) + " read can be another one where it is used, input " + shown); return; }
            count("values misread");
        }
    }
    // nor may rows of one honest instance stand in for those of another
    if (o.rigid && n == 2 && rows > 1) for (int t = 0; t < 6; t++) {
        std::size_t to = g.range(0, 1), a = g.range(0, rows - 1), b = g.chance(1, 2) ? rows : g.range(a + 1, rows);
        grid<F> h = done;
        for (auto c : cols) for (std::size_t r = a; r < b; r++) {
            std::size_t x = start + to * rows + r, y = start + (1 - to) * rows + r;
            if (x < h.w[c].size()) h.w[c][x] = y < done.w[c].size() ? done.w[c][y] : V::zero();
        }
        bool other = false;
        for (std::size_t i = 0; i < res[to].size(); i++) other |= h.get(res[to][i]) != (*want[to])[i];
        if (!other) continue;
        if (judge<F>(bp, h).empty()) { fail("spliced", "rows " + std::to_string(a) + " to " + std::to_string(b - 1) + " of an instance with other inputs are accepted"); return; }
        count("rows spliced");
    }
    // without constraints the same results come out
    if constexpr (has_empty<Comp, F>::value) if (o.empty) {
        assignment_t<F> ea(W, 1, std::max<std::size_t>(o.constants, 1), o.selectors);
        std::vector<var> ev;
        std::size_t p = 0;
        for (auto &v : inputs[0]) { ea.public_input(0, p) = v; ev.push_back(var(0, p++, false, var::column_type::public_input)); }
        auto in = bind(ev);
        auto er = generate_empty_assignments(comp, ea, in, start);
        auto av = er.all_vars();
        if (av.size() != want[0]->size()) { fail("empty", "a different number of results without constraints"); return; }
        for (std::size_t i = 0; i < av.size(); i++)
            if (var_value(ea, av[i].get()) != (*want[0])[i]) { fail("empty", "result " + std::to_string(i) + " differs without constraints, input " + shown); return; }
        if constexpr (has_empty_rows<Comp>::value) {
            std::size_t reach = 0;
            for (std::size_t c = 0; c < W; c++) if (ea.witness_column_size(c)) {
                if (std::find(cols.begin(), cols.end(), c) == cols.end()) { fail("empty", "a foreign column is written without constraints: " + std::to_string(c)); return; }
                reach = std::max<std::size_t>(reach, ea.witness_column_size(c));
            }
            if (reach && reach != start + comp.empty_rows_amount) { fail("empty", "rows up to " + std::to_string(reach) + " are used without constraints, announced " + std::to_string(start + comp.empty_rows_amount)); return; }
        }
        count("results without constraints");
    }
    // the constraints, selectors and constants do not depend on the values
    if (o.alone && g.chance(1, 4)) {
        circuit_t<F> cb;
        occupy(cb);
        if constexpr (nil::blueprint::use_lookups<Comp>()) {
            auto tables = comp.component_lookup_tables();
            for (auto &[k, v] : tables) { if (v == 1) cb.reserve_dynamic_table(k); else cb.reserve_table(k); }
        }
        assignment_t<F> ca(W, 1, std::max<std::size_t>(o.constants, 1), o.selectors);
        for (std::size_t k = 0; k < n; k++) {
            auto in = bind(ins[k]);
            generate_circuit(comp, cb, ca, in, start + k * rows);
        }
        ca.finalize_component_batches(cb, below);
        ca.finalize_constant_batches(cb, 0, std::max<std::size_t>(start, 1));
        grid<F> ag(ca);
        auto at = [](const std::vector<V> &c, std::size_t r) { return r < c.size() ? c[r] : V::zero(); };
        for (std::size_t c = 0; c < done.s.size(); c++) for (std::size_t r = 0; r < std::max(done.s[c].size(), ag.s[c].size()); r++)
            if (at(done.s[c], r) != at(ag.s[c], r)) { fail("alone", "a selector differs when no values are filled in: row " + std::to_string(r)); return; }
        for (std::size_t c = 0; c < done.c.size(); c++) for (std::size_t r = start; r < std::max(done.c[c].size(), ag.c[c].size()); r++)
            if (at(done.c[c], r) != at(ag.c[c], r)) { fail("alone", "a constant differs when no values are filled in: row " + std::to_string(r)); return; }
        if (cb.copy_constraints().size() != bp.copy_constraints().size()) { fail("alone", "a different number of copy constraints when no values are filled in"); return; }
        count("circuits without values");
    }
    // the values do not depend on the constraints having been made before
    if (g.chance(1, 4)) {
        assignment_t<F> va(W, 1, std::max<std::size_t>(o.constants, 1), o.selectors);
        for (std::size_t c = 0; c < done.c.size(); c++) for (std::size_t r = 0; r < done.c[c].size(); r++) va.constant(c, r) = done.c[c][r];
        for (auto &x : ins) for (auto &v : x) (v.type == var::column_type::witness ? va.witness(v.index, v.rotation) : va.public_input(v.index, v.rotation)) = done.get(v);
        for (std::size_t k = 0; k < n; k++) {
            auto in = bind(ins[k]);
            auto vr = generate_assignments(comp, va, in, start + k * rows);
            auto vv = vr.all_vars();
            for (std::size_t i = 0; i < vv.size(); i++)
                if (var_value(va, vv[i].get()) != (*want[k])[i]) { fail("values", "result " + std::to_string(i) + " is " + show(var_value(va, vv[i].get())) + " when only values are filled in, expected " + show((*want[k])[i])); return; }
            count("values filled in alone");
        }
    }
    for (std::size_t t = 0; t < o.bound; t++) {
        std::size_t c = g.pick(cols), r = g.range(start, end - 1);
        if (r >= done.w[c].size() || done.w[c][r].is_zero() || o.unbound.count((r - start) % rows)) continue;
        grid<F> h = done;
        h.w[c][r] = h.w[c][r] + V(1);
        std::set<std::uint32_t> near;
        for (std::size_t k = r ? r - 1 : 0; k <= r + 1; k++) near.insert(k);
        judge_options jo;
        jo.rows = &near;
        if (judge<F>(bp, h, jo).empty()) {
            std::size_t i = std::find(cols.begin(), cols.end(), c) - cols.begin();
            fail("free", "column " + std::to_string(i) + " of row " + std::to_string((r - start) % rows) + " is filled in but bound by nothing");
            return;
        }
        count("filled cells exchanged");
    }
    sample(name + " at row " + std::to_string(start) + " over " + std::to_string(W) + " columns: " + shown.substr(0, 200));
}
}    // namespace vf
