// A component stretched over a wider table: random components made of blocks of rows with
// gates, constants and copies, laid out by the library on several times their columns.
#include "oracle.hpp"
#include <nil/blueprint/component.hpp>
#include <nil/blueprint/component_stretcher.hpp>

using namespace vf;
namespace fields = nil::crypto3::algebra::fields;
namespace bp = nil::blueprint;
namespace bc = nil::blueprint::components;

// One kind of block: h rows, switched on in row s, one cell computed from the others.
struct shape {
    std::size_t h, s;
    std::pair<std::size_t, std::size_t> out;                  // column, row of the block
    std::vector<std::pair<std::size_t, std::size_t>> in;
    std::vector<std::uint64_t> coeff;
    int constant = -1;                                        // row of the block whose constant is added
};
// Where an operand comes from: an input, an earlier block's result, a constant or the constant
// another block's gate reads.
struct source { int kind; std::size_t at; };
struct step { std::size_t shape; std::vector<source> from; std::uint64_t constant; };
struct plan {
    std::size_t width, inputs;
    std::vector<shape> shapes;
    std::vector<step> steps;
    std::vector<std::uint64_t> constants;                     // copied ones, each in a row of its own
    std::vector<std::size_t> constant_row, first, results;
    std::size_t rows = 0;
};

template<typename F>
struct patch : bc::plonk_component<F> {
    using component_type = bc::plonk_component<F>;
    using var = var_t<F>;
    using V = value_t<F>;
    const plan *p;
    std::size_t rows_amount;
    struct input_type {
        std::vector<var> x;
        std::vector<std::reference_wrapper<var>> all_vars() { return std::vector<std::reference_wrapper<var>>(x.begin(), x.end()); }
    };
    struct result_type {
        std::vector<var> y;
        std::vector<std::reference_wrapper<var>> all_vars() { return std::vector<std::reference_wrapper<var>>(y.begin(), y.end()); }
    };
    static bp::plonk_component_manifest manifest() { return bp::plonk_component_manifest(std::shared_ptr<bp::manifest_param>(new bp::manifest_range_param(1, 100)), true); }
    static std::vector<std::uint32_t> first(std::size_t n) { std::vector<std::uint32_t> r(n); std::iota(r.begin(), r.end(), 0); return r; }
    patch(const plan *q) : component_type(first(q->width), std::vector<std::uint32_t>{0}, std::vector<std::uint32_t>{0}, manifest()), p(q), rows_amount(q->rows) {}
    var cell(std::size_t k, std::pair<std::size_t, std::size_t> c, std::size_t row) const { return var(this->W(c.first), row + p->first[k] + c.second, false); }
    std::size_t constant(const source &f) const { return f.kind == 2 ? p->constant_row[f.at] : p->first[f.at] + p->shapes[p->steps[f.at].shape].constant; }
    result_type result(std::size_t row) const { result_type r; for (auto k : p->results) r.y.push_back(cell(k, p->shapes[p->steps[k].shape].out, row)); return r; }
};

namespace nil::blueprint::components {
    template<typename F>
    typename patch<F>::result_type generate_circuit(const patch<F> &c, vf::circuit_t<F> &b, vf::assignment_t<F> &as, const typename patch<F>::input_type &in, const std::uint32_t row) {
        using var = vf::var_t<F>;
        using V = vf::value_t<F>;
        const plan &p = *c.p;
        std::vector<std::size_t> selectors;
        for (auto &s : p.shapes) {
            auto at = [&](std::pair<std::size_t, std::size_t> x) { return var(c.W(x.first), int(x.second) - int(s.s)); };
            nil::crypto3::math::expression<var> e = at(s.in[0]) * at(s.in[1]) - at(s.out);
            for (std::size_t i = 0; i < s.in.size(); i++) e = e + at(s.in[i]) * V(s.coeff[i]);
            if (s.constant >= 0) e = e + var(c.C(0), s.constant - int(s.s), true, var::column_type::constant);
            selectors.push_back(b.add_gate({nil::crypto3::zk::snark::plonk_constraint<F>(e)}));
        }
        for (std::size_t i = 0; i < p.constants.size(); i++) as.constant(c.C(0), row + p.constant_row[i]) = V(p.constants[i]);
        for (std::size_t k = 0; k < p.steps.size(); k++) {
            auto &t = p.steps[k];
            auto &s = p.shapes[t.shape];
            as.enable_selector(selectors[t.shape], row + p.first[k] + s.s);
            if (s.constant >= 0) as.constant(c.C(0), row + p.first[k] + s.constant) = V(t.constant);
            for (std::size_t i = 0; i < s.in.size(); i++) {
                auto &f = t.from[i];
                var v = f.kind == 0 ? in.x[f.at] : f.kind == 1 ? c.cell(f.at, p.shapes[p.steps[f.at].shape].out, row) : var(c.C(0), row + c.constant(f), false, var::column_type::constant);
                b.add_copy_constraint({c.cell(k, s.in[i], row), v});
            }
        }
        return c.result(row);
    }
    template<typename F>
    typename patch<F>::result_type generate_assignments(const patch<F> &c, vf::assignment_t<F> &as, const typename patch<F>::input_type &in, const std::uint32_t row) {
        using V = vf::value_t<F>;
        const plan &p = *c.p;
        for (std::size_t k = 0; k < p.steps.size(); k++) {
            auto &t = p.steps[k];
            auto &s = p.shapes[t.shape];
            std::vector<V> x;
            for (auto &f : t.from) x.push_back(f.kind == 0 ? var_value(as, in.x[f.at]) : f.kind == 1 ? var_value(as, c.cell(f.at, p.shapes[p.steps[f.at].shape].out, row)) : as.constant(c.C(0), row + c.constant(f)));
            V y = x[0] * x[1];
            for (std::size_t i = 0; i < x.size(); i++) {
                as.witness(c.W(s.in[i].first), row + p.first[k] + s.in[i].second) = x[i];
                y = y + x[i] * V(s.coeff[i]);
            }
            if (s.constant >= 0) y = y + as.constant(c.C(0), row + p.first[k] + s.constant);
            as.witness(c.W(s.out.first), row + p.first[k] + s.out.second) = y;
        }
        return c.result(row);
    }
    template<typename F>
    class input_type_converter<patch<F>> {
        using var = vf::var_t<F>;
        using input_type = typename patch<F>::input_type;
    public:
        static input_type convert(const input_type &in, vf::assignment_t<F> &as, vf::assignment_t<F> &tmp) {
            input_type r;
            for (std::size_t i = 0; i < in.x.size(); i++) {
                tmp.public_input(0, i) = var_value(as, in.x[i]);
                r.x.push_back(var(0, i, false, var::column_type::public_input));
            }
            return r;
        }
        static var deconvert_var(const input_type &in, var v) { return in.x.at(v.rotation); }
    };
    template<typename F>
    class result_type_converter<patch<F>> {
        using result_type = typename patch<F>::result_type;
    public:
        static result_type convert(const component_stretcher<F, patch<F>> &c, const result_type &old, const typename patch<F>::input_type &in, std::size_t row) {
            result_type r;
            for (auto &v : old.y) r.y.push_back(c.move_var(v, row + c.line_mapping[v.rotation], in));
            return r;
        }
    };
}

static plan draw(rng &g) {
    plan p;
    p.width = g.range(3, 6);
    p.inputs = g.range(1, 5);
    std::size_t ns = g.range(1, 6);
    bool constants = g.chance(2, 3);
    for (std::size_t i = 0; i < ns; i++) {
        shape s;
        s.h = g.range(1, 3);
        s.s = s.h == 3 ? 1 : g.range(0, s.h - 1);
        std::vector<std::pair<std::size_t, std::size_t>> cells;
        for (std::size_t c = 0; c < p.width; c++) for (std::size_t r = 0; r < s.h; r++) cells.push_back({c, r});
        for (std::size_t k = cells.size(); k > 1; k--) std::swap(cells[k - 1], cells[g.range(0, k - 1)]);
        // every row of a block is read by its gate
        std::stable_sort(cells.begin(), cells.end(), [&](auto &a, auto &b) { return a.first == 0 && b.first != 0; });
        // or only one of them
        if (s.h > 1 && g.chance(1, 5)) {
            std::size_t only = g.range(0, s.h - 1);
            cells.erase(std::remove_if(cells.begin(), cells.end(), [&](auto &c) { return c.second != only; }), cells.end());
        }
        s.out = cells[0];
        std::size_t n = std::min<std::size_t>(cells.size() - 1, std::max<std::size_t>(s.h - 1, 2) + g.range(0, 2));
        for (std::size_t k = 1; k <= n; k++) { s.in.push_back(cells[k]); s.coeff.push_back(g.range(1, 1000)); }
        if (constants && g.chance(1, 3)) s.constant = int(g.range(0, s.h - 1));
        p.shapes.push_back(s);
    }
    if (constants) p.constants.resize(g.range(0, 3));
    for (auto &c : p.constants) c = g.next() | 1;
    std::size_t n = g.range(ns, 14);
    std::vector<std::size_t> free_rows;
    for (std::size_t k = 0; k < n; k++) {
        step t;
        t.shape = k < ns ? k : g.range(0, ns - 1);
        t.constant = g.next() | 1;
        auto &s = p.shapes[t.shape];
        for (std::size_t i = 0; i < s.in.size(); i++) {
            if (k && g.chance(1, 2)) t.from.push_back({1, g.range(0, k - 1)});
            else if (!p.constants.empty() && g.chance(1, 3)) t.from.push_back({2, g.range(0, p.constants.size() - 1)});
            else t.from.push_back({0, g.range(0, p.inputs - 1)});
            if (k && g.chance(1, 10)) {
                std::size_t q = g.range(0, k - 1);
                if (p.shapes[p.steps[q].shape].constant >= 0) t.from.back() = {3, q};
            }
        }
        p.steps.push_back(t);
    }
    // the order of the rows is not that of the steps
    std::vector<std::size_t> order(n);
    std::iota(order.begin(), order.end(), 0);
    for (std::size_t k = n; k > 1; k--) std::swap(order[k - 1], order[g.range(0, k - 1)]);
    p.first.resize(n);
    for (auto k : order) {
        auto &s = p.shapes[p.steps[k].shape];
        p.first[k] = p.rows;
        for (std::size_t r = 0; r < s.h; r++) if (int(r) != s.constant) free_rows.push_back(p.rows + r);
        p.rows += s.h;
    }
    if (free_rows.size() < p.constants.size()) {
        p.constants.resize(free_rows.size());
        for (auto &t : p.steps) for (auto &f : t.from) if (f.kind == 2 && f.at >= p.constants.size()) f = {0, g.range(0, p.inputs - 1)};
    }
    for (std::size_t i = 0; i < p.constants.size(); i++) {
        std::size_t k = g.range(0, free_rows.size() - 1);
        p.constant_row.push_back(free_rows[k]);
        free_rows.erase(free_rows.begin() + k);
    }
    for (std::size_t k = 0; k < n; k++) if (k + 1 == n || g.chance(1, 4)) p.results.push_back(k);
    return p;
}

template<typename F>
static void one(rng &g, const std::string &field) {
    using V = value_t<F>;
    using var = var_t<F>;
    plan p = draw(g);
    auto value = [&] { return g.chance(1, 6) ? V::zero() : V(g.next()) * V(g.next()) + V(g.next()); };
    // what it computes
    auto compute = [&](const std::vector<V> &x) {
        std::vector<V> y;
        for (auto &t : p.steps) {
            auto &s = p.shapes[t.shape];
            std::vector<V> a;
            for (auto &f : t.from) a.push_back(f.kind == 0 ? x[f.at] : f.kind == 1 ? y[f.at] : V(f.kind == 2 ? p.constants[f.at] : p.steps[f.at].constant));
            V r = a[0] * a[1];
            for (std::size_t i = 0; i < a.size(); i++) r = r + a[i] * V(s.coeff[i]);
            if (s.constant >= 0) r = r + V(t.constant);
            y.push_back(r);
        }
        std::vector<V> r;
        for (auto k : p.results) r.push_back(y[k]);
        return r;
    };
    patch<F> comp(&p);
    std::size_t times = g.range(1, 5), wide = p.width * times + g.range(0, p.width - 1), W = wide + 1;
    bc::component_stretcher<F, patch<F>> c(comp, p.width, wide);
    circuit_t<F> b;
    assignment_t<F> as(W, 1, 1, 40);
    std::size_t n = g.range(1, 3), row = g.chance(1, 3) ? 0 : g.range(0, 5), pub = g.range(0, 4), own = 0;
    std::string what = std::to_string(p.width) + " columns and " + std::to_string(p.rows) + " rows stretched to " + std::to_string(wide) + " columns from row " + std::to_string(row);
    auto fail = [&](const std::string &k, const std::string &d) { violation("stretch:" + k, d + ": " + what); };
    std::vector<typename patch<F>::input_type> ins(n);
    std::vector<std::vector<V>> values(n);
    for (std::size_t k = 0; k < n; k++) for (std::size_t i = 0; i < p.inputs; i++) {
        V v = value();
        values[k].push_back(v);
        if (g.chance(1, 2)) { as.public_input(0, pub) = v; ins[k].x.push_back(var(0, pub++, false, var::column_type::public_input)); }
        else { as.witness(wide, own) = v; ins[k].x.push_back(var(wide, own++, false)); }
        if (k && g.chance(1, 3)) {    // what an instance placed before was given
            ins[k].x.back() = ins[0].x[g.range(0, p.inputs - 1)];
            values[k].back() = var_value(as, ins[k].x.back());
        }
    }
    std::size_t strange = g.range(0, 2);
    for (std::size_t i = 0; i < strange; i++) b.add_gate({var(0, 0) - V(g.next()) * V(g.next())});
    std::size_t at = row, gates = 0, start = row;
    std::vector<std::vector<var>> res(n);
    std::set<std::pair<std::size_t, std::size_t>> cells;
    std::size_t kinds = 0;
    {   // as many gates as unstretched, alike ones counted once
        circuit_t<F> ub;
        assignment_t<F> ua(p.width, 1, 1, 40);
        typename patch<F>::input_type in;
        for (std::size_t i = 0; i < p.inputs; i++) { ua.public_input(0, i) = values[0][i]; in.x.push_back(var(0, i, false, var::column_type::public_input)); }
        bc::generate_circuit(comp, ub, ua, in, 0);
        bc::generate_assignments(comp, ua, in, 0);
        if (!judge<F>(ub, grid<F>(ua)).empty()) throw std::logic_error("the model component is not satisfied");
        kinds = ub.num_gates();
    }
    for (std::size_t k = 0; k < n; k++) {
        grid<F> before(as);
        typename patch<F>::result_type r1, r2;
        bool values_first = g.chance(1, 3);
        if (values_first) r2 = bc::generate_assignments(c, as, ins[k], at);
        r1 = bc::generate_circuit(c, b, as, ins[k], at);
        if (!values_first) r2 = bc::generate_assignments(c, as, ins[k], at);
        grid<F> after(as);
        if (!(r1.y == r2.y)) { fail("results", "circuit and assignment place results differently"); return; }
        res[k] = r2.y;
        if (k && b.num_gates() - strange != gates) { fail("gates", "a second instance added gates"); return; }
        gates = b.num_gates() - strange;
        if (gates != kinds) { fail("gates", std::to_string(gates) + " gates for " + std::to_string(kinds)); return; }
        std::size_t end = at + c.rows_amount, reach = at;
        for (std::size_t col = 0; col < W; col++) for (std::size_t r = 0; r < after.w[col].size(); r++) {
            V old = r < before.w[col].size() ? before.w[col][r] : V::zero();
            bool mine = col < wide && r >= at && r < end;
            if (!mine && after.w[col][r] != old) { fail("footprint", "column " + std::to_string(col) + " row " + std::to_string(r) + " outside the " + std::to_string(c.rows_amount) + " announced rows was written"); return; }
            if (mine && !after.w[col][r].is_zero()) reach = std::max(reach, r + 1);
        }
        for (std::size_t r = 0; r < after.c[0].size(); r++) {
            V old = r < before.c[0].size() ? before.c[0][r] : V::zero();
            if ((r < at || r >= end) && after.c[0][r] != old) { fail("footprint", "a constant in row " + std::to_string(r) + " outside the announced rows was written"); return; }
        }
        for (auto &s : after.s) for (std::size_t r = end; r < s.size(); r++) if (!s[r].is_zero()) { fail("footprint", "a selector outside the announced rows is on"); return; }
        if (times > 1 && c.rows_amount > p.rows) { fail("rows", "more rows than unstretched"); return; }
        at = end;
    }
    grid<F> done(as);
    evaluated(what + std::to_string(g.next()));
    count("components stretched", n);
    auto bad = judge<F>(b, done);
    if (!bad.empty()) { fail("unsatisfied", bad[0].str()); return; }
    for (std::size_t k = 0; k < n; k++) {
        auto want = compute(values[k]);
        if (want.size() != res[k].size()) { fail("results", "another number of results"); return; }
        for (std::size_t i = 0; i < want.size(); i++) {
            if (done.get(res[k][i]) != want[i]) { fail("value", "result " + std::to_string(i) + " of instance " + std::to_string(k) + " is " + show(done.get(res[k][i])) + ", expected " + show(want[i])); return; }
            count("results compared");
        }
        // which inputs matter
        for (std::size_t i = 0; i < p.inputs; i++) {
            bool used = false;
            for (auto &t : p.steps) for (auto &f : t.from) used |= f.kind == 0 && f.at == i;
            if (!used) continue;
            grid<F> h = done;
            auto &v = ins[k].x[i];
            auto &cell = v.type == var::column_type::witness ? h.w[v.index][v.rotation] : h.p[v.index][v.rotation];
            cell = cell + V(1);
            if (judge<F>(b, h).empty()) { fail("untied", "input " + std::to_string(i) + " can be exchanged"); return; }
            count("inputs exchanged");
        }
    }
    // every cell filled in is held, and so is every constant
    for (std::size_t col = 0; col < wide; col++) for (std::size_t r = start; r < std::min(at, done.w[col].size()); r++) {
        if (done.w[col][r].is_zero()) continue;
        grid<F> h = done;
        h.w[col][r] = h.w[col][r] + V(1);
        if (judge<F>(b, h).empty()) { fail("free", "column " + std::to_string(col) + " row " + std::to_string(r) + " is filled in but held by nothing"); return; }
        count("cells held");
    }
    std::set<std::size_t> copied;
    for (auto &t : p.steps) for (auto &f : t.from) if (f.kind == 2) copied.insert(f.at);
    std::size_t wanted = n * copied.size(), got = 0;
    for (auto &t : p.steps) if (p.shapes[t.shape].constant >= 0) wanted += n;
    for (std::size_t r = start; r < std::min(at, done.c[0].size()); r++) {
        if (done.c[0][r].is_zero()) continue;
        grid<F> h = done;
        h.c[0][r] = h.c[0][r] + V(1);
        if (!judge<F>(b, h).empty()) got++;
    }
    if (got != wanted) { fail("constants", std::to_string(got) + " constants held, expected " + std::to_string(wanted)); return; }
    count("constants held", got);
    if (g.chance(1, 100)) sample(what);
}

int main() {
    init();
    std::uint64_t B = scaled(240, 3000);
    for (std::uint64_t i = 0; i < B; i++) {
        std::string id = std::to_string(i);
        run_case("patch/" + id, "patch", [&] {
            auto g = case_rng("patch" + id);
            for (int j = 0; j < 4; j++) one<fields::pallas_base_field>(g, "pallas");
        });
    }
    return finish();
}
