// C14 (batched components), C15 (batched constants).
#include "oracle.hpp"
#include "gen.hpp"
#include <nil/blueprint/component_batch.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>

using namespace nil::blueprint;
namespace fields = nil::crypto3::algebra::fields;
using namespace vf;

// A component with parameters: y = c * x^k.
namespace nil { namespace blueprint { namespace components {
template<typename F>
class test_power : public plonk_component<F> {
public:
    using component_type = plonk_component<F>;
    using var = typename component_type::var;
    using manifest_type = plonk_component_manifest;
    static manifest_type get_manifest(std::size_t, std::size_t) {
        return manifest_type(std::shared_ptr<manifest_param>(new manifest_single_value_param(2)), false);
    }
    const std::size_t rows_amount = 1;
    std::size_t k, c;
    struct input_type {
        var x;
        std::vector<std::reference_wrapper<var>> all_vars() { return {x}; }
    };
    struct result_type {
        var output;
        result_type(const test_power &t, std::size_t row) { output = var(t.W(1), row, false); }
        std::vector<std::reference_wrapper<var>> all_vars() { return {output}; }
    };
    template<typename A, typename B, typename C>
    test_power(A w, B co, C pi, std::size_t k_, std::size_t c_) : component_type(w, co, pi, get_manifest(k_, c_)), k(k_), c(c_) {}
    typename F::value_type f(typename F::value_type x) const {
        typename F::value_type r = c;
        for (std::size_t i = 0; i < k; i++) r = r * x;
        return r;
    }
};
template<typename F>
typename test_power<F>::result_type generate_assignments(const test_power<F> &t, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &a, const typename test_power<F>::input_type in, const std::uint32_t row) {
    a.witness(t.W(0), row) = var_value(a, in.x);
    a.witness(t.W(1), row) = t.f(var_value(a, in.x));
    return typename test_power<F>::result_type(t, row);
}
template<typename F>
typename test_power<F>::result_type generate_empty_assignments(const test_power<F> &t, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &a, const typename test_power<F>::input_type in, const std::uint32_t row) {
    return generate_assignments(t, a, in, row);
}
template<typename F>
std::size_t generate_gates(const test_power<F> &t, circuit<crypto3::zk::snark::plonk_constraint_system<F>> &bp, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &, const typename test_power<F>::input_type &) {
    using var = typename test_power<F>::var;
    crypto3::math::expression<var> e = var(t.W(0), 0);
    for (std::size_t i = 1; i < t.k; i++) e = e * var(t.W(0), 0);
    return bp.add_gate(crypto3::zk::snark::plonk_constraint<F>(e * typename F::value_type(t.c) - var(t.W(1), 0)));
}
template<typename F>
void generate_copy_constraints(const test_power<F> &t, circuit<crypto3::zk::snark::plonk_constraint_system<F>> &bp, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &, const typename test_power<F>::input_type &in, const std::size_t row) {
    using var = typename test_power<F>::var;
    bp.add_copy_constraint({in.x, var(t.W(0), row, false)});
}

// A component that spreads over as many columns as it is given: y = x * x.
template<typename F>
class test_wide : public plonk_component<F> {
public:
    using component_type = plonk_component<F>;
    using var = typename component_type::var;
    using manifest_type = plonk_component_manifest;
    static manifest_type get_manifest() {
        return manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(3, 8)), false);
    }
    const std::size_t rows_amount = 1;
    struct input_type {
        var x;
        std::vector<std::reference_wrapper<var>> all_vars() { return {x}; }
    };
    struct result_type {
        var output;
        result_type(const test_wide &t, std::size_t row) { output = var(t.W(t.witness_amount() - 1), row, false); }
        std::vector<std::reference_wrapper<var>> all_vars() { return {output}; }
    };
    template<typename A, typename B, typename C>
    test_wide(A w, B co, C pi) : component_type(w, co, pi, get_manifest()) {}
};
template<typename F>
typename test_wide<F>::result_type generate_assignments(const test_wide<F> &t, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &a, const typename test_wide<F>::input_type in, const std::uint32_t row) {
    auto x = var_value(a, in.x);
    for (std::size_t i = 0; i + 1 < t.witness_amount(); i++) a.witness(t.W(i), row) = x;
    a.witness(t.W(t.witness_amount() - 1), row) = x * x;
    return typename test_wide<F>::result_type(t, row);
}
template<typename F>
typename test_wide<F>::result_type generate_empty_assignments(const test_wide<F> &t, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &a, const typename test_wide<F>::input_type in, const std::uint32_t row) {
    return generate_assignments(t, a, in, row);
}
template<typename F>
std::size_t generate_gates(const test_wide<F> &t, circuit<crypto3::zk::snark::plonk_constraint_system<F>> &bp, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &, const typename test_wide<F>::input_type &) {
    using var = typename test_wide<F>::var;
    using C = crypto3::zk::snark::plonk_constraint<F>;
    std::vector<C> cs;
    std::size_t n = t.witness_amount();
    for (std::size_t i = 1; i + 1 < n; i++) cs.push_back(C(var(t.W(i), 0) - var(t.W(i - 1), 0)));
    cs.push_back(C(var(t.W(n - 2), 0) * var(t.W(0), 0) - var(t.W(n - 1), 0)));
    return bp.add_gate(cs);
}
template<typename F>
void generate_copy_constraints(const test_wide<F> &t, circuit<crypto3::zk::snark::plonk_constraint_system<F>> &bp, assignment<crypto3::zk::snark::plonk_constraint_system<F>> &, const typename test_wide<F>::input_type &in, const std::size_t row) {
    using var = typename test_wide<F>::var;
    bp.add_copy_constraint({in.x, var(t.W(0), row, false)});
}
}}}

template<typename F>
static void batches(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using ar = system_t<F>;
    using mul_t = components::multiplication<ar, F, basic_non_native_policy<F>>;
    using add_t = components::addition<ar, F, basic_non_native_policy<F>>;
    using div_t = components::division_or_zero<ar, F>;
    using swap_t = components::flexible_swap<ar, F>;
    using pow_t = components::test_power<F>;
    using wide_t = components::test_wide<F>;
    for (std::uint64_t b = 0; b < scaled(5000, 60000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("batch/" + id, "batch", [&] {
            auto g = case_rng("batch" + id);
            bool big = g.chance(1, 60);
            std::size_t W = big && g.chance(1, 2) ? g.range(5, 64) : g.range(5, 18), NI = big ? g.range(10, 60) : g.range(2, 6);
            if (big) count("large batches");
            circuit_t<F> bp;
            // the table may get more columns while requests are being made
            std::size_t W0 = g.chance(1, 4) ? g.range(5, W) : W;
            assignment_t<F> as(W0, 1, 1, 20);
            gen<F> gn{g, W, 0};
            struct cell { var v; V val; bool bit; };
            std::vector<cell> pool;
            for (std::size_t i = 0; i < NI; i++) {
                bool bit = i == 0 || g.chance(1, 4);
                V v = bit ? V(g.range(0, 1)) : gn.small();
                as.public_input(0, i) = v;
                pool.push_back({var(0, i, false, var::column_type::public_input), v, bit});
            }
            // the same places in columns of other kinds
            bool kinds = g.chance(1, 2);
            if (kinds) {
                for (std::size_t i = 0; i < NI; i++) { V v = gn.small(); as.witness(0, i) = v; pool.push_back({var(0, i, false, var::column_type::witness), v, false}); }
                for (std::size_t i = 0; i < NI; i++) { V v = gn.small(); as.constant(0, i) = v; pool.push_back({var(0, i, false, var::column_type::constant), v, false}); }
            }
            std::size_t placed_inputs = pool.size();
            bool constants = g.chance(1, 3);
            if (constants) for (int i = 0; i < 2; i++) { V v = gn.small(); pool.push_back({as.add_batch_constant_variable(v), v, false}); }
            struct step { int kind; std::vector<std::size_t> in; std::vector<std::size_t> out; std::size_t row, k, c; };
            std::vector<step> steps;
            std::size_t rows = kinds ? NI : 0, n = big ? g.range(80, 320) : g.range(1, 24);
            int mode = int(g.range(0, 4));
            bool again = g.chance(1, 2);
            for (std::size_t i = 0; i < n; i++) {
                step s{int(g.range(0, 6)), {}, {}, 0, 0, 0};
                auto any = [&] { return g.range(0, pool.size() - 1); };
                auto add = [&](const V &v, bool bit = false) { s.out.push_back(pool.size()); pool.push_back({var(), v, bit}); };
                if (again && i > 0 && g.chance(1, 5)) { // the same request again
                    const step &p = g.pick(steps);
                    s.kind = p.kind; s.in = p.in; s.k = p.k; s.c = p.c;
                    // or one whose operand is in the same place of another kind of column
                    if (kinds && s.kind != 3 && g.chance(1, 2)) { auto &q = s.in[g.range(0, s.in.size() - 1)]; if (q < placed_inputs) q = (q + NI * g.range(1, 2)) % placed_inputs; }
                } else {
                    if (s.kind == 3) { std::vector<std::size_t> bits; for (std::size_t q = 0; q < pool.size(); q++) if (pool[q].bit) bits.push_back(q); s.in = {g.pick(bits), any(), any()}; }
                    else if (s.kind == 6) s.in = {any()};
                    else if (s.kind >= 4) { s.in = {any()}; s.k = g.range(1, 3); s.c = g.range(1, 2); }
                    else s.in = {any(), any()};
                }
                V x = pool[s.in[0]].val, y = s.in.size() > 1 ? pool[s.in[1]].val : V(0);
                switch (s.kind) {
                    case 0: add(x * y); break;
                    case 1: add(x + y); break;
                    case 2: add(y.is_zero() ? V(0) : x * y.inversed()); s.row = rows++; break;
                    case 3: { V z = pool[s.in[2]].val; add(x.is_zero() ? y : z); add(x.is_zero() ? z : y); break; }
                    case 6: add(x * x); break;
                    default: { V r = V(s.c); for (std::size_t q = 0; q < s.k; q++) r = r * x; add(r); }
                }
                steps.push_back(s);
            }
            std::vector<std::size_t> cols5 = {0, 1, 2, 3, 4};
            std::string trouble;
            std::size_t until = g.range(0, n);
            auto run = [&](step &s, bool circ, bool assign) {
                if (W0 < W && as.witnesses_amount() < W && std::size_t(&s - steps.data()) >= until) { as.resize_witnesses(W); count("tables widened between requests"); }
                auto take = [&](std::vector<var> out) {
                    for (std::size_t q = 0; q < out.size(); q++) {
                        cell &c = pool[s.out[q]];
                        if (!(c.v == var()) && c.v != out[q]) trouble = "a request gave different variables when it was made again";
                        c.v = out[q];
                        if (assign && var_value<F>(as, out[q]) != c.val) trouble = "kind " + std::to_string(s.kind) + ": the value of a result differs from the component's function";
                    }
                };
                auto v = [&](std::size_t q) { return pool[s.in[q]].v; };
                auto both = [&](auto tag, const auto &in, auto... params) {
                    using T = typename decltype(tag)::type;
                    if (circ) { auto r = as.template add_input_to_batch_circuit<T>(in, params...); bool keep = assign; assign = false; std::vector<var> o; for (auto &x : r.all_vars()) o.push_back(x.get()); take(o); assign = keep; }
                    if (assign) { auto r = as.template add_input_to_batch_assignment<T>(in, params...); std::vector<var> o; for (auto &x : r.all_vars()) o.push_back(x.get()); take(o); }
                };
                switch (s.kind) {
                    case 0: both(boost::mpl::identity<mul_t>(), typename mul_t::input_type{v(0), v(1)}); break;
                    case 1: both(boost::mpl::identity<add_t>(), typename add_t::input_type{v(0), v(1)}); break;
                    case 2: {
                        div_t d(cols5, std::vector<std::size_t>{}, std::vector<std::size_t>{});
                        typename div_t::input_type in{v(0), v(1)};
                        if (circ) { auto r = generate_circuit(d, bp, as, in, s.row); bool keep = assign; assign = false; take({r.output}); assign = keep; }
                        if (assign) { auto r = generate_assignments(d, as, in, s.row); take({r.output}); }
                        break;
                    }
                    case 3: { typename swap_t::input_type in; in.inp = {v(0), v(1), v(2)}; both(boost::mpl::identity<swap_t>(), in); break; }
                    case 6: both(boost::mpl::identity<wide_t>(), typename wide_t::input_type{v(0)}); break;
                    default: both(boost::mpl::identity<pow_t>(), typename pow_t::input_type{v(0)}, s.k, s.c);
                }
            };
            switch (mode) {
                case 0: for (auto &s : steps) run(s, s.kind == 2, true); break;
                case 1: for (auto &s : steps) { run(s, false, true); run(s, true, false); } break;
                case 2: for (auto &s : steps) run(s, true, true); break;
                case 3: for (auto &s : steps) run(s, true, false); for (auto &s : steps) run(s, false, true); break;
                default: for (auto &s : steps) run(s, false, true); for (auto &s : steps) run(s, true, false);
            }
            static const char *modes[] = {"assignment only", "assignment then circuit each", "circuit then assignment each", "all circuits first", "all assignments first"};
            if (as.witnesses_amount() < W) as.resize_witnesses(W);
            saw("orders", modes[mode]);
            evaluated(id + modes[mode]);
            if (!trouble.empty()) { violation("batch:result", std::string(modes[mode]) + ": " + trouble); return; }
            // distinct requests per batch
            std::map<std::tuple<int, std::size_t, std::size_t>, std::set<std::vector<var>>> req;
            std::map<std::tuple<int, std::size_t, std::size_t, std::vector<var>>, var> placed;
            for (auto &s : steps) if (s.kind != 2) {
                std::vector<var> in;
                for (auto q : s.in) in.push_back(pool[q].v);
                int kind = s.kind == 6 ? 5 : std::min(s.kind, 4);
                req[{kind, s.k, s.c}].insert(in);
                auto key = std::make_tuple(kind, s.k, s.c, in);
                if (placed.count(key) && placed[key] != pool[s.out[0]].v) { violation("batch:shared", "equal requests were given different results"); return; }
                placed[key] = pool[s.out[0]].v;
            }
            // copies between results, and between results and constants
            {
                std::vector<std::pair<var, var>> equal;
                for (std::size_t x = 0; x < pool.size(); x++) for (std::size_t y = 0; y < pool.size(); y++) if (pool[x].val == pool[y].val && pool[x].v != pool[y].v) equal.push_back({pool[x].v, pool[y].v});
                if (!equal.empty()) for (std::size_t k = g.range(0, 3); k > 0; k--) { auto &e = g.pick(equal); bp.add_copy_constraint({e.first, e.second}); count("copies between results"); }
            }
            std::set<var> distinct;
            for (auto &p : placed) if (!distinct.insert(p.second).second) { violation("batch:shared", "different requests were given the same result"); return; }
            auto width = [&](int k) -> std::size_t { return k == 3 ? 5 : k == 4 ? 2 : k == 5 ? std::min<std::size_t>(W, 7) : 3; };
            auto kind_of = [](int k) { return k == 6 ? 5 : std::min(k, 4); };
            std::size_t want = rows, gates = 0;
            for (auto &r : req) { std::size_t per = W / width(std::get<0>(r.first)); want += (r.second.size() + per - 1) / per; gates++; }
            std::size_t start = rows, before_gates = bp.gates().size();
            grid<F> g0(as);
            std::size_t end = as.finalize_component_batches(bp, start);
            if (end != want) { violation("batch:rows", "batches end at row " + std::to_string(end) + ", expected " + std::to_string(want)); return; }
            if (bp.gates().size() != before_gates + gates) violation("batch:gates", std::to_string(bp.gates().size() - before_gates) + " gates for " + std::to_string(gates) + " batches");
            if (constants) as.finalize_constant_batches(bp, 0, 1);
            grid<F> g1(as);
            for (std::size_t c = 0; c < W; c++) {
                for (std::size_t r = 0; r < start; r++) if (g0.at(g0.w, c, r) != g1.at(g1.w, c, r)) { violation("batch:outside", "a cell above the first batch row was changed"); return; }
                if (g1.w[c].size() > end) { violation("batch:outside", "a cell below the last batch row was written"); return; }
            }
            for (auto &c : bp.copy_constraints()) for (auto &v : {c.first, c.second})
                if (v.index >= assignment_t<F>::batch_constant_storage_index) { violation("batch:left", "a copy constraint still mentions a batch variable"); return; }
            auto bad = judge<F>(bp, g1);
            if (!bad.empty()) { violation("batch:unsatisfied", std::string(modes[mode]) + ": " + bad[0].str() + " is broken"); return; }
            // every result is in a cell of its own, with its value
            const auto &map = as.get_batch_variable_map();
            std::set<std::pair<std::size_t, std::size_t>> own, cells;
            for (auto &s : steps) if (s.kind != 2) for (std::size_t q = 0; q < s.out.size(); q++) {
                const cell &c = pool[s.out[q]];
                auto it = map.find(c.v);
                if (it == map.end()) { violation("batch:map", "a result has no cell"); return; }
                if (it->second.type != var::column_type::witness || std::size_t(it->second.rotation) < start || std::size_t(it->second.rotation) >= end) { violation("batch:map", "a result's cell is outside the batch rows"); return; }
                if (g1.get(it->second) != c.val) { violation("batch:value", "the cell of a result holds another value"); return; }
                std::size_t wd = width(kind_of(s.kind)), col = it->second.index, base = col / wd * wd;
                own.insert({col, std::size_t(it->second.rotation)});
                for (std::size_t x = base; x < base + wd; x++) cells.insert({x, std::size_t(it->second.rotation)});
            }
            std::size_t results = 0;
            for (auto &p : placed) results += std::get<0>(p.first) == 3 ? 2 : 1;
            if (own.size() != results) { violation("batch:map", std::to_string(results) + " results share " + std::to_string(own.size()) + " cells"); return; }
            // no cell of a request may be changed on its own
            for (auto &c : cells) {
                if (big && !g.chance(60, cells.size())) continue;
                grid<F> g2 = g1;
                g2.w[c.first][c.second] = g2.w[c.first][c.second] + V(g.range(1, 3));
                evaluated_h(hash_str(id) * 31 + c.first * 1000 + c.second);
                count("cells damaged");
                if (judge<F>(bp, g2).empty()) { violation("batch:loose", "witness " + std::to_string(c.first) + " on row " + std::to_string(c.second) + " can be changed freely"); return; }
            }
            count("batched requests", placed.size());
            sample(id + ": " + std::to_string(placed.size()) + " requests in " + std::to_string(gates) + " batches over " + std::to_string(W) + " columns, " + modes[mode]);
        });
    }
}

template<typename F>
static void constant_batches(const std::string &fname) {
    using V = value_t<F>;
    using var = var_t<F>;
    using C = constraint_t<F>;
    using L = snark::plonk_lookup_constraint<F>;
    using ex = nil::crypto3::math::expression<var>;
    for (std::uint64_t b = 0; b < scaled(50000, 400000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("const/" + id, "const", [&] {
            auto g = case_rng("const" + id);
            bool big = g.chance(1, 200);
            std::size_t W = g.range(2, 4), K = big ? g.range(1, 5) : g.range(1, 2), R = big ? g.range(40, 300) : g.range(3, 14), col = g.range(0, K - 1), start = big && g.chance(1, 2) ? g.range(1, R + 5) : g.range(1, 3);
            if (big) count("large tables");
            circuit_t<F> bp;
            assignment_t<F> as(W, 1, K, 12);
            gen<F> gn{g, W, K};
            bp.reserve_table("byte_range_table/full");
            bp.reserve_table("binary_xor_table/full");
            std::size_t H = g.chance(1, 4) ? g.range(0, R) : R;    // how far the constant column reaches
            for (std::size_t r = 0; r < R; r++) {
                for (std::size_t w = 0; w < W; w++) as.witness(w, r) = gn.small();
                for (std::size_t k = 0; k < K; k++) if (r < H) as.constant(k, r) = V(1000 + r + 1000 * k);
                as.public_input(0, r) = gn.small();
            }
            // two constants with one value, copied to each other
            std::vector<std::pair<var, var>> twins;
            if (H) for (std::size_t n = g.chance(1, 3) ? g.range(1, 2) : 0; n > 0; n--) {
                var x(g.range(0, K - 1), g.range(0, H - 1), false, var::column_type::constant), y(g.range(0, K - 1), g.range(0, H - 1), false, var::column_type::constant);
                if (x == y || !twins.empty()) continue;
                as.constant(y.index, y.rotation) = V(1000 + x.rotation + 1000 * x.index);
                twins.push_back({x, y});
            }
            grid<F> g0(as);
            std::set<std::size_t> used;
            auto value = [&](const ex &e, std::size_t r) { return eval<F>(e, [&](const var &v) { return g0.get(v, r); }); };
            auto note = [&](const ex &e, std::size_t r) { each_var<F>(e, [&](const var &v) { if (v.type == var::column_type::constant && v.index == col) used.insert(r + v.rotation); }); };
            bool small = H < 3;
            gn.C = small ? 0 : K;
            for (std::size_t n = big ? g.range(0, 9) : g.range(0, 3); n > 0; n--) {
                std::set<std::size_t> rows;
                std::size_t top = small ? R - 2 : H - 2;
                for (std::size_t k = big ? g.range(1, 12) : g.range(1, 3); k > 0; k--) rows.insert(g.range(1, top));
                auto vanishing = [&]() {
                    ex e = gn.expr(2), z = ex(V(1));
                    if (!small && g.chance(1, 2)) e = e + ex(var(col, int(g.range(0, 2)) - 1, true, var::column_type::constant));
                    std::set<std::uint64_t> seen;
                    for (auto r : rows) { V v = value(e, r); if (seen.insert(row_hash<F>({v})).second) z = z * (e - ex(v)); }
                    return z;
                };
                std::size_t s;
                if (g.chance(1, 2)) {
                    std::vector<C> many;
                    for (std::size_t k = g.chance(1, 3) ? 2 : 1; k > 0; k--) many.push_back(C(vanishing()));
                    s = bp.add_gate(many);
                } else {
                    std::vector<L> many;
                    for (std::size_t k = g.chance(1, 3) ? 2 : 1; k > 0; k--) {
                        L l;
                        if (g.chance(1, 2)) { l.table_id = 1; l.lookup_input = {C(vanishing() + ex(V(g.range(0, 255))))}; }
                        else {
                            std::size_t x = g.range(0, 1), y = g.range(0, 1);
                            l.table_id = 2;
                            for (std::size_t v : {x, y, x ^ y}) l.lookup_input.push_back(g.chance(1, 2) ? C(ex(V(v))) : C(vanishing() + ex(V(v))));
                        }
                        many.push_back(l);
                    }
                    s = bp.add_lookup_gate(many);
                }
                for (auto r : rows) as.enable_selector(s, r);
                saw("uses", "gates");
            }
            // what the circuit kept: an equal gate added twice may have been written differently
            grid<F> ge(as);
            auto on = [&](std::size_t s, std::size_t r) { return s < ge.s.size() && r < ge.s[s].size() && ge.s[s][r] == V(1); };
            for (std::size_t r = 0; r < R; r++) {
                for (auto &x : bp.gates()) if (on(x.selector_index, r)) for (auto &c : x.constraints) note(c, r);
                for (auto &x : bp.lookup_gates()) if (on(x.tag_index, r)) for (auto &l : x.constraints) for (auto &c : l.lookup_input) note(c, r);
            }
            if (H) for (std::size_t n = big ? g.range(0, 120) : g.range(0, 3); n > 0; n--) {
                std::size_t r = g.range(0, H - 1), w = g.range(0, W - 1);
                std::size_t k = g.range(0, K - 1), wr = g.range(0, R - 1);
                var x(k, r, false, var::column_type::constant);
                if (g0.get(var(w, wr, false)) != g0.get(x)) { as.public_input(0, R + n) = g0.get(x); bp.add_copy_constraint({var(0, R + n, false, var::column_type::public_input), x}); }
                else bp.add_copy_constraint({x, var(w, wr, false)});
                if (k == col) used.insert(r);
                saw("uses", "copies");
            }
            for (auto &t : twins) {
                bp.add_copy_constraint({t.first, t.second});
                for (auto &x : {t.first, t.second}) if (x.index == col) used.insert(x.rotation);
                count("constants copied to each other");
            }
            // the batch
            std::vector<std::size_t> mine;
            std::vector<std::pair<V, var>> asked;
            std::size_t n = big ? g.range(20, 260) : g.range(0, 12);
            for (std::size_t i = 0; i < n; i++) {
                V v = !asked.empty() && g.chance(1, 3) ? asked[g.range(0, asked.size() - 1)].first : g.chance(1, 2) ? V(g.range(0, 4)) : gn.small();
                if (g.chance(1, 5)) { V w = V(1); for (std::size_t q = g.range(1, 250); q > 0; q--) w = w + w; v = V(g.range(0, 4)) + w; }    // alike but for one high bit
                var x = as.add_batch_constant_variable(v);
                for (auto &a : asked) if ((a.first == v) != (a.second == x)) { violation("const:shared", "equal constants must share a variable, different ones must not"); return; }
                asked.push_back({v, x});
                if (var_value<F>(as, x) != v) { violation("const:value", "a batched constant reads as another value"); return; }
                as.public_input(0, 1000 + i) = v;
                mine.push_back(bp.copy_constraints().size());
                if (H && g.chance(1, 6)) {    // tied to a constant of the table instead
                    var y(g.range(0, K - 1), g.range(0, H - 1), false, var::column_type::constant);
                    mine.pop_back();
                    V w = g0.get(y);
                    var z = as.add_batch_constant_variable(w);
                    for (auto &a : asked) if ((a.first == w) != (a.second == z)) { violation("const:shared", "equal constants must share a variable, different ones must not"); return; }
                    asked.push_back({w, z});
                    if (g.chance(1, 2)) bp.add_copy_constraint({z, y}); else bp.add_copy_constraint({y, z});
                    if (y.index == col) used.insert(y.rotation);
                    as.public_input(0, 3000 + i) = w;
                    mine.push_back(bp.copy_constraints().size());
                    bp.add_copy_constraint({z, var(0, 3000 + i, false, var::column_type::public_input)});
                    mine.push_back(bp.copy_constraints().size());
                }
                if (g.chance(1, 2)) bp.add_copy_constraint({x, var(0, 1000 + i, false, var::column_type::public_input)});
                else bp.add_copy_constraint({var(0, 1000 + i, false, var::column_type::public_input), x});
            }
            std::set<std::uint64_t> dist;
            for (auto &a : asked) dist.insert(row_hash<F>({a.first}));
            grid<F> gb(as);
            std::size_t before = bp.copy_constraints().size();
            std::size_t end = as.finalize_constant_batches(bp, col, start);
            evaluated(id);
            count("constants batched", dist.size());
            std::size_t want = start, left = dist.size(), last = start;
            while (left) { if (!used.count(want) || want >= H) left--; want++; }
            if (end != want) { violation("const:rows", "batched constants end at row " + std::to_string(end) + ", expected " + std::to_string(want)); return; }
            grid<F> g1(as);
            std::map<std::size_t, V> cells;
            std::size_t found = 0;
            if (bp.copy_constraints().size() != before) { violation("const:copies", "the number of copy constraints changed"); return; }
            for (auto &c : bp.copy_constraints()) for (auto &v : {c.first, c.second}) if (v.index == assignment_t<F>::batch_constant_storage_index) { violation("const:left", "a copy constraint still mentions a batched constant"); return; }
            for (auto k : mine) {
                auto &c = bp.copy_constraints()[k];
                const var &v = c.first.type == var::column_type::constant ? c.first : c.second;
                if (v.type != var::column_type::constant || v.index != col || v.rotation < int(start) || v.rotation >= int(end)) { violation("const:place", "a batched constant was placed outside its rows"); return; }
                cells[v.rotation] = g1.get(v);
                if (used.count(v.rotation) && std::size_t(v.rotation) < H) { violation("const:overwritten", "the constant on row " + std::to_string(v.rotation) + " is in use and was given to a batched one"); return; }
            }
            if (cells.size() != dist.size()) { violation("const:place", std::to_string(dist.size()) + " distinct constants in " + std::to_string(cells.size()) + " cells"); return; }
            for (std::size_t k = 0; k < K; k++) for (std::size_t r = 0; r < H; r++) {
                if (k == col && cells.count(r)) continue;
                if (g1.at(g1.c, k, r) != gb.at(gb.c, k, r)) { violation("const:overwritten", "a constant that was not free changed"); return; }
            }
            auto bad = judge<F>(bp, g1);
            if (!bad.empty()) violation("const:unsatisfied", bad[0].str() + " is broken after batching constants");
            for (auto &x : cells) {
                if (big && !g.chance(30, cells.size())) continue;
                grid<F> g2 = g1;
                g2.c[col][x.first] = g2.c[col][x.first] + V(1);
                evaluated(id + "c" + std::to_string(x.first));
                if (judge<F>(bp, g2).empty()) { violation("const:loose", "a batched constant is not tied to its users"); return; }
            }
            sample(id + ": " + std::to_string(dist.size()) + " constants around " + std::to_string(used.size()) + " used cells, from row " + std::to_string(start));
        });
    }
}

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    const std::string &p = st().prop;
    if (p.empty() || p == "C14") { batches<fields::pallas_base_field>("pallas"); }
    if (p.empty() || p == "C15") { constant_batches<fields::pallas_base_field>("pallas"); }
    return finish();
}
