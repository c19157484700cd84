// Gadgets a circuit for checking proofs is made of: swaps, sums, powers, polynomial values,
// coset points, and the checks of the gate, permutation and lookup arguments.
#include "comp.hpp"
#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/colinear_checks.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/verifier/final_polynomial_check.hpp>

using namespace vf;
namespace nb = nil::blueprint;
namespace bc = nil::blueprint::components;
namespace fields = nil::crypto3::algebra::fields;

template<typename F>
struct suite {
    using V = value_t<F>;
    using var = var_t<F>;
    using S = system_t<F>;
    using res = std::optional<std::vector<V>>;
    using ex = nil::crypto3::math::expression<var>;
    using sizes = std::vector<std::size_t>;
    std::string fname;

    static V any(rng &g) {
        switch (g.range(0, 9)) {
            case 0: return V::zero();
            case 1: return V::one();
            case 2: return -V::one();
            case 3: return V(g.range(0, 5));
            default: { V r = V(g.next()); for (int i = 0; i < 3; i++) r = r * V(g.next()) + V(g.next()); return r; }
        }
    }
    static std::vector<V> some(rng &g, std::size_t n) { std::vector<V> r(n); for (auto &v : r) v = any(g); return r; }
    static sizes allowed(const nb::plonk_component_manifest &m, std::size_t top) {
        sizes r;
        for (std::size_t w = 1; w <= top; w++) if (m.witness_amount->check_manifest_param(w)) r.push_back(w);
        return r;
    }
    static std::size_t some_width(rng &g, const nb::plonk_component_manifest &m, std::size_t top) { auto w = allowed(m, top); return g.pick(w); }
    // reads a list in pieces
    template<typename T> struct reader {
        const std::vector<T> &v;
        std::size_t at = 0;
        T one() { return v.at(at++); }
        std::vector<T> many(std::size_t n) { std::vector<T> r(v.begin() + at, v.begin() + at + n); at += n; return r; }
    };
    template<typename Body> void cases(const std::string &name, std::uint64_t T, const Body &body) {
        for (std::uint64_t b = 0; b < T; b++) {
            std::string id = name + "/" + fname + "/" + std::to_string(b);
            run_case(id, name, [&] { saw("gadgets", name); auto g = case_rng(id); body(name, g); });
        }
    }
    template<typename Make, typename Bind, typename Gen, typename Want, typename... A>
    void one(const std::string &name, rng &g, std::size_t width, const Make &make, const Bind &bind, const Gen &gen, const Want &want, const comp_options &o, A... a) {
        std::vector<std::vector<V>> in;
        std::vector<res> w;
        for (std::size_t i = 0, n = o.two && g.chance(1, 3) ? 2 : 1; i < n; i++) { in.push_back(gen(g)); w.push_back(want(in.back())); }
        exercise<F>(name, g, width, make, bind, in, w, o, a...);
    }

    void flexible(std::uint64_t T) {
        using SW = bc::flexible_swap<S, F>;
        cases("swap", T, [&](auto &name, rng &g) {
            comp_options o;
            one(name, g, 5, [](auto W, auto C, auto PI) { return SW(W, C, PI); }, [](const std::vector<var> &v) { typename SW::input_type i; for (int k = 0; k < 3; k++) i.inp[k] = v[k]; return i; },
                [](rng &g) { auto v = some(g, 3); if (!g.chance(1, 5)) v[0] = V(g.range(0, 1)); return v; },
                [](auto &i) -> res { if (i[0].is_zero()) return {{i[1], i[2]}}; if (i[0] == V::one()) return {{i[2], i[1]}}; return std::nullopt; }, o);
        });
        auto pairs = [&](auto tag, const std::string &kind, bool product) {
            using C = typename decltype(tag)::type;
            cases(kind, T, [&](auto &name, rng &g) {
                std::size_t n = g.range(1, 14);
                comp_options o;
                one(name, g, some_width(g, C::get_manifest(), 21), [&](auto W, auto K, auto PI) { return C(W, K, PI, n); },
                    [](const std::vector<var> &v) { typename C::input_type i; for (std::size_t k = 0; k < v.size(); k += 2) i.arr.push_back({v[k], v[k + 1]}); return i; },
                    [&](rng &g) { return some(g, 2 * n); },
                    [&](auto &i) -> res { std::vector<V> r; for (std::size_t k = 0; k < i.size(); k += 2) r.push_back(product ? i[k] * i[k + 1] : i[k] + i[k + 1]); return r; }, o, n);
            });
        };
        pairs(type_tag<bc::flexible_additions<S, F>>{}, "sums", false);
        pairs(type_tag<bc::flexible_multiplications<S, F>>{}, "products", true);
        using CP = bc::flexible_constant_pow<S, F>;
        cases("constant power", T, [&](auto &name, rng &g) {
            comp_options o;
            using I = typename F::integral_type;
            std::uint64_t p = g.chance(1, 3) ? (std::uint64_t(1) << g.range(1, 40)) - g.range(0, 1) : g.chance(1, 2) ? g.range(2, 300) : g.next() >> g.range(1, 50);
            if (p < 2) p = 2;
            I power(p);
            one(name, g, some_width(g, CP::get_manifest(), 16), [&](auto W, auto C, auto PI) { return CP(W, C, PI, power); }, [](const std::vector<var> &v) { typename CP::input_type i; i.x = v[0]; return i; },
                [](rng &g) { return some(g, 1); },
                [&](auto &i) -> res { V r = V::one(); for (int b = 63; b >= 0; b--) { r = r * r; if (p >> b & 1) r = r * i[0]; } return {{r}}; }, o, power);
        });
        using PF = bc::pow_factor<S, F>;
        cases("polynomial value", T, [&](auto &name, rng &g) {
            std::size_t power = g.chance(1, 8) ? g.range(0, 2) : g.range(1, 40);
            comp_options o;
            one(name, g, some_width(g, PF::get_manifest(power), 26), [&](auto W, auto C, auto PI) { return PF(W, C, PI, power); },
                [](const std::vector<var> &v) { typename PF::input_type i; i.theta = v[0]; i.coefficients.assign(v.begin() + 1, v.end()); return i; },
                [&](rng &g) { return some(g, power + 2); },
                [&](auto &i) -> res { V r = V::zero(); for (std::size_t k = 1; k < i.size(); k++) r = r * i[0] + i[k]; return {{r}}; }, o, power);
        });
        using XI = bc::flexible_x_index<S, F>;
        cases("first bit of an index", T, [&](auto &name, rng &g) {
            std::size_t n = g.range(1, 9);
            V omega = root(n + 1);
            comp_options o;
            one(name, g, some_width(g, XI::get_manifest(), 15), [&](auto W, auto C, auto PI) { return XI(W, C, PI, n, omega); },
                [](const std::vector<var> &v) { typename XI::input_type i; i.x = v[0]; i.b.assign(v.begin() + 1, v.end()); return i; },
                [&](rng &g) {
                    std::vector<V> v(n + 1);
                    for (std::size_t k = 1; k <= n; k++) v[k] = V(g.range(0, 1));
                    if (g.chance(1, 8)) v[g.range(1, n)] = V(2 + g.next() % 5);    // no bit
                    v[0] = index_point(v, n, omega);
                    if (g.chance(1, 2)) v[0] = -v[0];
                    return v;
                },
                [&](auto &i) -> res {
                    for (std::size_t k = 1; k <= n; k++) if (!i[k].is_zero() && i[k] != V::one()) return {};
                    return {{i[0] == index_point(i, n, omega) ? V::one() : V::zero()}};
                }, o, n);
        });
    }
    void colinear() {
        using C = bc::flexible_colinear_checks<S, F>;
        comp_options o;
        o.exact_rows = false;
        o.statics = false;
        cases("colinear-checks", 1, [&](auto &name, rng &g) {
            one(name, g, 9, [&](auto W, auto K, auto PI) { return C(W, K, PI, 1); },
                [&](const std::vector<var> &v) { typename C::input_type i(1); i.x = v[0]; i.ys = {v[1], v[2], v[3], v[4]}; i.bs = {v[5], v[6]}; i.alphas = {v[7]}; return i; },
                [&](rng &) { std::vector<V> v; for (std::size_t k = 0; k < 8; k++) v.push_back(V(k == 5 || k == 6 ? 1 : k * k + 3)); return v; },
                [&](auto &) -> res { return std::nullopt; }, o, 1);    // values on no common line
        });
    }
    // an element of order 2^k
    static V root(std::size_t k) {
        V r;
        std::uint64_t s = 2;
        while (true) {
            // some element to the power of the odd part of the group order
            r = power_of_odd_part(V(s++));
            V t = r;
            std::size_t order = 0;
            while (t != V::one()) { t = t * t; order++; }
            if (order < k) continue;
            for (; order > k; order--) r = r * r;
            return r;
        }
    }
    static V power_of_odd_part(const V &x) {
        auto m = (-V::one()).data.canon();
        std::vector<bool> bits;
        for (std::size_t k = 0; k < 64 * sizeof(m.v) / 8; k++) bits.push_back((m.v[k / 64] >> (k % 64)) & 1);
        std::size_t low = 0;
        while (!bits[low]) low++;
        V r = V::one();
        for (std::size_t k = bits.size(); k-- > low;) { r = r * r; if (bits[k]) r = r * x; }
        return r;
    }
    static V index_point(const std::vector<V> &v, std::size_t n, const V &omega) {
        V t = V::one();
        for (std::size_t k = n; k >= 1; k--) t = t * t * (v[k] + omega * (V::one() - v[k]));
        return t;
    }

    void fri(std::uint64_t T) {
        using AS = bc::fri_array_swap<S, F>;
        cases("array swap", T, [&](auto &name, rng &g) {
            std::size_t half = g.range(1, 9);
            comp_options o;
            one(name, g, some_width(g, AS::get_manifest(half), 21), [&](auto W, auto C, auto PI) { return AS(W, C, PI, half); },
                [](const std::vector<var> &v) { typename AS::input_type i; i.t = v[0]; i.arr.assign(v.begin() + 1, v.end()); return i; },
                [&](rng &g) { auto v = some(g, 2 * half + 1); v[0] = V(g.range(0, 1)); return v; },
                [&](auto &i) -> res { std::vector<V> r; for (std::size_t k = 1; k < i.size(); k += 2) { r.push_back(i[0].is_zero() ? i[k] : i[k + 1]); r.push_back(i[0].is_zero() ? i[k + 1] : i[k]); } return r; }, o, half);
        });
        using CO = bc::fri_cosets<S, F>;
        cases("coset points", T / 4, [&](auto &name, rng &g) {
            std::size_t n = g.range(1, 12);
            V omega = g.chance(1, 2) ? root(n) : any(g);
            comp_options o;
            o.forge = g.chance(1, 8) ? 2 : 0;
            if (n == 12 || omega.is_zero()) omega = root(n);
            one(name, g, some_width(g, CO::get_manifest(n, omega), 36), [&](auto W, auto C, auto PI) { return CO(W, C, PI, n, omega); },
                [](const std::vector<var> &v) { typename CO::input_type i; i.x = v[0]; return i; },
                [&](rng &g) { return some(g, 1); },
                [&](auto &i) -> res {
                    auto c = i[0].data.canon();
                    V s = V::one(), w = omega;
                    for (std::size_t k = 0; k < n; k++) { if (c.v[0] >> k & 1) s = s * w; w = w * w; }
                    std::vector<V> r;
                    for (std::size_t k = n; k-- > 0;) { r.push_back(s); r.push_back(-s); r.push_back(V(c.v[0] >> k & 1)); s = s * s; }
                    return r;
                }, o, n, omega);
        });
        using LI = bc::fri_lin_inter<S, F>;
        cases("linear interpolation", T, [&](auto &name, rng &g) {
            comp_options o;
            o.inputs_tied = false;    // equal values make the point not matter
            one(name, g, 5, [&](auto W, auto C, auto PI) { return LI(W, C, PI); },
                [](const std::vector<var> &v) { typename LI::input_type i; i.s = v[0]; i.y0 = v[1]; i.y1 = v[2]; i.alpha = v[3]; return i; },
                [&](rng &g) { auto v = some(g, 4); if (v[0].is_zero()) v[0] = V(7); return v; },
                [&](auto &i) -> res { return {{((i[1] + i[2]) + (i[1] - i[2]) * i[3] * i[0].inversed()) * V(2).inversed()}}; }, o);
        });
    }

    void arguments(std::uint64_t T) {
        using F1 = bc::detail::f1_loop<S>;
        using F3 = bc::detail::f3_loop<S>;
        using GC = bc::detail::gate_component<S>;
        comp_options loose;
        loose.gates_exact = false;
        loose.exact_rows = false;
        cases("product of factors", T, [&](auto &name, rng &g) {
            std::size_t m = g.range(1, 14);
            one(name, g, some_width(g, F1::get_manifest(m), 15), [&](auto W, auto C, auto PI) { return F1(W, C, PI, m); },
                [&](const std::vector<var> &v) { reader<var> r{v}; typename F1::input_type i; i.beta = r.one(); i.gamma = r.one(); i.s = r.many(m); i.t = r.many(m); return i; },
                [&](rng &g) { return some(g, 2 * m + 2); },
                [&](auto &i) -> res { return {{factors(i[0], i[1], std::vector<V>(i.begin() + 2, i.begin() + 2 + m), std::vector<V>(i.begin() + 2 + m, i.end()))}}; }, adjusted(loose, g), m);
        });
        cases("sum of differences", T, [&](auto &name, rng &g) {
            std::size_t m = g.range(1, 14);
            one(name, g, some_width(g, F3::get_manifest(m), 15), [&](auto W, auto C, auto PI) { return F3(W, C, PI, m); },
                [&](const std::vector<var> &v) { reader<var> r{v}; typename F3::input_type i; i.alphas = r.many(m); i.s = r.many(m); i.t = r.many(m); return i; },
                [&](rng &g) { return some(g, 3 * m); },
                [&](auto &i) -> res { V s = V::zero(); for (std::size_t k = 0; k < m; k++) s = s + i[k] * (i[m + k] - i[2 * m + k]); return {{s}}; }, adjusted(loose, g), m);
        });
        cases("selected combination", T, [&](auto &name, rng &g) {
            std::size_t d = g.range(1, 14);
            one(name, g, some_width(g, GC::get_manifest(d), 15), [&](auto W, auto C, auto PI) { return GC(W, C, PI, d); },
                [&](const std::vector<var> &v) { reader<var> r{v}; typename GC::input_type i; i.theta = r.one(); i.constraints = r.many(d + 1); i.selector = r.one(); return i; },
                [&](rng &g) { return some(g, d + 3); },
                [&](auto &i) -> res { return {{i.back() * combined(i[0], std::vector<V>(i.begin() + 1, i.end() - 1))}}; }, adjusted(loose, g), d);
        });
        using GA = bc::basic_constraints_verifier<S>;
        cases("gate argument", T, [&](auto &name, rng &g) {
            sizes n(g.range(1, 4));
            for (auto &x : n) x = g.chance(1, 3) ? 1 : g.range(1, 5);
            std::size_t total = std::accumulate(n.begin(), n.end(), std::size_t(0));
            auto m = n;
            one(name, g, some_width(g, GA::get_manifest(m), 15), [&](auto W, auto C, auto PI) { auto p = n; return GA(W, C, PI, p); },
                [&](const std::vector<var> &v) { reader<var> r{v}; typename GA::input_type i; i.theta = r.one(); i.constraints = r.many(total); i.selectors = r.many(n.size()); return i; },
                [&](rng &g) { return some(g, 1 + total + n.size()); },
                [&](auto &i) -> res {
                    reader<V> r{i};
                    V theta = r.one(), s = V::zero(), p = V::one();
                    std::vector<std::vector<V>> c;
                    for (auto x : n) c.push_back(r.many(x));
                    for (std::size_t k = 0; k < n.size(); k++) { s = s + p * r.one() * combined(theta, c[k]); for (std::size_t j = 0; j < n[k]; j++) p = p * theta; }
                    return {{s}};
                }, total == 1 ? untied(loose, g) : adjusted(loose, g), n);
        });
        using PA = bc::permutation_verifier<S>;
        cases("permutation argument", T, [&](auto &name, rng &g) {
            std::size_t m = g.range(2, 10);
            one(name, g, 6, [&](auto W, auto C, auto PI) { return PA(W, C, PI, m); },
                [&](const std::vector<var> &v) {
                    reader<var> r{v};
                    typename PA::input_type i;
                    i.f = r.many(m); i.Se = r.many(m); i.Ssigma = r.many(m);
                    i.L0 = r.one(); i.V = r.one(); i.V_zeta = r.one(); i.q_last = r.one(); i.q_pad = r.one(); i.thetas[0] = r.one(); i.thetas[1] = r.one();
                    return i;
                },
                [&](rng &g) { return some(g, 3 * m + 7); },
                [&](auto &i) -> res {
                    reader<V> r{i};
                    auto f = r.many(m), e = r.many(m), s = r.many(m);
                    V L0 = r.one(), v = r.one(), vz = r.one(), last = r.one(), pad = r.one(), t1 = r.one(), t2 = r.one(), pe = V::one(), ps = V::one();
                    for (std::size_t k = 0; k < m; k++) { pe = pe * (f[k] + t1 * e[k] + t2); ps = ps * (f[k] + t1 * s[k] + t2); }
                    return {{L0 * (V::one() - v), (V::one() - last - pad) * (vz * ps - v * pe), last * v * (v - V::one())}};
                }, adjusted(loose, g), m);
        });
        cases("permutation-argument-of-one-column", 1, [&](auto &name, rng &g) {
            one(name, g, 6, [&](auto W, auto C, auto PI) { return PA(W, C, PI, 1); },
                [&](const std::vector<var> &v) {
                    typename PA::input_type i;
                    i.f = {v[0]}; i.Se = {v[1]}; i.Ssigma = {v[2]}; i.L0 = v[3]; i.V = v[4]; i.V_zeta = v[5]; i.q_last = v[6]; i.q_pad = v[7]; i.thetas[0] = v[8]; i.thetas[1] = v[9];
                    return i;
                },
                [&](rng &) { std::vector<V> v; for (std::size_t k = 0; k < 10; k++) v.push_back(V(k * k + 2)); return v; },
                [&](auto &i) -> res { return {{i[3] * (V::one() - i[4]), (V::one() - i[6] - i[7]) * (i[5] * (i[0] + i[8] * i[2] + i[9]) - i[4] * (i[0] + i[8] * i[1] + i[9])), i[6] * i[4] * (i[4] - V::one())}}; }, loose, 1);
        });
        using LA = bc::lookup_verifier<S>;
        cases("lookup argument", T, [&](auto &name, rng &g) {
            sizes per_gate(g.range(1, 3)), inputs, options(g.range(1, 3)), columns;
            for (auto &x : per_gate) { x = g.range(1, 2); for (std::size_t k = 0; k < x; k++) inputs.push_back(g.range(1, 4)); }
            for (auto &x : options) { x = g.range(1, 2); columns.push_back(g.range(1, 4)); }
            std::size_t ng = per_gate.size(), nt = options.size(), ni = std::accumulate(inputs.begin(), inputs.end(), std::size_t(0)), no = 0, nv = 0;
            for (std::size_t k = 0; k < nt; k++) { no += options[k] * columns[k]; nv += options[k]; }
            std::size_t m = inputs.size() + nv, total = 3 + (m - 1) + 7 + ng + inputs.size() + ni + 2 * nt + 2 * no + 3 * m - 1;
            auto q1 = per_gate, q2 = inputs, q3 = options, q4 = columns;
            auto o = adjusted(loose, g);
            o.two = false;
            o.selectors = 120;
            one(name, g, some_width(g, LA::get_manifest(ng, q1, q2, nt, q3, q4), 15), [&](auto W, auto C, auto PI) { auto a = per_gate, b = inputs, c = options, d = columns; return LA(W, C, PI, ng, a, b, nt, c, d); },
                [&](const std::vector<var> &v) {
                    reader<var> r{v};
                    typename LA::input_type i;
                    i.theta = r.one(); i.beta = r.one(); i.gamma = r.one(); i.alphas = r.many(m - 1);
                    for (auto *p : {&i.V_L_values, &i.q_last, &i.q_blind}) { (*p)[0] = r.one(); (*p)[1] = r.one(); }
                    i.L0 = r.one();
                    i.lookup_gate_selectors = r.many(ng); i.lookup_gate_constraints_table_ids = r.many(inputs.size()); i.lookup_gate_constraints_lookup_inputs = r.many(ni);
                    i.lookup_table_selectors = r.many(nt); i.lookup_table_lookup_options = r.many(no);
                    i.shifted_lookup_table_selectors = r.many(nt); i.shifted_lookup_table_lookup_options = r.many(no);
                    i.sorted = r.many(3 * m - 1);
                    return i;
                },
                [&](rng &g) { return some(g, total); },
                [&](auto &i) -> res {
                    reader<V> r{i};
                    V theta = r.one(), beta = r.one(), gamma = r.one();
                    auto alphas = r.many(m - 1), vl = r.many(2), last = r.many(2), blind = r.many(2);
                    V L0 = r.one();
                    auto gs = r.many(ng), ids = r.many(inputs.size()), in = r.many(ni);
                    return lookup_results(r, theta, beta, gamma, alphas, vl, last, blind, L0, gs, ids, in, per_gate, inputs, options, columns, m, no);
                }, o, ng, per_gate, inputs, nt, options, columns);
        });
    }
    template<typename R>
    static res lookup_results(R &r, V theta, V beta, V gamma, std::vector<V> alphas, std::vector<V> vl, std::vector<V> last, std::vector<V> blind, V L0, std::vector<V> gs, std::vector<V> ids, std::vector<V> in,
                              const sizes &per_gate, const sizes &inputs, const sizes &options, const sizes &columns, std::size_t m, std::size_t no) {
        std::vector<V> offered[2], asked;
        for (int s = 0; s < 2; s++) {
            auto sel = r.many(options.size()), opt = r.many(no);
            std::size_t at = 0;
            V mask = V::one() - last[s] - blind[s];
            for (std::size_t t = 0; t < options.size(); t++) for (std::size_t k = 0; k < options[t]; k++) {
                V x = V(t + 1), p = theta;
                for (std::size_t c = 0; c < columns[t]; c++) { x = x + p * opt[at++]; p = p * theta; }
                offered[s].push_back(sel[t] * x * mask);
            }
        }
        std::size_t at = 0, ctr = 0;
        for (std::size_t q = 0; q < per_gate.size(); q++) for (std::size_t k = 0; k < per_gate[q]; k++) {
            V x = ids[ctr], p = theta;
            for (std::size_t c = 0; c < inputs[ctr]; c++) { x = x + p * in[at++]; p = p * theta; }
            ctr++;
            asked.push_back(gs[q] * x);
        }
        auto s0 = r.many(m), s1 = r.many(m), s2 = r.many(m - 1);
        V h = factors(beta, gamma, s0, s1), q = factors(beta, gamma, asked, asked) * factors(beta, gamma, offered[0], offered[1]), f3 = V::zero();
        for (std::size_t k = 0; k + 1 < m; k++) f3 = f3 + alphas[k] * (s0[k + 1] - s2[k]);
        return {{(V::one() - vl[0]) * L0, last[0] * vl[0] * (vl[0] - V::one()), (V::one() - last[0] - blind[0]) * (vl[1] * h - vl[0] * q), f3 * L0}};
    }
    static comp_options untied(comp_options o, rng &g) { o = adjusted(o, g); o.inputs_tied = false; return o; }
    static comp_options adjusted(comp_options o, rng &g) { o.inputs_tied = true; o.forge = g.chance(1, 4) ? 3 : 0; return o; }
    static V factors(V beta, V gamma, const std::vector<V> &s, const std::vector<V> &t) {
        V p = V::one();
        for (std::size_t k = 0; k < s.size(); k++) p = p * ((V::one() + beta) * gamma + s[k] + beta * t[k]);
        return p;
    }
    static V combined(V theta, const std::vector<V> &c) { V r = V::zero(); for (std::size_t k = c.size(); k-- > 0;) r = r * theta + c[k]; return r; }

    // a random expression in the variables given
    static ex expression(rng &g, const std::vector<var> &v, std::size_t depth) {
        if (!depth || g.chance(1, 6)) {
            if (g.chance(1, 6)) return ex(any(g));
            ex e = g.pick(v);
            if (g.chance(1, 3)) return e * any(g);
            return e;
        }
        ex a = expression(g, v, depth - 1);
        switch (g.range(0, 5)) {
            case 0: return a.pow(g.range(1, 6));
            case 1: case 2: return a + expression(g, v, depth - 1);
            case 3: return a - expression(g, v, depth - 1);
            default: return a * expression(g, v, depth - 1);
        }
    }
    void expressions(std::uint64_t T) {
        using E = bc::detail::expression_evaluation_component<S>;
        comp_options o;
        o.exact_rows = false;
        o.inputs_tied = false;
        o.forge = 0;
        o.alone = false;    // batches are placed together with their values
        cases("expression", T, [&](auto &name, rng &g) {
            std::vector<var> names;
            for (std::size_t k = 0, n = g.range(1, 5); k < n; k++) names.push_back(var(k % 3, int(k / 3) - 1, true, k % 2 ? var::column_type::witness : var::column_type::constant));
            ex e = expression(g, names, g.range(1, 4)) + names[0] * names.back();
            one(name, g, 3, [&](auto W, auto C, auto PI) { return E(W, C, PI, typename E::constraint_type(e)); },
                [&](const std::vector<var> &v) { typename E::input_type i; for (std::size_t k = 0; k < v.size(); k++) i.variable_mapping[names[k]] = v[k]; return i; },
                [&](rng &g) { return some(g, names.size()); },
                [&](auto &i) -> res { return {{eval<F>(e, [&](const var &v) { return i[std::find(names.begin(), names.end(), v) - names.begin()]; })}}; }, o, typename E::constraint_type(e));
        });
        using P = bc::final_polynomial_check<S>;
        cases("final polynomial", T, [&](auto &name, rng &g) {
            std::size_t power = g.range(1, 6), lambda = g.range(1, 3);
            comp_options q = o;
            q.inputs_tied = true;
            auto value = [&](const std::vector<V> &c, const V &x) { V r = V::zero(); for (std::size_t k = 0; k <= power; k++) r = r * x + c[k]; return r; };
            one(name, g, 3, [&](auto W, auto C, auto PI) { return P(W, C, PI, power, lambda); },
                [&](const std::vector<var> &v) { reader<var> r{v}; typename P::input_type i; i.coefficients = r.many(power + 1); i.points = r.many(lambda); i.values = r.many(2 * lambda); return i; },
                [&](rng &g) {
                    auto v = some(g, power + 1 + lambda);
                    for (std::size_t k = 0; k < lambda; k++) { V x = v[power + 1 + k]; v.push_back(value(v, x)); v.push_back(value(v, -x)); }
                    if (g.chance(1, 4)) { std::size_t k = g.range(0, v.size() - 1); v[k] = v[k] + V(1); }
                    return v;
                },
                [&](auto &i) -> res {
                    for (std::size_t k = 0; k < lambda; k++) { V x = i[power + 1 + k]; if (i[power + 1 + lambda + 2 * k] != value(i, x) || i[power + 2 + lambda + 2 * k] != value(i, -x)) return std::nullopt; }
                    return std::vector<V>{};
                }, q, power, lambda);
        });
    }
    template<typename T> struct type_tag { using type = T; };
};

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    suite<fields::pallas_base_field> p{"pallas"};
    std::uint64_t T = scaled(300, 2000);
#if !defined(PART) || PART == 1
    p.flexible(T);
    p.fri(T);
    p.colinear();
#endif
#if !defined(PART) || PART == 2
    p.arguments(T);
#endif
#if !defined(PART) || PART == 3
    p.expressions(T);
#endif
    return finish();
}
