// Gadgets on field elements: arithmetic, flags, logic, interpolation.
#include "comp.hpp"
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/linear_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/quadratic_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/sqrt.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>

using namespace vf;
namespace nb = nil::blueprint;
namespace bc = nil::blueprint::components;
namespace fields = nil::crypto3::algebra::fields;

template<typename F>
struct suite {
    using V = value_t<F>;
    using var = var_t<F>;
    using S = system_t<F>;
    using P = nb::basic_non_native_policy<F>;
    using res = std::optional<std::vector<V>>;
    std::string fname;

    static V any(rng &g) {
        switch (g.range(0, 6)) {
            case 0: return V(g.range(0, 2));
            case 1: return -V(g.range(0, 3));
            case 2: return V(g.range(0, 1000));
            default: {
                V v = V(g.next());
                for (int i = 0; i < 3; i++) v = v * V(~std::uint64_t(0)) + V(g.next());
                return v;
            }
        }
    }
    // one gadget: any number of widths, inputs by `gen`, expected results by `want`
    template<typename Make, typename Bind, typename Gen, typename Want, typename... St>
    void run(const std::string &name, std::uint64_t times, std::vector<std::size_t> widths, const Make &make, const Bind &bind, const Gen &gen, const Want &want, comp_options o, St... st) {
        for (std::uint64_t b = 0; b < times; b++) {
            std::string id = name + "/" + fname + "/" + std::to_string(b);
            run_case(id, name, [&] {
                auto g = case_rng(id);
                std::vector<std::vector<V>> in;
                std::vector<res> w;
                std::size_t n = o.two && g.chance(1, 2) ? 2 : 1;
                for (std::size_t i = 0; i < n; i++) { in.push_back(gen(g)); w.push_back(want(in.back())); }
                if (!w[0] || (n == 2 && !w[1])) { saw("refusals", name); }
                saw("gadgets", name);
                exercise<F>(name, g, g.pick(widths), make, bind, in, w, o, st...);
            });
        }
    }
    template<typename C> static auto plain() { return [](auto W, auto K, auto PI) { return C(W, K, PI); }; }
    template<typename C> static auto bare() { return [](auto W, auto K, auto PI) { return C(W, std::vector<std::uint32_t>{}, std::vector<std::uint32_t>{}); }; }
    template<typename C> static auto two() { return [](const std::vector<var> &v) { typename C::input_type i; auto a = i.all_vars(); for (std::size_t k = 0; k < v.size(); k++) a.at(k).get() = v[k]; return i; }; }
    static std::vector<V> pair(rng &g) { V x = any(g); return {x, g.chance(1, 4) ? x : any(g)}; }

    void arithmetic(std::uint64_t T) {
        comp_options o;
        using A = bc::addition<S, F, P>;
        run("addition", T, {3}, plain<A>(), two<A>(), pair, [](auto &i) -> res { return {{i[0] + i[1]}}; }, o);
        using B = bc::subtraction<S, F, P>;
        run("subtraction", T, {3}, plain<B>(), two<B>(), pair, [](auto &i) -> res { return {{i[0] - i[1]}}; }, o);
        using C = bc::multiplication<S, F, P>;
        run("multiplication", T, {3}, plain<C>(), two<C>(), pair, [](auto &i) -> res { return {{i[0] * i[1]}}; }, o);
        // the quotient is the value that times the divisor gives the dividend
        auto quotient = [](const V &x, const V &y) {
            V e = V(0) - V(2), r = V::one();    // y^(p-2)
            auto bits = e.data.canon();
            for (int k = 64 * int(sizeof(bits.v) / 8) - 1; k >= 0; k--) { r = r * r; if ((bits.v[k / 64] >> (k % 64)) & 1) r = r * y; }
            return x * r;
        };
        using D = bc::division<S, F, P>;
        run("division", T, {4}, plain<D>(), two<D>(), pair, [&](auto &i) -> res { if (i[1].is_zero()) return std::nullopt; return {{quotient(i[0], i[1])}}; }, o);
        using Z = bc::division_or_zero<S, F>;
        run("division or zero", T, {5}, plain<Z>(), two<Z>(), pair, [&](auto &i) -> res { return {{quotient(i[0], i[1])}}; }, o);
        for (std::uint64_t k = 0; k < T / 20; k++) {
            auto g = case_rng("constant" + fname + std::to_string(k));
            V c = any(g);
            using M = bc::mul_by_constant<S, F>;
            run("multiplication by constant/" + std::to_string(k), 10, {2}, [c](auto W, auto K, auto PI) { return M(W, K, PI, c); }, two<M>(), [](rng &g) { return std::vector<V>{any(g)}; }, [c](auto &i) -> res { return {{i[0] * c}}; }, o);
        }
    }
    void flags(std::uint64_t T) {
        comp_options o;
        auto one = [](bool b) -> res { return {{b ? V::one() : V::zero()}}; };
        using A = bc::logic_and_flag<S>;
        run("and flag", T, {2, 3, 4, 5}, plain<A>(), two<A>(), pair, [&](auto &i) { return one(!i[0].is_zero() && !i[1].is_zero()); }, o);
        using O = bc::logic_or_flag<S>;
        run("or flag", T, {2, 3, 4, 5, 6}, plain<O>(), two<O>(), pair, [&](auto &i) { return one(!i[0].is_zero() || !i[1].is_zero()); }, o);
        for (bool inv : {false, true}) {
            using E = bc::equality_flag<S, F>;
            run(inv ? "inequality flag" : "equality flag", T, {4}, [inv](auto W, auto K, auto PI) { return E(W, K, PI, inv); }, two<E>(), pair, [&, inv](auto &i) { return one((i[0] == i[1]) != inv); }, o, inv);
        }
    }
    template<template<typename> class L, std::size_t N, typename Op>
    void logic_one(const std::string &name, std::uint64_t T, const Op &op, bool checked) {
        using C = L<S>;
        comp_options o;
        auto bind = [](const std::vector<var> &v) { typename C::input_type i; auto a = i.all_vars(); for (std::size_t k = 0; k < v.size(); k++) a.at(k).get() = v[k]; return i; };
        auto gen = [checked](rng &g) {
            std::vector<V> v;
            for (std::size_t i = 0; i < N; i++) v.push_back(V(g.range(0, 1)));
            if (N == 3) { v[1] = any(g); v[2] = any(g); }
            if (checked && g.chance(1, 5)) v[g.range(0, N - 1)] = any(g);
            return v;
        };
        o.component_constants = 0;
        run(name, T, {N + 1}, bare<C>(), bind, gen, [&](auto &i) -> res {
            if (checked) for (auto &x : i) if (!x.is_zero() && x != V::one()) return std::nullopt;
            return {{op(i)}};
        }, o);
    }
    void logic(std::uint64_t T) {
        auto b = [](const V &x) { return !x.is_zero(); };
        auto f = [](bool x) { return x ? V::one() : V::zero(); };
        logic_one<bc::logic_not, 1>("not", T, [&](auto &i) { return f(!b(i[0])); }, false);
        logic_one<bc::logic_and, 2>("and", T, [&](auto &i) { return f(b(i[0]) && b(i[1])); }, false);
        logic_one<bc::logic_or, 2>("or", T, [&](auto &i) { return f(b(i[0]) || b(i[1])); }, false);
        logic_one<bc::logic_xor, 2>("xor", T, [&](auto &i) { return f(b(i[0]) != b(i[1])); }, false);
        logic_one<bc::logic_nand, 2>("nand", T, [&](auto &i) { return f(!(b(i[0]) && b(i[1]))); }, false);
        logic_one<bc::logic_nor, 2>("nor", T, [&](auto &i) { return f(!(b(i[0]) || b(i[1]))); }, false);
        logic_one<bc::select, 3>("select", T, [&](auto &i) { return b(i[0]) ? i[1] : i[2]; }, false);
        logic_one<bc::lookup_logic_and, 2>("and by table", T, [&](auto &i) { return f(b(i[0]) && b(i[1])); }, true);
        logic_one<bc::lookup_logic_xor, 2>("xor by table", T, [&](auto &i) { return f(b(i[0]) != b(i[1])); }, true);
    }
    void curves_through_points(std::uint64_t T) {
        comp_options o;
        using L = bc::linear_inter_coefs<S, F>;
        // points are made from the line, so the answer is known
        run("line through points", T, {7}, plain<L>(), two<L>(), [&](rng &g) {
            V a0 = any(g), a1 = any(g), x0 = any(g), x1 = g.chance(1, 8) ? x0 : any(g);
            std::vector<V> r{x0, a0 + a1 * x0, x1, a0 + a1 * x1};
            known[show(r[0]) + "," + show(r[1]) + "," + show(r[2]) + "," + show(r[3])] = {a0, a1};
            return r;
        }, [&](auto &i) -> res { if (i[0] == i[2]) return std::nullopt; return known[show(i[0]) + "," + show(i[1]) + "," + show(i[2]) + "," + show(i[3])]; }, o);
        using Q = bc::quadratic_inter_coefs<S, F>;
        auto key = [](const std::vector<V> &v) { std::string s; for (auto &x : v) s += show(x) + ","; return s; };
        run("parabola through points", T, {10}, plain<Q>(), two<Q>(), [&](rng &g) {
            V a0 = any(g), a1 = any(g), a2 = any(g), x[3] = {any(g), any(g), any(g)};
            if (g.chance(1, 8)) x[g.range(0, 2)] = x[g.range(0, 2)];
            std::vector<V> r;
            for (auto &p : x) { r.push_back(p); r.push_back(a0 + a1 * p + a2 * p * p); }
            known[key(r)] = {a0, a1, a2};
            return r;
        }, [&](auto &i) -> res { if (i[0] == i[2] || i[2] == i[4] || i[0] == i[4]) return std::nullopt; return known[key(i)]; }, o);
    }
    std::map<std::string, std::vector<V>> known;

    static V power(V b, const std::vector<bool> &msb) { V r = V::one(); for (bool x : msb) { r = r * r; if (x) r = r * b; } return r; }
    template<std::size_t N>
    void exponent(std::uint64_t T) {
        comp_options o;
        o.max_start = 3;
        using E = bc::exponentiation<S, F, N>;
        run("exponentiation " + std::to_string(N), T, {15}, plain<E>(), two<E>(), [](rng &g) {
            V e = V(0);
            std::size_t bits = g.chance(1, 3) ? g.range(0, std::min<std::size_t>(N, 250)) : std::min<std::size_t>(N, 250);
            if (N < 200 && g.chance(1, 6)) bits = g.range(bits + 1, 250);
            for (std::size_t i = 0; i < bits; i++) e = e + e + V(i == 0 || g.chance(1, 8) ? 1 : g.range(0, 1));
            return std::vector<V>{any(g), e};
        }, [](auto &i) -> res {
            auto c = i[1].data.canon();
            std::vector<bool> b;
            bool large = false;
            for (int k = 64 * int(sizeof(c.v) / 8) - 1; k >= 0; k--) {
                b.push_back((c.v[k / 64] >> (k % 64)) & 1);
                large |= b.back() && k >= int((N + 7) / 8 * 8);
            }
            if (large) return std::nullopt;
            return {{power(i[0], b)}};
        }, o);
    }
    void root(std::uint64_t T) {
        comp_options o;
        o.max_start = 3;
        using R = bc::sqrt<S, F>;
        auto want = [](auto &i) -> res {
            V h = i[0];
            auto e = (V(0) - V(1)).data.canon();    // Euler: y^((p-1)/2)
            V t = V::one();
            for (int k = 64 * int(sizeof(e.v) / 8) - 1; k >= 1; k--) { t = t * t; if ((e.v[k / 64] >> (k % 64)) & 1) t = t * h; }
            if (t == -V::one()) return {{-V::one()}};
            return {{h.sqrt()}};
        };
        run("square root", T, {15}, plain<R>(), two<R>(), [](rng &g) { V x = any(g); if (x.is_zero()) x = V(5); return std::vector<V>{g.chance(1, 2) ? x * x : x}; }, want, o);
        // at zero the root is a double one, which the search to first order takes for a free cell
        o.rigid = false;
        run("square root of zero", T / 4, {15}, plain<R>(), two<R>(), [](rng &) { return std::vector<V>{V::zero()}; }, want, o);
    }
};

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    suite<fields::pallas_base_field> p{"pallas"};
    std::uint64_t T = scaled(800, 8000);
#if PART == 1
    p.arithmetic(T);
    p.curves_through_points(T);
#elif PART == 2
    p.flags(T);
    p.logic(T);
#else
    p.exponent<64>(scaled(80, 400));
    p.exponent<255>(scaled(24, 120));
    p.exponent<13>(scaled(80, 400));
    p.root(scaled(24, 160));
#endif
    return finish();
}
