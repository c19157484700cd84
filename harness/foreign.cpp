// Gadgets for arithmetic modulo 2^255 - 19 and its group order, and for points of curves.
#include "comp.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#if PART == 1
#include <nil/blueprint/basic_non_native_policy.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/multiplication.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/scalar_non_native_range.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/range.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/reduction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp>
#endif
#if PART == 2
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp>
#endif
#if PART == 3
#include <nil/blueprint/component_stretcher.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/unified_addition.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp>
#endif
#if PART == 4
#include <nil/blueprint/component_stretcher.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512.hpp>
#include <nil/blueprint/components/systems/snark/plonk/kimchi/detail/limbs.hpp>
#endif

using namespace vf;
namespace nb = nil::blueprint;
namespace bc = nil::blueprint::components;
namespace fields = nil::crypto3::algebra::fields;
namespace curves = nil::crypto3::algebra::curves;
using Z = boost::multiprecision::cpp_int;

static const Z P25519 = (Z(1) << 255) - 19;
static const Z L25519 = (Z(1) << 252) + Z("27742317777372353535851937790883648493");
static Z mod(const Z &a, const Z &m) { Z r = a % m; return r < 0 ? Z(r + m) : r; }
static Z power(Z b, Z e, const Z &m) { Z r = 1; for (b = mod(b, m); e != 0; e >>= 1, b = b * b % m) if (bit_test(e, 0)) r = r * b % m; return r; }
static Z inverse(const Z &a, const Z &m) {
    Z r = m, s = mod(a, m), x = 0, y = 1, q, t;    // 0 for 0
    while (s != 0) {
        q = r / s;
        t = r - q * s, r = s, s = t;
        t = x - q * y, x = y, y = t;
    }
    return r == 1 ? mod(x, m) : Z(0);
}
// a number below m, edge values included
static Z below(rng &g, const Z &m) {
    std::size_t bits = msb(m) + 1;
    Z r = 0;
    for (std::size_t k = 0; k < bits + 64; k += 64) r = (r << 64) | Z(g.next());
    switch (g.range(0, 11)) {
        case 0: return 0;
        case 1: return m - 1 - Z(g.range(0, 40));
        case 2: return g.range(0, 40);
        case 3: return mod(r, m) & ((Z(1) << g.range(1, bits - 1)) - 1);
        case 4: return m / 2 + Z(g.range(0, 2)) - 1;
        case 5: return (Z(1) << g.range(0, bits - 2)) - Z(g.range(0, 1));
        case 6: return ((Z(1) << (bits - 1)) - 1) ^ (Z(1) << g.range(0, bits - 2));    // nearly all ones
        default: return mod(r, m);
    }
}

struct point {
    Z x, y;
    bool operator==(const point &o) const { return x == o.x && y == o.y; }
};
// -x^2 + y^2 = 1 + d x^2 y^2 modulo 2^255 - 19
struct edwards {
    static Z d() { static const Z r = mod(-121665 * inverse(121666, P25519), P25519); return r; }
    static point zero() { return {0, 1}; }
    static point add(const point &a, const point &b) {
        const Z &m = P25519;
        Z t = mod(d() * a.x % m * b.x % m * a.y % m * b.y, m);
        return {mod((a.x * b.y + a.y * b.x) * inverse(1 + t, m), m), mod((a.y * b.y + a.x * b.x) * inverse(mod(1 - t, m), m), m)};
    }
    static point base() {
        static const point r = [] {
            const Z &m = P25519;
            Z y = mod(4 * inverse(5, m), m), x2 = mod((y * y - 1) * inverse(mod(d() * y % m * y + 1, m), m), m), x = power(x2, (m + 3) / 8, m);
            if (mod(x * x - x2, m) != 0) x = mod(x * power(2, (m - 1) / 4, m), m);
            if (bit_test(x, 0)) x = m - x;
            return point{x, y};
        }();
        return r;
    }
    static point times(Z k, point b) { point r = zero(); for (; k != 0; k >>= 1, b = add(b, b)) if (bit_test(k, 0)) r = add(r, b); return r; }
    // points of the large subgroup, of small order, and sums of both
    static point some(rng &g) {
        static const Z i4 = power(2, (P25519 - 1) / 4, P25519);
        const point small[] = {{0, 1}, {0, P25519 - 1}, {i4, 0}, {P25519 - i4, 0}};
        if (g.chance(1, 5)) return small[g.range(0, 3)];
        point p = times(g.chance(1, 4) ? Z(g.range(1, 20)) : below(g, L25519), base());
        return g.chance(1, 6) ? add(p, small[g.range(0, 3)]) : p;
    }
};
// y^2 = x^3 + 5 modulo m, nothing is written (0, 0)
struct pasta {
    Z m, order;
    point add(const point &a, const point &b) const {
        if (a.x == 0 && a.y == 0) return b;
        if (b.x == 0 && b.y == 0) return a;
        if (a.x == b.x && mod(a.y + b.y, m) == 0) return {0, 0};
        Z l = a.x == b.x ? mod(3 * a.x % m * a.x * inverse(2 * a.y, m), m) : mod((b.y - a.y) * inverse(mod(b.x - a.x, m), m), m);
        Z x = mod(l * l - a.x - b.x, m);
        return {x, mod(l * (a.x - x) - a.y, m)};
    }
    point times(Z k, point b) const { point r{0, 0}; for (k = mod(k, order); k != 0; k >>= 1, b = add(b, b)) if (bit_test(k, 0)) r = add(r, b); return r; }
    point some(rng &g) const {
        if (g.chance(1, 8)) return {0, 0};
        return times(g.chance(1, 4) ? Z(g.range(1, 20)) : below(g, order), {m - 1, 2});
    }
};

template<typename Void, typename C, typename... A> struct sized_as : std::false_type {};
template<typename C, typename... A> struct sized_as<std::void_t<decltype(C::get_rows_amount(std::size_t(), std::declval<A>()...))>, C, A...> : std::true_type {};
template<typename C, typename... A> using sized = sized_as<void, C, A...>;

template<typename F>
struct suite {
    using V = value_t<F>;
    using var = var_t<F>;
    using S = system_t<F>;
    using res = std::optional<std::vector<V>>;
    std::string fname;

    static V value(const Z &n) { V r = V::zero(), b = V::one(); for (Z x = n; x != 0; x >>= 1, b = b + b) if (bit_test(x, 0)) r = r + b; return r; }
    static Z number(const V &v) { Z r = 0; auto c = v.data.canon(); for (int k = sizeof(c.v) / 8 - 1; k >= 0; k--) r = (r << 64) | Z(c.v[k]); return r; }
    static void limbs(const Z &n, std::vector<V> &out) { for (int k = 0; k < 4; k++) out.push_back(value((n >> (66 * k)) & ((Z(1) << 66) - 1))); }
    static Z glue(const std::vector<V> &i, std::size_t at) { Z r = 0; for (int k = 3; k >= 0; k--) r = (r << 66) + number(i[at + k]); return r; }
    template<typename C> static auto bind() { return [](const std::vector<var> &v) { typename C::input_type i; auto a = i.all_vars(); for (std::size_t k = 0; k < v.size(); k++) a.at(k).get() = v[k]; return i; }; }

    template<typename Fn>
    void cases(const std::string &what, std::uint64_t T, const Fn &f) {
        for (std::uint64_t i = 0; i < T; i++) {
            std::string id = what + " " + fname + " " + std::to_string(i);
            run_case(id, what, [&] { rng g = case_rng(id); f(g); });
        }
    }
    template<typename C, typename Bind, typename Gen, typename Want, typename... A>
    void one(const std::string &name, rng &g, std::size_t width, const Bind &bind, const Gen &gen, const Want &want, const comp_options &o, A... a) {
        std::size_t n = o.two && g.chance(1, 3) ? 2 : 1;
        std::vector<std::vector<V>> ins;
        std::vector<res> outs;
        for (std::size_t k = 0; k < n; k++) { ins.push_back(gen(g)); outs.push_back(want(ins.back())); }
        auto make = [&](auto &w, auto &c, auto &p) { return C(w, c, p, a...); };
        if constexpr (sized<C, A...>::value) exercise<F>(name, g, width, make, bind, ins, outs, o, a...);
        else exercise<F>(name, g, width, make, bind, ins, outs, o);
    }
    comp_options plain() {
        comp_options o;
        o.moves = false;    // the pieces of a limb are limited by no constraint, see the notes
        o.forge = 0;
        o.max_start = 9;
        if (PART == 2) o.misread = 24;
        return o;
    }
#if PART == 1
    void ranges(std::uint64_t T) {
        using C = bc::plonk_ed25519_range<F>;
        cases("foreign range", T, [&](rng &g) {
            one<C>("foreign range", g, 9, bind<C>(), [&](rng &g) {
                std::vector<V> r;
                Z n = below(g, P25519);
                if (g.chance(1, 4)) n = P25519 + Z(g.range(0, 18));    // fits the limbs, yet too large
                limbs(n, r);
                if (g.chance(1, 4)) {    // a limb that is too large
                    std::size_t k = g.range(0, 3);
                    r[k] = g.chance(1, 2) ? r[k] + value(Z(1) << (k == 3 ? 57 : 66)) : g.chance(1, 2) ? -V::one() - r[k] : V::zero() - value(Z(1) << g.range(0, 200));
                }
                return r;
            }, [&](auto &i) -> res {
                for (int k = 0; k < 4; k++) if (number(i[k]) >> (k == 3 ? 57 : 66) != 0) return std::nullopt;
                if (glue(i, 0) >= P25519) return std::nullopt;
                return std::vector<V>{};
            }, plain());
        });
    }
    template<typename C, typename Op>
    void arithmetic(const std::string &name, std::uint64_t T, const Op &op) {
        cases(name, T, [&](rng &g) {
            one<C>(name, g, 9, bind<C>(), [&](rng &g) {
                Z a = below(g, P25519), b = below(g, P25519);
                switch (g.range(0, 9)) {
                    case 0: b = a; break;
                    case 1: b = mod(-a, P25519); break;
                    case 2: b = mod(1 - a, P25519); break;
                    case 3: b = mod(a + 1, P25519); break;
                    case 4: if (a != 0) b = inverse(a, P25519); break;
                    default: break;
                }
                std::vector<V> r;
                limbs(a, r);
                limbs(b, r);
                return r;
            }, [&](auto &i) -> res {
                std::vector<V> r;
                limbs(mod(op(glue(i, 0), glue(i, 4)), P25519), r);
                return r;
            }, plain());
        });
    }
    void reductions(std::uint64_t T) {
        using C = bc::plonk_reduction<F>;
        cases("reduction", T, [&](rng &g) {
            one<C>("reduction", g, 9, bind<C>(), [&](rng &g) {
                Z n = below(g, Z(1) << 512);
                if (g.chance(1, 4)) n = mod(L25519 * below(g, Z(1) << 259) + Z(g.range(0, 2)) - 1, Z(1) << 512);
                std::vector<V> r;
                for (int k = 0; k < 8; k++) r.push_back(value((n >> (64 * k)) & ((Z(1) << 64) - 1)));
                return r;
            }, [&](auto &i) -> res {
                Z n = 0;
                for (int k = 7; k >= 0; k--) n = (n << 64) + number(i[k]);
                return {{value(mod(n, L25519))}};
            }, plain());
        });
    }
    void scalars(std::uint64_t T) {
        using C = bc::plonk_scalar_range<F>;
        cases("scalar pieces", T, [&](rng &g) {
            one<C>("scalar pieces", g, 9, bind<C>(), [&](rng &g) { return std::vector<V>{value(below(g, L25519))}; }, [&](auto &i) -> res {
                std::vector<V> r;
                for (int k = 0; k < 12; k++) r.push_back(value((number(i[0]) >> (22 * k)) & ((Z(1) << 22) - 1)));
                return r;
            }, plain());
        });
    }
    void all(std::uint64_t T) {
        scalars(T * 2);
        ranges(T);
        arithmetic<bc::plonk_ed25519_addition<F>>("foreign addition", T, [](const Z &a, const Z &b) { return Z(a + b); });
        arithmetic<bc::plonk_ed25519_subtraction<F>>("foreign subtraction", T, [](const Z &a, const Z &b) { return Z(a - b); });
        arithmetic<bc::plonk_ed25519_multiplication<F>>("foreign multiplication", T, [](const Z &a, const Z &b) { return Z(a * b); });
        reductions(T);
    }
#endif
#if PART == 2
    using curve = typename std::conditional<std::is_same<F, fields::pallas_base_field>::value, curves::pallas, curves::vesta>::type;
    static void put(const point &p, std::vector<V> &out) { limbs(p.x, out); limbs(p.y, out); }
    static point take(const std::vector<V> &i, std::size_t at) { return {glue(i, at), glue(i, at + 4)}; }
    static std::vector<V> shown(const point &p) { std::vector<V> r; put(p, r); return r; }
    void all(std::uint64_t T) {
        using B = bc::plonk_bool_scalar_multiplication<F>;
        cases("choice of a point", T * 4, [&](rng &g) {
            one<B>("choice of a point", g, 9, bind<B>(), [&](rng &g) {
                auto r = shown(edwards::some(g));
                r.push_back(g.chance(1, 5) ? g.chance(1, 2) ? V(2) : -V::one() : V(g.range(0, 1)));
                return r;
            }, [&](auto &i) -> res {
                if (i[8] == V::zero()) return shown(edwards::zero());
                if (i[8] == V::one()) return shown(take(i, 0));
                return std::nullopt;
            }, plain());
        });
        using D = bc::plonk_ed25519_doubling<F, curve>;
        cases("foreign doubling", T, [&](rng &g) {
            one<D>("foreign doubling", g, 9, bind<D>(), [&](rng &g) { return shown(edwards::some(g)); }, [&](auto &i) -> res { return shown(edwards::add(take(i, 0), take(i, 0))); }, plain());
        });
        auto two = [](rng &g) {
            point a = edwards::some(g), b = edwards::some(g);
            if (g.chance(1, 5)) b = a;
            if (g.chance(1, 5)) b = {mod(-a.x, P25519), a.y};
            auto r = shown(a);
            put(b, r);
            return r;
        };
        using A = bc::plonk_ed25519_complete_addition<F, curve>;
        cases("foreign point addition", T, [&](rng &g) {
            one<A>("foreign point addition", g, 9, bind<A>(), two, [&](auto &i) -> res { return shown(edwards::add(take(i, 0), take(i, 8))); }, plain());
        });
        using M = bc::plonk_ed25519_mul_per_bit<F, curve>;
        cases("foreign multiplication step", T / 2, [&](rng &g) {
            one<M>("foreign multiplication step", g, 9, bind<M>(), [&](rng &g) { auto r = two(g); r.push_back(V(g.range(0, 1))); return r; },
                [&](auto &i) -> res { auto r = take(i, 8); r = edwards::add(r, r); return shown(i[16] == V::zero() ? r : edwards::add(r, take(i, 0))); }, plain());
        });
        using W = bc::plonk_ed25519_var_base_mul<F, curve>;
        cases("foreign multiple", scaled(2, 8), [&](rng &g) {
            auto o = plain();
            o.two = false;
            one<W>("foreign multiple", g, 9, bind<W>(), [&](rng &g) { auto r = shown(edwards::some(g)); r.push_back(value(below(g, L25519))); return r; },
                [&](auto &i) -> res { return shown(edwards::times(number(i[8]), take(i, 0))); }, o, std::uint32_t(253), bc::bit_composition_mode::MSB);
        });
    }
#endif
#if PART == 4
    // A gadget on several times its columns does what it does on its own.
    template<typename C, typename Bind, typename Gen>
    void stretched(const std::string &name, rng &g, std::size_t width, const Bind &bind, const Gen &gen) {
        std::vector<std::uint32_t> cols(width);
        std::iota(cols.begin(), cols.end(), 0);
        C comp(cols, std::array<std::uint32_t, 1>{0}, std::array<std::uint32_t, 1>{0});
        std::size_t times = g.range(1, 5), wide = width * times + g.range(0, width - 1), W = wide + 1;
        bc::component_stretcher<F, C> c(comp, width, wide);
        circuit_t<F> b;
        assignment_t<F> as(W, 1, 1, 80);
        std::size_t n = g.chance(1, 3) ? 2 : 1, start = g.chance(1, 3) ? 0 : g.range(0, 5), pub = g.range(0, 4), own = 0, at = start, gates = 0;
        std::string what = name + " stretched to " + std::to_string(wide) + " columns from row " + std::to_string(start);
        auto fail = [&](const std::string &k, const std::string &d) { violation("stretched " + name + ":" + k, d + ": " + what); };
        std::vector<std::vector<var>> ins(n), res(n);
        std::vector<std::vector<V>> want(n);
        for (std::size_t k = 0; k < n; k++) {
            auto x = gen(g);
            assignment_t<F> ua(width, 1, 1, 80);
            circuit_t<F> ub;
            std::vector<var> uv;
            for (std::size_t i = 0; i < x.size(); i++) {
                ua.public_input(0, i) = x[i];
                uv.push_back(var(0, i, false, var::column_type::public_input));
                if (g.chance(1, 2)) { as.public_input(0, pub) = x[i]; ins[k].push_back(var(0, pub++, false, var::column_type::public_input)); }
                else { as.witness(wide, own) = x[i]; ins[k].push_back(var(wide, own++, false)); }
            }
            auto in = bind(uv);
            bc::generate_circuit(comp, ub, ua, in, 0);
            auto r = bc::generate_assignments(comp, ua, in, 0);
            for (auto &v : r.all_vars()) want[k].push_back(var_value(ua, v.get()));
            gates = ub.num_gates();
        }
        for (std::size_t k = 0; k < n; k++) {
            grid<F> before(as);
            auto in = bind(ins[k]);
            bool values_first = g.chance(1, 3);
            std::vector<var> places[2];
            for (int t = 0; t < 2; t++) {
                bool values = (t == 0) == values_first;
                auto r = values ? bc::generate_assignments(c, as, in, at) : bc::generate_circuit(c, b, as, in, at);
                for (auto &v : r.all_vars()) places[values].push_back(v.get());
            }
            if (!(places[0] == places[1])) { fail("results", "circuit and assignment place results differently"); return; }
            res[k] = places[1];
            if (b.num_gates() != gates) { fail("gates", std::to_string(b.num_gates()) + " gates for " + std::to_string(gates)); return; }
            grid<F> after(as);
            std::size_t end = at + c.rows_amount;
            for (std::size_t col = 0; col < W; col++) for (std::size_t r = 0; r < after.w[col].size(); r++) {
                V old = r < before.w[col].size() ? before.w[col][r] : V::zero();
                if (!(col < wide && r >= at && r < end) && after.w[col][r] != old) { fail("footprint", "column " + std::to_string(col) + " row " + std::to_string(r) + " outside the " + std::to_string(c.rows_amount) + " announced rows was written"); return; }
            }
            at = end;
        }
        grid<F> done(as);
        evaluated(what + std::to_string(g.next()));
        count("gadgets stretched", n);
        saw("gadgets stretched", name);
        auto bad = judge<F>(b, done);
        if (!bad.empty()) { fail("unsatisfied", bad[0].str()); return; }
        for (std::size_t k = 0; k < n; k++) {
            if (want[k].size() != res[k].size()) { fail("results", "another number of results"); return; }
            for (std::size_t i = 0; i < want[k].size(); i++) {
                if (done.get(res[k][i]) != want[k][i]) { fail("value", "result " + std::to_string(i) + " is " + show(done.get(res[k][i])) + ", unstretched " + show(want[k][i])); return; }
                grid<F> h = done;
                auto &cell = h.w[res[k][i].index][res[k][i].rotation];
                cell = cell + V(1);
                if (judge<F>(b, h).empty()) { fail("loose", "result " + std::to_string(i) + " can be exchanged"); return; }
                count("results compared");
            }
            for (auto &v : ins[k]) {
                if (ins[k].size() > 12 && !g.chance(12, ins[k].size())) continue;
                grid<F> h = done;
                auto &cell = v.type == var::column_type::witness ? h.w[v.index][v.rotation] : h.p[v.index][v.rotation];
                cell = cell + V(1);
                if (judge<F>(b, h).empty()) { fail("untied", "input " + std::to_string(&v - &ins[k][0]) + " can be exchanged"); return; }
                count("inputs exchanged");
            }
        }
    }
    void all(std::uint64_t T) {
        using curve = curves::pallas;
        auto put = [](const point &p, std::vector<V> &out) { limbs(p.x, out); limbs(p.y, out); };
        auto one_point = [=](rng &g) { std::vector<V> r; put(edwards::some(g), r); return r; };
        auto two_points = [=](rng &g) { std::vector<V> r; put(edwards::some(g), r); put(edwards::some(g), r); return r; };
        using M = bc::plonk_ed25519_multiplication<F>;
        cases("foreign multiplication", T * 4, [&](rng &g) { stretched<M>("foreign multiplication", g, 9, bind<M>(), [&](rng &g) { std::vector<V> r; limbs(below(g, P25519), r); limbs(below(g, P25519), r); return r; }); });
        using D = bc::plonk_ed25519_doubling<F, curve>;
        cases("foreign doubling", T, [&](rng &g) { stretched<D>("foreign doubling", g, 9, bind<D>(), one_point); });
        using A = bc::plonk_ed25519_complete_addition<F, curve>;
        cases("foreign point addition", T, [&](rng &g) { stretched<A>("foreign point addition", g, 9, bind<A>(), two_points); });
        using B = bc::plonk_ed25519_mul_per_bit<F, curve>;
        cases("foreign multiplication step", T / 2, [&](rng &g) { stretched<B>("foreign multiplication step", g, 9, bind<B>(), [&](rng &g) { auto r = two_points(g); r.push_back(V(g.range(0, 1))); return r; }); });
        using L = bc::plonk_to_limbs<F>;
        cases("limbs", T * 4, [&](rng &g) { stretched<L>("limbs", g, 15, [](const std::vector<var> &v) { return typename L::input_type(v[0]); }, [&](rng &g) { return std::vector<V>{value(below(g, Z(1) << 254))}; }); });
        using X = bc::plonk_curve_element_variable_base_scalar_mul<F, curve>;
        const Z p("0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), q("0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
        pasta pallas{p, q};
        cases("multiple", T, [&](rng &g) {
            stretched<X>("multiple", g, 15, [](const std::vector<var> &v) { typename X::input_type i({v[0], v[1]}, v[2]); i.b_high = v[3]; return i; }, [&](rng &g) {
                point t = pallas.times(below(g, q), {p - 1, 2});
                Z y = below(g, q);
                return std::vector<V>{value(t.x), value(t.y), value(y & ((Z(1) << 254) - 1)), value(y >> 254)};
            });
        });
        using H = bc::sha512<S>;
        cases("sha512", scaled(3, 12), [&](rng &g) { stretched<H>("sha512", g, 9, bind<H>(), [&](rng &g) { std::vector<V> r; for (int k = 0; k < 5; k++) limbs(below(g, k < 4 ? P25519 : L25519), r); return r; }); });
    }
#endif
#if PART == 3
    template<typename curve>
    void points(const pasta &c, std::uint64_t T) {
        auto shown = [](const point &p) { return std::vector<V>{value(p.x), value(p.y)}; };
        auto take = [](const std::vector<V> &i, std::size_t at) { return point{number(i[at]), number(i[at + 1])}; };
        using A = bc::plonk_native_unified_addition<F, curve>;
        cases("point addition", T, [&](rng &g) {
            comp_options o;
            one<A>("point addition", g, 11, bind<A>(), [&](rng &g) {
                point a = c.some(g), b = c.some(g);
                if (g.chance(1, 5)) b = a;
                if (g.chance(1, 5)) b = {a.x, mod(-a.y, c.m)};
                auto r = shown(a), q = shown(b);
                r.insert(r.end(), q.begin(), q.end());
                return r;
            }, [&](auto &i) -> res { return shown(c.add(take(i, 0), take(i, 2))); }, o);
        });
        using M = bc::plonk_curve_element_variable_base_scalar_mul<F, curve>;
        constexpr bool split = std::is_same<curve, curves::pallas>::value;
        auto bindm = [](const std::vector<var> &v) {
            typename M::input_type i({v[0], v[1]}, v[2]);
            if (split) i.b_high = v[3];
            return i;
        };
        cases("multiple", T / 6, [&](rng &g) {
            comp_options o;
            o.forge = 0;
            o.misread = 2;
            o.moves = !g.chance(1, 8);    // slopes of nothing are free
            one<M>("multiple", g, 15, bindm, [&](rng &g) {
                point t = c.some(g);
                if (o.moves && t == point{0, 0}) t = {c.m - 1, 2};
                if (!o.moves) t = {0, 0};
                auto r = shown(t);
                Z y = below(g, c.order), b;
                if (!split && (y == 0 || y == 1 || y == c.order - 1)) b = mod(y - (Z(1) << 255), c.order);
                else b = mod((y - (Z(1) << 255) - 1) * inverse(2, c.order), c.order);
                r.push_back(value(split ? b & ((Z(1) << 254) - 1) : b));
                if (split) r.push_back(value(b >> 254));
                return r;
            }, [&](auto &i) -> res {
                Z b = number(i[2]) + (split ? number(i[3]) << 254 : Z(0));
                if (b >= c.order) return std::nullopt;
                Z y = mod(2 * b + 1 + (Z(1) << 255), c.order), s = mod(b + (Z(1) << 255), c.order);
                if (!split && (s == 0 || s == 1 || s == c.order - 1)) y = s;
                return shown(c.times(y, take(i, 0)));
            }, o);
        });
    }
    template<typename curve>
    void scalars(const pasta &c, std::uint64_t T) {
        using C = bc::plonk_endo_scalar<F, curve>;
        cases("endo-scalar", T, [&](rng &g) {
            comp_options o;
            o.forge = 0;
            o.misread = 2;
            bool onwards = g.chance(3, 4);    // with the starting values of the first row given
            if (onwards) o.held = {0};
            one<C>(onwards ? "endo-scalar-onwards" : "endo-scalar", g, 15, bind<C>(), [&](rng &g) { return std::vector<V>{value(below(g, Z(1) << 128))}; }, [&](auto &i) -> res {
                // the multiple a Q + b E(Q) that conditional steps along the bits give
                Z n = number(i[0]), a = 2, b = 2;
                for (int k = 63; k >= 0; k--) {
                    a *= 2, b *= 2;
                    int s = bit_test(n, 2 * k) ? 1 : -1;
                    (bit_test(n, 2 * k + 1) ? a : b) += s;
                }
                V e = C::endo_r;
                if (e * e * e != V::one() || e == V::one()) { violation("endo-scalar:factor", "not a cube root of one"); return std::nullopt; }
                return {{value(mod(a, c.order)) * e + value(mod(b, c.order))}};
            }, o, std::size_t(128));
        });
    }
#endif
};

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
#if PART == 1
    suite<fields::pallas_base_field>{"pallas"}.all(scaled(300, 2000));
#endif
#if PART == 2
    suite<fields::pallas_base_field>{"pallas"}.all(scaled(60, 400));
#endif
#if PART == 4
    suite<fields::pallas_base_field>{"pallas"}.all(scaled(20, 300));
#endif
#if PART == 3
    const Z p("0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), q("0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
    suite<fields::pallas_base_field>{"pallas"}.points<curves::pallas>({p, q}, scaled(300, 2000));
    suite<fields::vesta_base_field>{"vesta"}.points<curves::vesta>({q, p}, scaled(300, 2000));
    suite<fields::pallas_scalar_field>{"pallas"}.scalars<curves::pallas>({p, q}, scaled(300, 2000));
    suite<fields::vesta_scalar_field>{"vesta"}.scalars<curves::vesta>({q, p}, scaled(300, 2000));
#endif
    return finish();
}
