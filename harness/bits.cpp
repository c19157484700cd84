// Gadgets on numbers: ranges, bits, shifts, comparisons, division with remainder.
#include "comp.hpp"
#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>

using namespace vf;
namespace nb = nil::blueprint;
namespace bc = nil::blueprint::components;
namespace fields = nil::crypto3::algebra::fields;

template<typename F>
struct suite {
    using V = value_t<F>;
    using var = var_t<F>;
    using S = system_t<F>;
    using num = std::bitset<320>;
    using res = std::optional<std::vector<V>>;
    std::string fname;
    static constexpr std::size_t M = F::modulus_bits;

    static num bits_of(const V &v) {
        num r;
        auto c = v.data.canon();
        for (std::size_t k = 0; k < 64 * sizeof(c.v) / 8; k++) r[k] = (c.v[k / 64] >> (k % 64)) & 1;
        return r;
    }
    static V value(const num &n) { V r = V::zero(); for (int k = 319; k >= 0; k--) r = r + r + (n[k] ? V::one() : V::zero()); return r; }
    static bool fits(const V &v, std::size_t bits) { num n = bits_of(v); for (std::size_t k = bits; k < 320; k++) if (n[k]) return false; return true; }
    static int order(const V &a, const V &b) { num x = bits_of(a), y = bits_of(b); for (int k = 319; k >= 0; k--) if (x[k] != y[k]) return x[k] ? 1 : -1; return 0; }
    // a number of at most `bits` bits, edge values included
    static V below(rng &g, std::size_t bits) {
        num n;
        switch (g.range(0, 7)) {
            case 0: break;
            case 1: for (std::size_t k = 0; k < bits; k++) n[k] = 1; break;
            case 2: n[bits - 1] = 1; break;
            case 3: { std::size_t b = g.range(0, bits); for (std::size_t k = 0; k < b; k++) n[k] = g.range(0, 1); break; }
            case 4: n[g.range(0, bits - 1)] = 1; break;
            default: for (std::size_t k = 0; k < bits; k++) n[k] = g.range(0, 1);
        }
        return value(n);
    }
    // a number, most often of `bits` bits, else just too large or far too large
    static V near(rng &g, std::size_t bits) {
        V v = below(g, bits);
        if (!g.chance(1, 4)) return v;
        num n;
        n[std::min(bits + (g.chance(1, 2) ? 0 : g.range(0, 3)), M - 2)] = 1;
        switch (g.range(0, 3)) {
            case 0: return value(n);
            case 1: return v + value(n);
            case 2: return -v - V::one();
            default: return below(g, M - 1);
        }
    }
    static std::size_t size(rng &g, std::size_t top) {
        static const std::size_t list[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 85, 127, 128, 129, 200};
        std::size_t b = g.chance(1, 6) ? top - g.range(0, 2) : g.chance(1, 3) ? g.range(1, 40) : list[g.range(0, sizeof(list) / sizeof(list[0]) - 1)];
        return std::min(b, top);
    }
    template<typename C, typename... A> static std::vector<std::size_t> widths(A... a) {
        auto m = C::get_manifest(a...);
        std::vector<std::size_t> r;
        for (std::size_t w = 1; w <= 15; w++) if (m.witness_amount->check_manifest_param(w)) r.push_back(w);
        if (m.witness_amount->check_manifest_param(15, false)) r.push_back(15);
        if (r.empty()) violation("widths", "no width up to 15 is allowed");
        return r;
    }
    template<typename C> static auto bind() { return [](const std::vector<var> &v) { typename C::input_type i; auto a = i.all_vars(); for (std::size_t k = 0; k < v.size(); k++) a.at(k).get() = v[k]; return i; }; }
    // One placement of gadget C with the parameters a...; `why` refines the key of what is refused.
    template<typename C, typename Bind, typename Gen, typename Want, typename... A>
    void one(const std::string &name, const std::string &id, rng &g, const Bind &bind, const Gen &gen, const Want &want, comp_options o, A... a) {
        auto ws = widths<C>(a...);
        if (ws.empty()) return;
        std::vector<std::vector<V>> in;
        std::vector<res> w;
        std::size_t n = g.chance(1, 3) ? 2 : 1;
        for (std::size_t i = 0; i < n; i++) { in.push_back(gen(g)); w.push_back(want(in.back())); }
        saw("gadgets", name);
        exercise<F>(name, g, g.pick(ws), [&](auto W, auto K, auto PI) { return C(W, K, PI, a...); }, bind, in, w, o, a...);
    }
    template<typename Body> void cases(const std::string &name, std::uint64_t T, const Body &body) {
        for (std::uint64_t b = 0; b < T; b++) {
            std::string id = name + "/" + fname + "/" + std::to_string(b);
            run_case(id, name, [&] { auto g = case_rng(id); body(id, g); });
        }
    }

    void ranges(std::uint64_t T) {
        using C = bc::range_check<S>;
        cases("range", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M - 1);
            comp_options o;
            one<C>("range", id, g, bind<C>(), [&](rng &g) { return std::vector<V>{near(g, b)}; }, [&](auto &i) -> res { if (!fits(i[0], b)) return std::nullopt; return std::vector<V>{}; }, o, b);
        });
    }
    void decompositions(std::uint64_t T) {
        using C = bc::bit_decomposition<S>;
        cases("decomposition", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M - 1);
            auto mode = g.chance(1, 2) ? bc::bit_composition_mode::LSB : bc::bit_composition_mode::MSB;
            comp_options o;
            one<C>("decomposition", id, g, bind<C>(), [&](rng &g) { return std::vector<V>{near(g, b)}; }, [&](auto &i) -> res {
                if (!fits(i[0], b)) return std::nullopt;
                std::vector<V> r;
                num n = bits_of(i[0]);
                for (std::size_t k = 0; k < b; k++) r.push_back(n[mode == bc::bit_composition_mode::LSB ? k : b - 1 - k] ? V::one() : V::zero());
                return r;
            }, o, b, mode);
        });
    }
    void compositions(std::uint64_t T) {
        using C = bc::bit_composition<S>;
        cases("composition", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M - 1);
            auto mode = g.chance(1, 2) ? bc::bit_composition_mode::LSB : bc::bit_composition_mode::MSB;
            bool check = g.chance(1, 2);
            comp_options o;
            auto bindv = [](const std::vector<var> &v) { typename C::input_type i; i.bits = v; return i; };
            one<C>("composition", id, g, bindv, [&](rng &g) {
                num n = bits_of(below(g, b));
                std::vector<V> r;
                for (std::size_t k = 0; k < b; k++) r.push_back(n[k] ? V::one() : V::zero());
                if (check && g.chance(1, 4)) r[g.range(0, b - 1)] = g.chance(1, 2) ? V(2) : g.chance(1, 2) ? -V::one() : below(g, M - 1);
                return r;
            }, [&](auto &i) -> res {
                V r = V::zero();
                for (std::size_t k = 0; k < b; k++) {
                    auto &x = i[mode == bc::bit_composition_mode::MSB ? k : b - 1 - k];
                    if (check && !x.is_zero() && x != V::one()) return std::nullopt;
                    r = r + r + x;
                }
                return {{r}};
            }, o, b, check, mode);
        });
    }
    void shifts(std::uint64_t T) {
        using C = bc::bit_shift_constant<S>;
        cases("shift", T, [&](auto &id, rng &g) {
            std::size_t b = std::max<std::size_t>(2, size(g, M - 2)), s = g.chance(1, 3) ? b - 1 : g.range(0, b - 1);
            auto mode = g.chance(1, 2) ? bc::bit_shift_mode::LEFT : bc::bit_shift_mode::RIGHT;
            comp_options o;
            one<C>(mode == bc::bit_shift_mode::LEFT ? "shift left" : "shift right", id, g, bind<C>(), [&](rng &g) { return std::vector<V>{near(g, b)}; }, [&](auto &i) -> res {
                if (!fits(i[0], b)) return std::nullopt;
                num n = bits_of(i[0]), r;
                for (std::size_t k = 0; k < b; k++) if (n[k]) { if (mode == bc::bit_shift_mode::RIGHT) { if (k >= s) r[k - s] = 1; } else if (k + s < b) r[k + s] = 1; }
                return {{value(r)}};
            }, o, b, s, mode);
        });
    }
    static bool holds(bc::comparison_mode m, int c) {
        switch (m) {
            case bc::LESS_THAN: return c < 0;
            case bc::LESS_EQUAL: return c <= 0;
            case bc::GREATER_THAN: return c > 0;
            default: return c >= 0;
        }
    }
    static std::vector<V> two(rng &g, std::size_t b, bool may_leave) {
        V x = may_leave ? near(g, b) : below(g, b), y = may_leave ? near(g, b) : below(g, b);
        switch (g.range(0, 5)) {
            case 0: y = x; break;
            case 1: y = x + V::one(); break;
            case 2: y = x - V::one(); break;
            default: break;
        }
        if (!may_leave) { if (!fits(y, b)) y = x; }
        return {x, y};
    }
    void comparisons(std::uint64_t T) {
        static const bc::comparison_mode modes[] = {bc::LESS_THAN, bc::LESS_EQUAL, bc::GREATER_THAN, bc::GREATER_EQUAL};
        using C = bc::comparison_checked<S>;
        cases("comparison", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M - 2);
            auto m = modes[g.range(0, 3)];
            comp_options o;
            // true, but with a number too large by at most one bit: told apart from false ones
            auto beyond = [&](const std::vector<V> &i) {
                if ((fits(i[0], b) && fits(i[1], b)) || !holds(m, order(i[0], i[1]))) return false;
                bool less = m == bc::LESS_THAN || m == bc::LESS_EQUAL;
                const V &lo = less ? i[0] : i[1], &hi = less ? i[1] : i[0];
                return fits(lo, b + b % 2) && fits(hi - lo, b + b % 2);
            };
            bool only = g.chance(1, 10);
            std::vector<V> tall;
            if (only) for (int t = 0; t < 50 && tall.empty(); t++) { auto v = two(g, b, true); if (beyond(v)) tall = v; }
            only = !tall.empty();
            one<C>(only ? "comparison-beyond-its-bits" : "comparison", id, g, bind<C>(), [&](rng &g) {
                if (only) return tall;
                std::vector<V> v;
                do v = two(g, b, true); while (beyond(v));
                return v;
            }, [&](auto &i) -> res {
                if (!fits(i[0], b) || !fits(i[1], b) || !holds(m, order(i[0], i[1]))) return std::nullopt;
                return std::vector<V>{};
            }, o, b, m);
        });
        using U = bc::comparison_unchecked<S>;
        cases("comparison of numbers known to fit", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M - 2);
            auto m = modes[g.range(0, 3)];
            comp_options o;
            one<U>("comparison of numbers known to fit", id, g, bind<U>(), [&](rng &g) { return two(g, b, false); }, [&](auto &i) -> res {
                if (!holds(m, order(i[0], i[1]))) return std::nullopt;
                return std::vector<V>{};
            }, o, b, m);
        });
        using L = bc::comparison_flag<S>;
        cases("comparison flag", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M - 1);
            auto m = g.chance(1, 3) ? bc::FLAG : modes[g.range(0, 3)];
            comp_options o;
            one<L>("comparison flag", id, g, bind<L>(), [&](rng &g) { return two(g, b, true); }, [&](auto &i) -> res {
                if (!fits(i[0], b) || !fits(i[1], b)) return std::nullopt;
                int c = order(i[0], i[1]);
                if (m == bc::FLAG) return {{c > 0 ? V::one() : c < 0 ? -V::one() : V::zero()}};
                return {{holds(m, c) ? V::one() : V::zero()}};
            }, o, b, m);
        });
    }
    void divisions(std::uint64_t T) {
        using C = bc::division_remainder<S>;
        cases("division with remainder", T, [&](auto &id, rng &g) {
            std::size_t b = size(g, M / 2 - 1);
            bool check = g.chance(1, 2);
            comp_options o;
            one<C>("division with remainder", id, g, bind<C>(), [&](rng &g) {
                V x = check ? near(g, b) : below(g, b), y = check ? near(g, b) : g.chance(1, 3) ? below(g, g.range(1, b)) : below(g, b);
                if (g.chance(1, 8)) x = y;
                return std::vector<V>{x, y};
            }, [&](auto &i) -> res {
                if (!fits(i[0], b) || !fits(i[1], b) || i[1].is_zero()) return std::nullopt;
                num x = bits_of(i[0]), r;
                num q;
                V rem = V::zero();
                for (int k = int(b) - 1; k >= 0; k--) {
                    rem = rem + rem + (x[k] ? V::one() : V::zero());
                    if (order(rem, i[1]) >= 0) { rem = rem - i[1]; q[k] = 1; }
                }
                return {{value(q), rem}};
            }, o, b, check);
        });
    }
};

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    suite<fields::pallas_base_field> p{"pallas"};
    std::uint64_t T = scaled(300, 2000);
#if !defined(PART) || PART == 1
    p.ranges(T);
    p.decompositions(T);
    p.compositions(T);
    p.shifts(T);
#endif
#if !defined(PART) || PART == 2
    p.comparisons(T);
    p.divisions(T);
#endif
    return finish();
}
