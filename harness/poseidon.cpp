// The two gadgets of the Poseidon permutation, against the published parameters, and the
// conversions between numbers and their 64-bit limbs.
#include "comp.hpp"
#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>
#include <nil/crypto3/algebra/fields/vesta/base_field.hpp>
#include <nil/blueprint/components/hashes/poseidon/plonk/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/kimchi/detail/limbs.hpp>
#include "poseidon_constants.inc"

using namespace vf;
namespace fields = nil::crypto3::algebra::fields;
namespace bc = nil::blueprint::components;
using big = boost::multiprecision::cpp_int;

struct quiet {    // the gadget reports its number of gates
    std::streambuf *old;
    std::ostringstream sink;
    quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
    ~quiet() { std::cout.rdbuf(old); }
};

template<typename F>
struct suite {
    using V = value_t<F>;
    using var = var_t<F>;
    using S = nil::crypto3::zk::snark::plonk_constraint_system<F>;
    using res = std::optional<std::vector<V>>;
    std::string fname;
    std::vector<V> matrix, rounds;
    big modulus;

    static V of(const big &x) { V r = V::zero(), b = V(std::uint64_t(1) << 32); for (int i = 256; i >= 0; i -= 32) r = r * b + V(static_cast<std::uint64_t>((x >> i) & big(0xFFFFFFFFu))); return r; }
    suite(const std::string &n, const char *const *parameters, const char *p) : fname(n), modulus(p) {
        for (int i = 0; i < 174; i++) (i < 9 ? matrix : rounds).push_back(of(big("0x" + std::string(parameters[i]))));
    }
    std::vector<V> permute(std::vector<V> s) const {
        for (int i = 0; i < 55; i++) {
            std::vector<V> p(3), n(3);
            for (int k = 0; k < 3; k++) { V x2 = s[k] * s[k], x4 = x2 * x2; p[k] = x4 * x2 * s[k]; }
            for (int k = 0; k < 3; k++) n[k] = matrix[3 * k] * p[0] + matrix[3 * k + 1] * p[1] + matrix[3 * k + 2] * p[2] + rounds[3 * i + k];
            s = n;
        }
        return s;
    }
    static std::vector<V> state(rng &g) {
        std::vector<V> r;
        for (int i = 0; i < 3; i++) {
            switch (g.range(0, 5)) {
                case 0: r.push_back(V::zero()); break;
                case 1: r.push_back(-V(g.range(0, 3))); break;
                case 2: r.push_back(V(g.range(0, 9))); break;
                default: { V x = V::zero(); for (int k = 0; k < 4; k++) x = x * V(g.next()) + V(g.next()); r.push_back(x); }
            }
        }
        return r;
    }
    template<typename Body> void cases(const std::string &name, std::uint64_t T, const Body &body) {
        for (std::uint64_t b = 0; b < T; b++) {
            std::string id = name + "/" + fname + "/" + std::to_string(b);
            run_case(id, name, [&] { auto g = case_rng(id); body(g); });
        }
    }
    void run(std::uint64_t T) {
        auto inputs = [&](rng &g, std::vector<std::vector<V>> &in, std::vector<res> &want) {
            for (std::size_t n = g.chance(1, 3) ? 2 : 1; n; n--) { in.push_back(state(g)); want.push_back(permute(in.back())); }
        };
        comp_options o;
        o.constants = o.component_constants = 0;
        o.moves = false; o.forge = 0; o.bound = 12;
        cases("poseidon", T, [&](rng &g) {
            using C = bc::poseidon<S, F>;
            std::vector<std::vector<V>> in;
            std::vector<res> want;
            inputs(g, in, want);
            o.moves = g.chance(1, 3);
            exercise<F>("poseidon", g, 15, [](auto &w, auto &c, auto &p) { return C(w, c, p); }, [](const std::vector<var> &v) { typename C::input_type i; std::copy(v.begin(), v.end(), i.input_state.begin()); return i; }, in, want, o);
        });
        cases("poseidon of any width", T, [&](rng &g) {
            using C = bc::flexible_poseidon<S, F>;
            quiet q;
            std::vector<std::vector<V>> in;
            std::vector<res> want;
            inputs(g, in, want);
            std::size_t width = 3 * (g.chance(1, 3) ? g.range(1, 3) : g.chance(1, 2) ? g.range(1, 12) : g.range(1, 55));
            o.moves = g.chance(1, 3);
            exercise<F>("poseidon-of-any-width", g, width, [](auto &w, auto &c, auto &p) { return C(w, c, p); }, [](const std::vector<var> &v) { typename C::input_type i; std::copy(v.begin(), v.end(), i.input_state.begin()); return i; }, in, want, o);
        });
    }
    void limbs(std::uint64_t T) {
        const big one = 1, mask = (one << 64) - 1;
        auto number = [&](rng &g) {
            big x = 0;
            switch (g.range(0, 6)) {
                case 0: x = g.range(0, 3); break;
                case 1: x = modulus - 1 - g.range(0, 3); break;
                case 2: x = one << g.range(0, 253); break;
                case 3: x = (one << g.range(1, 253)) - 1; break;
                case 4: for (int i = 0; i < 4; i++) x = (x << 64) + (g.chance(1, 2) ? mask : big(g.chance(1, 2) ? 0 : g.next())); break;
                default: for (int i = 0; i < 4; i++) x = (x << 64) + g.next();
            }
            return big(x % modulus);
        };
        cases("limbs", T, [&](rng &g) {
            using C = bc::to_limbs<S>;
            std::vector<std::vector<V>> in;
            std::vector<res> want;
            for (std::size_t n = g.chance(1, 4) ? 2 : 1; n; n--) {
                big x = number(g);
                in.push_back({of(x)});
                want.push_back(std::vector<V>{of(x & mask), of((x >> 64) & mask), of((x >> 128) & mask), of(x >> 192)});
            }
            comp_options o;
            exercise<F>("limbs", g, 15, [](auto &w, auto &c, auto &p) { return C(w, c, p); }, [](const std::vector<var> &v) { return typename C::input_type(v[0]); }, in, want, o);
        });
        cases("from limbs", T, [&](rng &g) {
            using C = bc::from_limbs<S>;
            std::vector<std::vector<V>> in;
            std::vector<res> want;
            for (std::size_t n = g.chance(1, 3) ? 2 : 1; n; n--) {
                big a = number(g) & mask, b = number(g) & mask;
                in.push_back({of(a), of(b)});
                want.push_back(std::vector<V>{of((b << 64) + a)});
            }
            comp_options o;
            o.constants = o.component_constants = 0;
            o.bound = 3;
            exercise<F>("from-limbs", g, 3, [](auto &w, auto &c, auto &p) { return C(w, c, p); }, [](const std::vector<var> &v) { return typename C::input_type(v[0], v[1]); }, in, want, o);
        });
    }
};

int main() {
    init();
    suite<fields::pallas_base_field> p{"pallas", pallas_parameters, "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001"};
    suite<fields::vesta_base_field> v{"vesta", vesta_parameters, "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"};
    // the published answer for the all-zero state
    if (p.permute({p.of(0), p.of(0), p.of(0)})[0] != p.of(big("0x2fadbe2852044d028597455bc2abbd1bc873af205dfabb8a304600f3e09eeba8"))) throw std::logic_error("the model of the permutation is wrong");
    std::uint64_t T = scaled(150, 2000);
    p.run(T);
    v.run(T);
    p.limbs(scaled(120, 2000));
    v.limbs(scaled(120, 2000));
    return finish();
}
