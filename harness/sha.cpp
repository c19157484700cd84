// The SHA-2 gadgets: splitting into words, the compression functions and whole hashes,
// compared with an implementation of the standard whose constants are derived from primes.
#include "comp.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#if PART == 1
#include <nil/blueprint/components/hashes/sha2/plonk/sha256.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp>
#else
#include <nil/blueprint/components/hashes/sha2/plonk/decomposition.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp>
#endif

using namespace vf;
namespace nb = nil::blueprint;
namespace bc = nil::blueprint::components;
namespace fields = nil::crypto3::algebra::fields;
using big = boost::multiprecision::cpp_int;

// The standard's constants: first 64 bits of the fractional parts of square and cube roots of primes.
static const std::vector<std::uint64_t> &roots(int degree, std::size_t n) {
    static std::map<int, std::vector<std::uint64_t>> all;
    auto &r = all[degree];
    for (std::uint64_t p = 2; r.size() < n; p++) {
        bool prime = true;
        for (std::uint64_t d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
        if (!prime) continue;
        big target = big(p) << (64 * degree), lo = 0, hi = big(1) << 80;
        while (hi - lo > 1) { big m = (lo + hi) / 2; (boost::multiprecision::pow(m, degree) <= target ? lo : hi) = m; }
        r.push_back(static_cast<std::uint64_t>(lo & big(~std::uint64_t(0))));
    }
    return r;
}

template<typename W> struct sha2;
template<> struct sha2<std::uint32_t> {
    static constexpr int rounds = 64, B0[3] = {2, 13, 22}, B1[3] = {6, 11, 25}, s0[3] = {7, 18, 3}, s1[3] = {17, 19, 10};
};
template<> struct sha2<std::uint64_t> {
    static constexpr int rounds = 80, B0[3] = {28, 34, 39}, B1[3] = {14, 18, 41}, s0[3] = {1, 8, 7}, s1[3] = {19, 61, 6};
};
template<typename W> W turn(W x, int n) { return (x >> n) | (x << (8 * sizeof(W) - n)); }
template<typename W> W small(const int (&n)[3], W x) { return turn(x, n[0]) ^ turn(x, n[1]) ^ (x >> n[2]); }
template<typename W> W large(const int (&n)[3], W x) { return turn(x, n[0]) ^ turn(x, n[1]) ^ turn(x, n[2]); }
template<typename W>
std::vector<W> schedule(std::vector<W> w) {
    using P = sha2<W>;
    for (int i = 16; i < P::rounds; i++) w.push_back(w[i - 16] + small(P::s0, w[i - 15]) + w[i - 7] + small(P::s1, w[i - 2]));
    return w;
}
// the message whose words from this one on are those given
template<typename W>
std::vector<W> unschedule(std::vector<W> w, int from) {
    using P = sha2<W>;
    for (; from > 0; from--) {
        w.insert(w.begin(), W(w[15] - small(P::s0, w[0]) - w[8] - small(P::s1, w[13])));
        w.pop_back();
    }
    return w;
}
template<typename W> W first(const std::vector<W> &s, int i, W w) { return large(sha2<W>::B1, s[4]) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + W(roots(3, 80)[i] >> (64 - 8 * sizeof(W))) + w; }
template<typename W> W second(const std::vector<W> &s) { return large(sha2<W>::B0, s[0]) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2])); }
template<typename W>
std::vector<W> forward(std::vector<W> s, const std::vector<W> &w, int from, int to) {
    for (int i = from; i < to; i++) {
        W t = s[7] + first(s, i, w[i]);
        s = {W(t + second(s)), s[0], s[1], s[2], W(s[3] + t), s[4], s[5], s[6]};
    }
    return s;
}
template<typename W>
std::vector<W> backward(std::vector<W> s, const std::vector<W> &w, int from) {
    for (int i = from - 1; i >= 0; i--) {
        std::vector<W> b = {s[1], s[2], s[3], 0, s[5], s[6], s[7], 0};
        W t = s[0] - second(b);
        b[3] = s[4] - t;
        b[7] = t - first(b, i, w[i]);
        s = b;
    }
    return s;
}
template<typename W>
std::vector<W> compress(const std::vector<W> &h, const std::vector<W> &block) {
    auto s = forward(h, schedule(block), 0, sha2<W>::rounds);
    for (int i = 0; i < 8; i++) s[i] += h[i];
    return s;
}
template<typename W>
std::vector<W> initial() {
    std::vector<W> r;
    for (int i = 0; i < 8; i++) r.push_back(W(roots(2, 8)[i] >> (64 - 8 * sizeof(W))));
    return r;
}

template<typename F>
struct suite {
    using V = value_t<F>;
    using var = var_t<F>;
    using S = system_t<F>;
    using res = std::optional<std::vector<V>>;
    std::string fname;

    static V power(int n) { V r = V::one(); while (n--) r = r + r; return r; }
    static V of(const big &x) {
        V r = V::zero();
        for (int i = 5; i >= 0; i--) r = r * power(64) + V(static_cast<std::uint64_t>((x >> (64 * i)) & big(~std::uint64_t(0))));
        return r;
    }
    static big bits(rng &g, int n) {
        big one = 1, all = (one << n) - 1;
        switch (g.range(0, 11)) {
            case 0: return 0;
            case 1: return all;
            case 2: return one << g.range(0, n - 1);
            case 3: return all - (one << g.range(0, n - 1));
            case 4: return big(0x5555555555555555ull) * ((one << 64) + 1) & all;
            default: { big r = 0; for (int i = 0; i < n; i += 64) r = (r << 64) + g.next(); return r & all; }
        }
    }
    template<typename W> static std::vector<W> words(rng &g, std::size_t n) { std::vector<W> r(n); for (auto &x : r) x = static_cast<W>(bits(g, 8 * sizeof(W))); return r; }
    template<typename W> static std::vector<V> values(const std::vector<W> &w) { std::vector<V> r; for (auto x : w) r.push_back(V(std::uint64_t(x))); return r; }
    template<typename Body> void cases(const std::string &name, std::uint64_t T, const Body &body) {
        for (std::uint64_t b = 0; b < T; b++) {
            std::string id = name + "/" + fname + "/" + std::to_string(b);
            run_case(id, name, [&] { auto g = case_rng(id); body(g); });
        }
    }
    template<typename C> static auto maker() {
        return [](auto &w, auto &c, auto &p) { return C(w, c, p); };
    }
    // A prover who knows the layout and fills in the rounds for other values than the inputs.
    template<typename C, typename W> void dishonest(const std::string &name, std::uint64_t T) {
        cases(name + "-dishonest", T, [&](rng &g) {
            using words_t = std::vector<W>;
            constexpr bool narrow = sizeof(W) == 4;
            constexpr int bits = 8 * sizeof(W), all = sha2<W>::rounds;
            constexpr std::size_t step = narrow ? 5 : 6, turn_rows = narrow ? 8 : 9, rounds = 2 + step * (all - 16), last = rounds + turn_rows * all;
            C comp({0, 1, 2, 3, 4, 5, 6, 7, 8}, {0}, {});
            circuit_t<F> bp;
            typename C::input_type in;
            for (int i = 0; i < 8; i++) in.input_state[i] = var(0, i, false, var::column_type::public_input);
            for (int i = 0; i < 16; i++) in.input_words[i] = var(0, 8 + i, false, var::column_type::public_input);
            auto ready = [&](circuit_t<F> &c) { if constexpr (narrow) for (auto &[k, v] : comp.component_lookup_tables()) c.reserve_table(k); };
            ready(bp);
            bool made = false;
            auto run = [&](const words_t &s, const words_t &w) {
                assignment_t<F> as(9, 1, 1, 60);
                for (int i = 0; i < 24; i++) as.public_input(0, i) = V(std::uint64_t(i < 8 ? s[i] : w[i - 8]));
                circuit_t<F> other;
                ready(other);
                bc::generate_circuit(comp, made ? other : bp, as, in, 0);
                made = true;
                bc::generate_assignments(comp, as, in, 0);
                return grid<F>(as);
            };
            auto number = [](W x) { return V(std::uint64_t(x)); };
            auto close = [&](grid<F> &h, const words_t &s, const words_t &out) {
                for (int i = 0; i < 8; i++) {
                    std::size_t r = last + 2 * (i / 4), c = i % 4;
                    W sum = s[i] + out[i];
                    h.w[c][r] = number(s[i]); h.w[c + 4][r] = number(out[i]);
                    h.w[c][r + 1] = number(sum); h.w[c + 4][r + 1] = V(sum < s[i] ? 1 : 0);
                    if (!narrow) continue;
                    r = last + 4 + i / 2; c = 4 * (i % 2);
                    h.w[c][r] = number(out[i] & 0x3FFF); h.w[c + 1][r] = number((out[i] >> 14) & 0x3FFF); h.w[c + 2][r] = number(out[i] >> 28); h.w[c + 3][r] = number(out[i]);
                }
            };
            auto working = [&](const words_t &s, const words_t &w) { return forward(s, schedule(w), 0, all); };
            auto rows = [](grid<F> &to, const grid<F> &from, std::size_t a, std::size_t b) { for (std::size_t c = 0; c < 9; c++) for (std::size_t r = a; r < b; r++) to.w[c][r] = from.w[c][r]; };
            auto flip = [&](W &x) { x ^= W(1) << g.range(0, bits - 1); };
            words_t s = words<W>(g, 8), w = words<W>(g, 16), s2 = s, w2 = w;
            grid<F> honest = run(s, w);
            if (!judge<F>(bp, honest).empty()) { violation(name + ":unsatisfied", "an honest table is refused"); return; }
            auto offer = [&](const std::string &how, const grid<F> &h, const std::string &what) {
                grid<F> t = h;
                t.p = honest.p;
                evaluated(name + "dishonest" + how + std::to_string(s[0]) + std::to_string(w[0]));
                auto b = judge<F>(bp, t);
                count("dishonest tables");
                saw("dishonest tables", how);
                if (b.empty()) violation(name + ":" + how, what);
            };
            std::size_t k = g.range(0, 15);
            flip(w2[k]);
            grid<F> h = run(s, w2);
            rows(h, honest, 0, rounds);
            offer("words", h, "the rounds accept another word " + std::to_string(k) + " than the one given");
            k = g.range(0, 7);
            flip(s2[k]);
            h = run(s2, w);
            close(h, s, working(s2, w));
            offer("state", h, "the rounds accept another state word " + std::to_string(k) + " than the one given");
            k = g.range(0, 7);
            h = honest;
            auto out = working(s, w);
            flip(out[k]);
            close(h, s, out);
            offer("ends", h, "result " + std::to_string(k) + " does not depend on the last round");
            // a round that goes on from another state than the one before ended with
            std::size_t n = g.range(1, all - 1);
            k = g.range(0, 7);
            out = forward(s, schedule(w), 0, n);
            flip(out[k]);
            s2 = backward(out, schedule(w), n);
            h = run(s2, w);
            rows(h, honest, 0, rounds + turn_rows * n);
            close(h, s, working(s2, w));
            offer("chain", h, "round " + std::to_string(n) + " accepts another state word " + std::to_string(k) + " than the round before left");
            // words of the message that go on from other words than those before
            n = g.range(0, all - 32);
            auto full = schedule(w);
            w2 = words_t(full.begin() + 16 + n, full.begin() + 32 + n);
            k = g.range(0, 15);
            flip(w2[k]);
            w2 = unschedule(w2, 16 + n);
            s2 = backward(forward(s, full, 0, 32 + n), schedule(w2), 32 + n);
            h = run(s2, w2);
            rows(h, honest, 0, 2 + step * (16 + n));
            rows(h, honest, rounds, rounds + turn_rows * (32 + n));
            close(h, s, working(s2, w2));
            auto other = schedule(w2);
            if (!std::equal(full.begin() + 32 + n, full.end(), other.begin() + 32 + n)) offer("schedule", h, "the words made from word " + std::to_string(16 + n) + " on accept another word " + std::to_string(16 + n + k) + " than the one made before");
            if constexpr (narrow) {
                // the third or seventh word in spread form only
                s2 = s;
                k = g.chance(1, 2) ? 2 : 6;
                flip(s2[k]);
                auto one = forward(s2, w, 0, 1), same = forward(s, w, 0, 1);
                words_t q = s;
                W t = one[0] - second(q);
                q[3] = one[4] - t;
                q[7] = t - first(q, 0, w[0]);
                h = run(q, w);
                rows(h, run(s2, w), rounds, rounds + turn_rows);
                close(h, s, working(q, w));
                if (one[0] != same[0] || one[4] != same[4]) offer("spread", h, "the first round accepts another state word " + std::to_string(k) + " in spread form");
                k = g.range(0, 7);
                h = honest;
                std::size_t r = last + 2 * (k / 4) + 1, c = k % 4;
                bool carried = !h.w[c + 4][r].is_zero();
                h.w[c][r] = h.w[c][r] + (carried ? power(32) : -power(32));
                h.w[c + 4][r] = carried ? V::zero() : V::one();
                offer("carry", h, "result " + std::to_string(k) + " may leave the range of a word");
            } else {
                // parts of the first big sum against their spread form
                h = honest;
                std::size_t r = rounds + turn_rows * g.range(0, all - 1) + 6;
                h.w[0][r] = h.w[0][r] + power(14);
                h.w[1][r] = h.w[1][r] - V::one();
                offer("spread", h, "the parts of a sum and their spread forms may differ");
            }
        });
    }
#if PART == 1
    void process(std::uint64_t T) {
        cases("sha256_process", T, [&](rng &g) {
            using C = bc::sha256_process<S>;
            auto s = g.chance(1, 4) ? initial<std::uint32_t>() : words<std::uint32_t>(g, 8), w = words<std::uint32_t>(g, 16);
            auto in = values(s), ws = values(w);
            in.insert(in.end(), ws.begin(), ws.end());
            res want = values(compress(s, w));
            if (g.chance(1, 5)) { auto &x = in[g.range(0, 23)]; x = x + power(g.range(32, 200)); want = std::nullopt; }
            comp_options o;
            o.moves = false; o.forge = 0; o.bound = 60; o.unbound = {0, 1};    // the first two rows only repeat the state
            exercise<F>("sha256_process", g, 9, maker<C>(), [](const std::vector<var> &v) { typename C::input_type i; std::copy(v.begin(), v.begin() + 8, i.input_state.begin()); std::copy(v.begin() + 8, v.end(), i.input_words.begin()); return i; }, {in}, {want}, o);
        });
    }
    void hash(std::uint64_t T) {
        cases("sha256", T, [&](rng &g) {
            using C = bc::sha256<S>;
            std::vector<V> in;
            std::vector<std::uint32_t> w;
            for (int i = 0; i < 4; i++) {
                big x = bits(g, 128);
                in.push_back(of(x));
                for (int j = 3; j >= 0; j--) w.push_back(static_cast<std::uint32_t>((x >> (32 * j)) & big(0xFFFFFFFFu)));
            }
            std::vector<std::uint32_t> pad(16, 0);
            pad[0] = 0x80000000u; pad[15] = 512;
            auto h = compress(compress(initial<std::uint32_t>(), w), pad);
            res want = std::vector<V>{};
            for (int i = 0; i < 2; i++) { big x = 0; for (int j = 0; j < 4; j++) x = (x << 32) + h[4 * i + j]; want->push_back(of(x)); }
            if (g.chance(1, 6)) { auto &x = in[g.range(0, 3)]; x = x + power(g.range(128, 250)); want = std::nullopt; }
            comp_options o;
            o.moves = false; o.forge = 0; 
            exercise<F>("sha256", g, 9, maker<C>(), [](const std::vector<var> &v) { typename C::input_type i; std::copy(v.begin(), v.end(), i.block_data.begin()); return i; }, {in}, {want}, o);
        });
    }
#else
    void decomposition(std::uint64_t T) {
        cases("decomposition", T, [&](rng &g) {
            using C = bc::decomposition<S, F>;
            std::size_t n = g.chance(1, 2) ? 2 : 1;
            std::vector<std::vector<V>> in(n);
            std::vector<res> want(n);
            for (std::size_t k = 0; k < n; k++) {
                bool bad = n == 1 && g.chance(1, 6);
                std::vector<V> out;
                for (int i = 0; i < 2; i++) {
                    big x = bits(g, 128);
                    if (bad && (i == 1 || g.chance(1, 2))) { x += big(1) << g.range(128, 250); }
                    in[k].push_back(of(x));
                    for (int j = 3; j >= 0; j--) out.push_back(of((x >> (32 * j)) & big(0xFFFFFFFFu)));
                }
                if (!bad) want[k] = out;
            }
            comp_options o;
            o.constants = o.component_constants = 0;
            o.moves = false;
            exercise<F>("decomposition", g, 9, maker<C>(), [](const std::vector<var> &v) { typename C::input_type i; i.data = {v[0], v[1]}; return i; }, in, want, o);
        });
    }
    void process(std::uint64_t T) {
        cases("sha512_process", T, [&](rng &g) {
            using C = bc::sha512_process<S>;
            auto s = g.chance(1, 4) ? initial<std::uint64_t>() : words<std::uint64_t>(g, 8), w = words<std::uint64_t>(g, 16);
            auto in = values(s), ws = values(w);
            in.insert(in.end(), ws.begin(), ws.end());
            res want = values(compress(s, w));
            comp_options o;
            o.moves = false; o.forge = 0; o.bound = 60; o.unbound = {0, 1};
            exercise<F>("sha512_process", g, 9, maker<C>(), [](const std::vector<var> &v) { typename C::input_type i; std::copy(v.begin(), v.begin() + 8, i.input_state.begin()); std::copy(v.begin() + 8, v.end(), i.input_words.begin()); return i; }, {in}, {want}, o);
        });
    }
    void hash(std::uint64_t T) {
        cases("sha512", T, [&](rng &g) {
            using C = bc::sha512<S>;
            // the two points' coordinates and a 256-bit number, lowest bits first, then the standard's tail
            std::vector<V> in;
            big message = 0, one = 1;
            int at = 0;
            for (int k = 0; k < 5; k++) {
                int n = k < 4 ? 255 : 256;
                big x = bits(g, n);
                for (int i = 0; i < 4; i++) in.push_back(of((x >> (66 * i)) & ((one << 66) - 1)));
                message += x << at;
                at += n;
            }
            message += one << at;
            std::vector<std::uint64_t> h = initial<std::uint64_t>();
            for (int k = 0; k < 2; k++) {
                std::vector<std::uint64_t> w;
                for (int i = 16 * k; i < 16 * k + 16; i++) w.push_back(static_cast<std::uint64_t>((message >> (64 * i)) & big(~std::uint64_t(0))));
                if (k) w[15] = at;
                h = compress(h, w);
            }
            comp_options o;
            o.moves = false; o.forge = 0; o.bound = 60; o.unbound = {15, 16, 1125, 1126};
            exercise<F>("sha512", g, 9, maker<C>(), [](const std::vector<var> &v) {
                typename C::input_type i;
                std::copy(v.begin(), v.begin() + 4, i.R.x.begin()); std::copy(v.begin() + 4, v.begin() + 8, i.R.y.begin());
                std::copy(v.begin() + 8, v.begin() + 12, i.A.x.begin()); std::copy(v.begin() + 12, v.begin() + 16, i.A.y.begin());
                std::copy(v.begin() + 16, v.end(), i.M.begin());
                return i; }, {in}, {res(values(h))}, o);
        });
    }
#endif
};

int main() {
    init();
    suite<fields::pallas_base_field> p{"pallas"};
#if PART == 1
    p.process(scaled(16, 80));
    p.hash(scaled(8, 40));
    p.dishonest<bc::sha256_process<suite<fields::pallas_base_field>::S>, std::uint32_t>("sha256_process", scaled(16, 120));
#else
    suite<fields::vesta_base_field> v{"vesta"};
    p.decomposition(scaled(400, 4000));
    v.decomposition(scaled(400, 4000));
    p.process(scaled(120, 1500));
    p.dishonest<bc::sha512_process<suite<fields::pallas_base_field>::S>, std::uint64_t>("sha512_process", scaled(80, 1000));
    p.hash(scaled(60, 800));
#endif
    return finish();
}
