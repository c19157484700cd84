// Sparse splitting used by the SHA-2 gadgets: every chunk of every split compared with digit-wise
// arithmetic on machine words, over many chunk layouts and bases, with bases and widths interleaved.
#include "vf.hpp"
#include <vshim/all.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>

using namespace nil::blueprint::components::detail;
namespace fields = nil::crypto3::algebra::fields;

// largest digit count such that base^digits stays below the modulus
template<typename F>
static std::size_t capacity(unsigned base) {
    boost::multiprecision::cpp_int m(typename F::integral_type(F::modulus)), p = base;
    std::size_t n = 0;
    while (p < m) { n++; p *= base; }
    return n;
}
static std::vector<std::size_t> layout(vf::rng &g, std::size_t total) {
    std::vector<std::size_t> s;
    std::size_t left = total, mx = g.range(1, 3) == 1 ? 3 : g.range(1, g.chance(1, 4) ? 160 : 20);
    while (left) {
        std::size_t k = g.range(1, std::min(left, mx));
        s.push_back(k);
        left -= k;
    }
    for (std::size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[g.range(0, i - 1)]);
    return s;
}
static std::string show(const std::vector<std::size_t> &s) {
    std::string r = "{";
    for (auto x : s) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "}";
}
template<typename F>
using I = typename F::integral_type;

// reference: digits[0] is the least significant one
template<typename F>
static void reference(const std::vector<unsigned> &digits, const std::vector<std::size_t> &sizes, unsigned base, const unsigned *normal,
                      std::vector<boost::multiprecision::cpp_int> &a, std::vector<boost::multiprecision::cpp_int> &b) {
    std::size_t pos = 0;
    a.assign(sizes.size(), 0);
    b.assign(sizes.size(), 0);
    for (std::size_t i = 0; i < sizes.size(); i++) {
        boost::multiprecision::cpp_int p2 = 1, pb = 1;
        for (std::size_t j = 0; j < sizes[i]; j++, pos++) {
            a[i] += p2 * (normal ? normal[digits[pos]] : digits[pos] & 1);
            b[i] += pb * digits[pos];
            p2 *= 2;
            pb *= base;
        }
    }
}
template<typename F, typename R>
static void compare(const std::string &key, const std::string &what, const R &r, const std::vector<boost::multiprecision::cpp_int> &a,
                    const std::vector<boost::multiprecision::cpp_int> &b) {
    vf::evaluated(what);
    if (r[0].size() != a.size() || r[1].size() != b.size()) { vf::violation(key + ":chunks", what); return; }
    for (std::size_t i = 0; i < a.size(); i++)
        if (boost::multiprecision::cpp_int(r[0][i]) != a[i] || boost::multiprecision::cpp_int(r[1][i]) != b[i]) {
            std::ostringstream o;
            o << what << ": chunk " << i << " is (" << r[0][i] << ", " << r[1][i] << "), expected (" << a[i] << ", " << b[i] << ")";
            vf::violation(key + ":chunk", o.str());
            return;
        }
}

template<typename F>
static void one(const std::string &fname) {
    static const unsigned *parity = nullptr;
    static const unsigned maj[4] = {0, 0, 1, 1};
    static const unsigned ch[7] = {0, 0, 0, 1, 0, 1, 1};
    static const unsigned same[2] = {0, 1};
    for (std::uint64_t b = 0; b < vf::scaled(1600, 20000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        vf::run_case("layouts/" + id, "layouts", [&] {
            auto g = vf::case_rng("layouts" + id);
            for (int k = 0; k < 40; k++) {
                unsigned kind = unsigned(g.range(0, 3));
                unsigned base = kind == 2 ? 4 : kind == 3 ? 7 : g.chance(2, 3) ? (g.chance(1, 2) ? 4 : 7) : g.chance(2, 3) ? unsigned(g.range(2, 16)) : unsigned(g.range(2, std::uint64_t(1) << g.range(5, 20)));
                std::size_t cap = std::min<std::size_t>(capacity<F>(base), g.chance(1, 6) ? 400 : 96);
                std::size_t total = g.chance(1, 3) ? std::min<std::size_t>(cap, g.chance(1, 2) ? 64 : 32) : g.range(1, cap);
                auto sizes = layout(g, total);
                unsigned top = kind == 0 ? 1 : kind == 2 ? 3 : kind == 3 ? 6 : base - 1;
                std::vector<unsigned> d(total);
                unsigned style = unsigned(g.range(0, 4));
                for (auto &x : d) x = style == 0 ? top : style == 1 ? (g.chance(1, 8) ? top : 0) : unsigned(g.range(0, top));
                std::vector<boost::multiprecision::cpp_int> ra, rb;
                boost::multiprecision::cpp_int v = 0;
                for (std::size_t i = total; i-- > 0;) v = v * base + d[i];
                std::ostringstream o;
                o << fname << " base " << base << " sizes " << show(sizes) << " digits ";
                for (std::size_t i = total; i-- > 0;) o << (base > 16 ? "," : "") << std::hex << d[i];
                I<F> value(v);
                if (kind == 0) {
                    std::vector<bool> bits;
                    for (std::size_t i = total; i-- > 0;) bits.push_back(d[i]);
                    reference<F>(d, sizes, base, same, ra, rb);
                    compare<F>("split", "split and sparse, " + o.str(), split_and_sparse<F>(bits, sizes, base), ra, rb);
                    vf::count("splits of bit strings");
                } else if (kind == 1) {
                    reference<F>(d, sizes, base, parity, ra, rb);
                    compare<F>("reversed", "reversed split, " + o.str(), reversed_sparse_and_split<F>(value, sizes, base), ra, rb);
                    vf::count("splits of sparse sums");
                } else if (kind == 2) {
                    reference<F>(d, sizes, base, maj, ra, rb);
                    compare<F>("maj", "majority split, " + o.str(), reversed_sparse_and_split_maj<F>(value, sizes, base), ra, rb);
                    vf::count("splits of majority sums");
                } else {
                    reference<F>(d, sizes, base, ch, ra, rb);
                    compare<F>("ch", "choice split, " + o.str(), reversed_sparse_and_split_ch<F>(value, sizes, base), ra, rb);
                    vf::count("splits of choice sums");
                }
                vf::saw("bases", base <= 16 ? std::to_string(base) : base < 256 ? "below 256" : "larger");
                if (*std::max_element(sizes.begin(), sizes.end()) > 64) vf::count("chunks wider than 64 digits");
                if (k == 0) vf::sample(o.str());
            }
        });
        // the use they are made for: the round functions of SHA-2 computed through sparse sums
        vf::run_case("rounds/" + id, "rounds", [&] {
            auto g = vf::case_rng("rounds" + id);
            for (int k = 0; k < 10; k++) {
                bool wide = capacity<F>(7) >= 64 && g.chance(1, 2);
                unsigned n = wide ? 64 : capacity<F>(7) >= 32 ? 32 : 16;
                std::uint64_t mask = n == 64 ? ~0ull : (1ull << n) - 1;
                auto word = [&] { std::uint64_t w = g.chance(1, 6) ? (g.chance(1, 2) ? 0 : ~0ull) : g.next(); return w & mask; };
                std::uint64_t x = word(), y = word(), z = word();
                auto rotr = [&](std::uint64_t w, unsigned r) { r %= n; return r ? ((w >> r) | (w << (n - r))) & mask : w; };
                auto sizes = layout(g, n);
                auto sparse = [&](std::uint64_t w, unsigned base) {
                    std::vector<bool> bits;
                    for (unsigned i = n; i-- > 0;) bits.push_back(w >> i & 1);
                    auto r = split_and_sparse<F>(bits, {n}, base);
                    return r[1][0];
                };
                auto join = [&](const std::vector<I<F>> &c) {
                    std::uint64_t w = 0;
                    unsigned pos = 0;
                    for (std::size_t i = 0; i < c.size(); i++) { w |= std::uint64_t(c[i]) << pos; pos += sizes[i]; }
                    return w;
                };
                unsigned r1 = g.range(1, n - 1), r2 = g.range(1, n - 1), r3 = g.range(1, n - 1), base = g.chance(1, 2) ? 4 : 7;
                std::uint64_t sigma = join(reversed_sparse_and_split<F>(I<F>(sparse(rotr(x, r1), base) + sparse(rotr(x, r2), base) + sparse(rotr(x, r3), base)), sizes, base)[0]);
                std::uint64_t m = join(reversed_sparse_and_split_maj<F>(I<F>(sparse(x, 4) + sparse(y, 4) + sparse(z, 4)), sizes, 4)[0]);
                // e + 2 f + 3 g counted in base 7 selects f where e is set and g elsewhere
                std::uint64_t c = join(reversed_sparse_and_split_ch<F>(I<F>(sparse(x, 7) + sparse(y, 7) * 2u + sparse(z, 7) * 3u), sizes, 7)[0]);
                std::ostringstream o;
                o << fname << " " << n << "-bit words " << std::hex << x << " " << y << " " << z << std::dec << " rotations " << r1 << "," << r2 << "," << r3 << " sizes " << show(sizes);
                vf::evaluated(o.str());
                vf::count("round functions");
                if (sigma != (rotr(x, r1) ^ rotr(x, r2) ^ rotr(x, r3))) vf::violation("rounds:sigma", o.str());
                if (m != ((x & y) ^ (x & z) ^ (y & z))) vf::violation("rounds:maj", o.str());
                if (c != ((x & y) ^ (~x & z & mask))) vf::violation("rounds:ch", o.str());
            }
        });
    }
}
int main() {
    vf::init();
    one<fields::pallas_base_field>("pallas");
    one<fields::vesta_base_field>("vesta");
    one<fields::bls12_base_field<381>>("bls12-381 fq");
    one<fields::goldilocks64>("goldilocks");
    return vf::finish();
}
