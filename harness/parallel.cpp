// C25: pairs of the reverse tables collected by several threads. Built with the thread sanitizer.
#include "vf.hpp"
#include <vshim/all.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp>

namespace bd = nil::blueprint::components::detail;
namespace fields = nil::crypto3::algebra::fields;
using namespace vf;

using pairs = std::set<std::pair<std::uint64_t, std::uint64_t>>;

// how many of the rotated or shifted copies of the word have a bit at each place
static void add(pairs &out, std::uint32_t x, unsigned base, unsigned r1, unsigned r2, unsigned r3, bool shift) {
    auto rot = [&](unsigned n) { return x >> n | x << (32 - n); };
    std::uint32_t a = rot(r1), b = rot(r2), c = shift ? x >> r3 : rot(r3);
    for (int byte = 0; byte < 4; byte++) {
        std::uint64_t plain = 0, sparse = 0;
        for (int k = 7; k >= 0; k--) {
            unsigned p = 8 * byte + k, d = (a >> p & 1) + (b >> p & 1) + (c >> p & 1);
            plain = plain * 2 + (d & 1);
            sparse = sparse * base + d;
        }
        out.insert({plain, sparse});
    }
}
static void model4(pairs &out, std::uint32_t x) {
    add(out, x, 4, 7, 18, 3, true);
    add(out, x, 4, 17, 19, 10, true);
    add(out, x, 4, 2, 13, 22, false);
}
static void model7(pairs &out, std::uint32_t x) { add(out, x, 7, 6, 11, 25, false); }

template<typename F>
static void generate(const std::string &fname) {
    using I = typename F::integral_type;
    using set = std::unordered_set<std::pair<I, I>, bd::SumHash<F, 15>>;
    {    // the powers are kept from the first call on; the generators make it before they start threads
        set s;
        std::mutex m;
        bd::base4_reverse_table_worker<F>(s, I(0), I(1), 32, m);
        bd::base7_reverse_table_worker<F>(s, I(0), I(1), 32, m);
    }
    for (std::uint64_t b = 0; b < scaled(6000, 60000); b++) {
        std::string id = fname + "/" + std::to_string(b);
        run_case("generate/" + id, "generate", [&] {
            auto g = case_rng("generate" + id);
            bool seven = g.chance(1, 2);
            std::size_t n = g.range(1, 6);
            set got;
            pairs want;
            std::mutex guard;
            std::vector<std::thread> threads;
            std::vector<std::pair<std::uint64_t, std::uint64_t>> work;
            for (std::size_t k = 0; k < n; k++) {
                std::uint64_t from = g.chance(1, 6) ? 0xFFFFFFF0u : g.chance(1, 4) ? 1ull << g.range(0, 31) : std::uint32_t(g.next()), to = std::min<std::uint64_t>(from + g.range(0, 6), 1ull << 32);
                work.push_back({from, to});
                for (std::uint64_t x = from; x < to; x++) seven ? model7(want, std::uint32_t(x)) : model4(want, std::uint32_t(x));
            }
            for (auto &w : work) threads.emplace_back([&got, &guard, w, seven] {
                if (seven) bd::base7_reverse_table_worker<F>(got, I(w.first), I(w.second), 32, guard);
                else bd::base4_reverse_table_worker<F>(got, I(w.first), I(w.second), 32, guard);
            });
            for (auto &t : threads) t.join();
            pairs have;
            for (auto &p : got) have.insert({std::uint64_t(p.first), std::uint64_t(p.second)});
            count("pairs compared", want.size());
            count("threads run", n);
            for (auto &w : work) for (std::uint64_t x = w.first; x < w.second; x++) evaluated(fname + std::to_string(seven) + std::to_string(x));
            std::string where = "words from " + std::to_string(work[0].first) + (seven ? ", base 7" : ", base 4");
            for (auto &p : want) if (!have.count(p)) { violation("generate:missing", where + ": the pair " + std::to_string(p.first) + ", " + std::to_string(p.second) + " is missing"); return; }
            for (auto &p : have) if (!want.count(p)) { violation("generate:extra", where + ": the pair " + std::to_string(p.first) + ", " + std::to_string(p.second) + " does not belong"); return; }
            if (have.size() != got.size()) violation("generate:extra", where + ": a pair does not fit 64 bits");
            sample(std::to_string(n) + " threads, " + where + ": " + std::to_string(have.size()) + " pairs");
        });
    }
}

int main() {
    init();
    generate<fields::pallas_base_field>("pallas");
    return finish();
}
