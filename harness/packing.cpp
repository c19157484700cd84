// Zone packing: every task placed on an existing agent, and the heaviest agent within 11/9 of
// the best possible. The optimum is known by construction (planted perfect packings) or by
// exact branch and bound.
#include "vf.hpp"
#include <list>
#include <numeric>
#include <algorithm>
#include <boost/assert.hpp>
#include <nil/blueprint/detail/huang_lu.hpp>

using nil::blueprint::components::detail::huang_lu;
using list_t = std::list<std::pair<std::size_t, std::size_t>>;

static bool fits(const std::vector<std::size_t> &sorted, std::vector<std::size_t> &load, std::size_t i, std::size_t cap, std::uint64_t &budget) {
    if (i == sorted.size()) return true;
    if (budget-- == 0) { budget = 1; throw std::length_error("budget"); }
    std::set<std::size_t> tried;
    for (auto &l : load) {
        if (l + sorted[i] > cap || !tried.insert(l).second) continue;
        l += sorted[i];
        bool ok = fits(sorted, load, i + 1, cap, budget);
        l -= sorted[i];
        if (ok) return true;
    }
    return false;
}
// exact optimum, or 0 when the search budget is not enough
static std::size_t optimum(std::vector<std::size_t> sizes, std::size_t agents, std::size_t ub) {
    std::sort(sizes.rbegin(), sizes.rend());
    std::size_t sum = std::accumulate(sizes.begin(), sizes.end(), std::size_t(0));
    std::size_t lb = std::max((sum + agents - 1) / agents, sizes.empty() ? 0 : sizes[0]);
    std::uint64_t budget = 300000;
    try {
        for (std::size_t cap = lb; cap < ub; cap++) {
            std::vector<std::size_t> load(agents, 0);
            if (fits(sizes, load, 0, cap, budget)) return cap;
        }
    } catch (const std::length_error &) { return 0; }
    return ub;
}

static void check(const std::vector<std::pair<std::size_t, std::size_t>> &tasks, std::size_t agents, std::size_t known_opt, const std::string &key) {
    list_t l(tasks.begin(), tasks.end());
    auto r = huang_lu(l, agents);
    std::ostringstream o;
    o << agents << " agents, sizes";
    for (auto &t : tasks) o << " " << t.first << ":" << t.second;
    std::string what = o.str();
    vf::evaluated(what);
    // the caller goes on using the list: it may be ordered, but holds what it held
    std::multiset<std::pair<std::size_t, std::size_t>> before(tasks.begin(), tasks.end()), after(l.begin(), l.end());
    if (before != after) vf::violation(key + ":list", what + ": the list of tasks was changed");
    if (r.size() != tasks.size()) { vf::violation(key + ":unplaced", what + ": " + std::to_string(r.size()) + " of " + std::to_string(tasks.size()) + " tasks placed"); return; }
    std::vector<std::size_t> load(agents, 0), sizes;
    std::size_t sum = 0, mx = 0;
    for (auto &t : tasks) {
        auto it = r.find(t.first);
        if (it == r.end()) { vf::violation(key + ":unplaced", what + ": task " + std::to_string(t.first) + " not placed"); return; }
        if (it->second >= agents) { vf::violation(key + ":agent", what + ": task " + std::to_string(t.first) + " on agent " + std::to_string(it->second)); return; }
        load[it->second] += t.second;
        sizes.push_back(t.second);
        sum += t.second;
        mx = std::max(mx, t.second);
    }
    std::size_t value = *std::max_element(load.begin(), load.end());
    std::size_t lb = std::max((sum + agents - 1) / agents, mx);
    std::size_t opt = known_opt;
    if (!opt && 9 * value > 11 * lb) {
        opt = optimum(sizes, agents, value);
        vf::count("optimum by exact search");
        if (!opt) { vf::count("optimum search abandoned"); }
    } else if (!opt) { opt = lb; vf::count("within bound of the lower bound"); }
    else vf::count("optimum known by construction");
    if (opt && 9 * value > 11 * opt)
        vf::violation(key + ":ratio", what + ": heaviest agent " + std::to_string(value) + ", best possible " + std::to_string(opt));
    if (value > lb) vf::count("heaviest above the lower bound");
}

int main() {
    vf::init();
    auto relabel = [](vf::rng &g, std::vector<std::size_t> sizes) {
        std::vector<std::pair<std::size_t, std::size_t>> t;
        std::set<std::size_t> used;
        bool sparse = g.chance(1, 2), huge = g.chance(1, 4);
        for (std::size_t i = 0; i < sizes.size(); i++) {
            std::size_t k = sparse ? (huge ? g.next() >> 1 : g.range(0, 100000)) : i;
            while (!used.insert(k).second) k++;
            t.push_back({k, sizes[i]});
        }
        for (std::size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[g.range(0, i - 1)]);
        return t;
    };
    std::uint64_t B = vf::scaled(256, 2048);
    for (std::uint64_t i = 0; i < B; i++) {
        vf::run_case("random/" + std::to_string(i), "random", [&] {
            auto g = vf::case_rng("random" + std::to_string(i));
            for (int j = 0; j < 120; j++) {
                std::size_t agents = g.range(1, 7), n = g.range(0, 16), mx = g.chance(1, 3) ? 9 : g.chance(1, 2) ? 40 : 100;
                std::vector<std::size_t> s;
                for (std::size_t k = 0; k < n; k++) s.push_back(g.range(1, mx));
                check(relabel(g, s), agents, 0, "random");
                if (j == 0) vf::sample(std::to_string(n) + " random tasks of size up to " + std::to_string(mx) + " on " + std::to_string(agents) + " agents");
            }
        });
        vf::run_case("skewed/" + std::to_string(i), "skewed", [&] {
            // sizes over many orders of magnitude, a few dominant tasks, more agents than tasks
            auto g = vf::case_rng("skewed" + std::to_string(i));
            for (int j = 0; j < 40; j++) {
                std::size_t agents = g.chance(1, 3) ? g.range(8, 64) : g.range(1, 9), n = g.range(1, 24), bits = g.range(2, 44);
                std::vector<std::size_t> s;
                for (std::size_t k = 0; k < n; k++) s.push_back(1 + (g.next() & ((std::size_t(1) << g.range(1, bits)) - 1)));
                if (g.chance(1, 4)) s.push_back(std::size_t(1) << bits);
                check(relabel(g, s), agents, 0, "skewed");
            }
            vf::count("skewed instances", 40);
        });
        vf::run_case("planted/" + std::to_string(i), "planted", [&] {
            auto g = vf::case_rng("planted" + std::to_string(i));
            for (int j = 0; j < 60; j++) {
                std::size_t agents = g.range(1, 12), T = g.chance(1, 4) ? g.range(std::size_t(1) << 28, std::size_t(1) << 40) : g.range(6, 400);
                std::vector<std::size_t> s;
                for (std::size_t a = 0; a < agents; a++) {
                    std::size_t left = T, parts = g.range(1, 6);
                    for (std::size_t p = 1; p < parts && left > 1; p++) { std::size_t x = g.range(1, left - 1); if (g.chance(1, 2)) x = std::max<std::size_t>(1, std::min(left - 1, T / parts + g.range(0, 3))); s.push_back(x); left -= x; }
                    s.push_back(left);
                }
                check(relabel(g, s), agents, T, "planted");
            }
        });
        vf::run_case("zones/" + std::to_string(i), "zones", [&] {
            // the shape the stretcher produces: many zones of a few distinct sizes
            auto g = vf::case_rng("zones" + std::to_string(i));
            for (int j = 0; j < 30; j++) {
                std::size_t agents = g.range(1, 10), kinds = g.range(1, 3);
                std::vector<std::size_t> s;
                for (std::size_t k = 0; k < kinds; k++) { std::size_t n = g.range(1, 60), z = g.range(1, 12); s.insert(s.end(), n, z); }
                check(relabel(g, s), agents, 0, "zones");
            }
        });
    }
    for (std::uint64_t i = 0; i < vf::scaled(24, 200); i++)
        vf::run_case("crowd/" + std::to_string(i), "crowd", [&] {
            // hundreds of agents, thousands of tasks
            auto g = vf::case_rng("crowd" + std::to_string(i));
            std::size_t agents = g.range(100, i % 3 ? 400 : 1200), T = g.range(20, 3000);
            std::vector<std::size_t> s;
            for (std::size_t a = 0; a < agents; a++) {
                std::size_t left = T, parts = g.range(1, 4);
                for (std::size_t p = 1; p < parts && left > 1; p++) { std::size_t x = g.range(1, left - 1); s.push_back(x); left -= x; }
                s.push_back(left);
            }
            check(relabel(g, s), agents, T, "crowd");
            vf::count("crowded instances");
        });
    // classical worst cases of first-fit-decreasing at the optimum, scaled
    vf::run_case("ffd-hard", "ffd-hard", [&] {
        auto g = vf::case_rng("ffd-hard");
        for (std::size_t e = 1; e <= 12; e++) for (std::size_t m = 1; m <= 6; m++) {
            std::size_t q = 12 * e;    // items just above 1/2, 1/4 and just below 1/4
            std::vector<std::size_t> s;
            for (std::size_t k = 0; k < 6 * m; k++) { s.push_back(2 * q + 1 + e); }
            for (std::size_t k = 0; k < 6 * m; k++) { s.push_back(q + 2 * e + 1); s.push_back(q + e + 1); }
            for (std::size_t k = 0; k < 12 * m; k++) s.push_back(q > 2 * e + 2 ? q - 2 * e - 2 : 1);
            check(relabel(g, s), 9 * m, 0, "ffd-hard");
            check(relabel(g, s), 7 * m, 0, "ffd-hard");
        }
    });
    // every multiset of up to 6 small sizes
    for (std::size_t agents = 1; agents <= 4; agents++)
        vf::run_case("exhaustive/" + std::to_string(agents), "exhaustive", [&] {
            auto g = vf::case_rng("exhaustive" + std::to_string(agents));
            std::vector<std::size_t> s;
            std::function<void(std::size_t)> rec = [&](std::size_t lo) {
                check(relabel(g, s), agents, 0, "exhaustive");
                if (s.size() < 6) for (std::size_t v = lo; v <= 7; v++) { s.push_back(v); rec(v); s.pop_back(); }
            };
            rec(1);
        });
    // empty zones must still get a place
    vf::run_case("empty-zones", "empty-zones", [&] {
        auto g = vf::case_rng("empty-zones");
        for (int j = 0; j < 200; j++) {
            std::vector<std::size_t> s;
            std::size_t n = g.range(1, 8), z = g.range(0, n);
            for (std::size_t k = 0; k < n; k++) s.push_back(k < z ? 0 : g.range(1, 9));
            check(relabel(g, s), g.range(1, 5), 0, "empty-zones");
        }
    });
    return vf::finish();
}
