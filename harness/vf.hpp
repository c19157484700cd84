// Shared run-time monitoring support for the harnesses: seeded random choices, the
// case log (so that a crash can be attributed to the case that was running), the
// violation channel and the coverage counters that end up in the evidence file.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

#ifdef BOOST_ENABLE_ASSERT_HANDLER
// Assertions of the code under test surface as exceptions, so a monitor can attribute them.
namespace vf {
struct assertion_error : std::logic_error { using std::logic_error::logic_error; };
}
namespace boost {
inline void assertion_failed(char const *expr, char const *function, char const *file, long line) {
    throw vf::assertion_error(std::string("assertion ") + expr + " in " + file + ":" + std::to_string(line));
}
inline void assertion_failed_msg(char const *expr, char const *msg, char const *function, char const *file, long line) {
    throw vf::assertion_error(std::string("assertion ") + expr + " (" + msg + ") in " + file + ":" + std::to_string(line));
}
}
#endif

namespace vf {

struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t next() {    // splitmix64
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    using result_type = std::uint64_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~result_type(0); }
    result_type operator()() { return next(); }
    // uniform in [lo, hi]
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + next() % (hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return next() % den < num; }
    template<typename C> auto &pick(C &c) { return c[next() % c.size()]; }
};

inline std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else if (c >= 0x80) r += '?';
        else r += char(c);
    }
    return r;
}

struct state {
    std::ofstream out;
    int cur_fd = -1;
    std::uint64_t seed = 1;
    std::set<std::string> skip;    // cases that already crashed in this run
    std::string tier = "quick", only, prop, filter;
    unsigned shard = 0, shards = 1;
    std::uint64_t evaluations = 0, case_no = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> counters;
    std::map<std::string, std::set<std::string>> seen;   // named value sets
    std::vector<std::string> samples;
    std::map<std::string, unsigned> viol_count;
    unsigned case_cpu_limit = 120;
    std::string cur;
};
inline state &st() { static state s; return s; }

inline bool thorough() { return st().tier == "thorough"; }
inline std::uint64_t scaled(std::uint64_t quick, std::uint64_t thorough_n) { return thorough() ? thorough_n : quick; }

inline std::uint64_t hash_str(const std::string &s, std::uint64_t h = 0xcbf29ce484222325ull) {
    for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
    return h ^ (h >> 29);
}
// A generator that depends only on the run seed and the case's own name: cases are the
// same whichever shard or order runs them.
inline rng case_rng(const std::string &name) { rng r(hash_str(name) ^ (st().seed * 0x9E3779B97F4A7C15ull)); r.next(); return r; }

inline void write_cur(const std::string &id) {
    st().cur = id;
    if (st().cur_fd >= 0) {
        std::string b = id;
        b.resize(4096, '\0');
        if (::pwrite(st().cur_fd, b.data(), b.size(), 0) < 0) {}
    }
}
inline void arm(unsigned secs) {
    itimerval t{};
    t.it_value.tv_sec = secs;
    ::setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
inline void on_hang(int) {
    const char m[] = "\nVF-HANG: case exceeded its CPU budget\n";
    if (::write(2, m, sizeof m - 1) < 0) {}
    ::_exit(97);
}

inline void violation(const std::string &key, const std::string &detail) {
    auto &s = st();
    if (++s.viol_count[key] > 3) return;
    s.out << "{\"t\":\"viol\",\"key\":\"" << jesc(key) << "\",\"case\":\"" << jesc(s.cur) << "\",\"detail\":\""
          << jesc(detail.substr(0, 4000)) << "\"}\n";
    s.out.flush();
}
inline void sample(const std::string &text) {
    auto &s = st();
    if (s.samples.size() < 6) s.samples.push_back(text.substr(0, 500));
}
inline void count(const std::string &name, std::uint64_t n = 1) { st().counters[name] += n; }
inline void saw(const std::string &set, const std::string &v) { st().seen[set].insert(v); }
// one evaluation; `sig` identifies the case for the distinct count, empty = trivial
inline void evaluated(const std::string &sig) {
    ++st().evaluations;
    if (!sig.empty()) st().distinct.insert(hash_str(sig));
}
inline void evaluated_h(std::uint64_t h) { ++st().evaluations; st().distinct.insert(h); }

// Runs one named case if this shard owns it. Exceptions are reported through `key`.
inline bool selected(const std::string &id) {
    auto &s = st();
    if (!s.only.empty()) return id == s.only;
    if (!s.filter.empty() && id.find(s.filter) == std::string::npos) return false;
    bool mine = s.case_no++ % s.shards == s.shard;
    return mine && !s.skip.count(id);
}
template<typename F>
void run_case(const std::string &id, const std::string &key, F &&f) {
    if (!selected(id)) return;
    write_cur(id + " @ " + key);
    arm(st().case_cpu_limit);
    try {
        f();
    } catch (const std::exception &e) {
        violation(key + ":exception", std::string("unexpected exception: ") + e.what());
    }
    arm(0);
    write_cur("");
}

inline int finish() {
    auto &s = st();
    s.out << "{\"t\":\"stat\",\"evaluations\":" << s.evaluations << ",\"distinct\":" << s.distinct.size();
    s.out << ",\"counters\":{";
    bool first = true;
    for (auto &[k, v] : s.counters) { s.out << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    s.out << "},\"seen\":{";
    first = true;
    for (auto &[k, v] : s.seen) {
        s.out << (first ? "" : ",") << "\"" << jesc(k) << "\":[";
        bool f2 = true;
        for (auto &x : v) { s.out << (f2 ? "" : ",") << "\"" << jesc(x) << "\""; f2 = false; }
        s.out << "]";
        first = false;
    }
    s.out << "},\"samples\":[";
    first = true;
    for (auto &x : s.samples) { s.out << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
    s.out << "]}\n";
    s.out << "{\"t\":\"done\"}\n";
    s.out.flush();
    return 0;
}

inline void init() {
    auto &s = st();
    auto env = [](const char *n, const char *d) { const char *v = std::getenv(n); return std::string(v ? v : d); };
    s.out.open(env("VF_OUT", "/dev/stdout"));
    std::string cur = env("VF_CUR", "");
    if (!cur.empty()) s.cur_fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    s.seed = std::strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
    s.tier = env("VERIF_TIER", "quick");
    s.only = env("VF_ONLY", "");
    s.filter = env("VF_FILTER", "");
    s.prop = env("VF_PROP", "");
    std::istringstream sk(env("VF_SKIP", ""));
    for (std::string l; std::getline(sk, l);) if (!l.empty()) s.skip.insert(l);
    s.shard = std::strtoul(env("VF_SHARD", "0").c_str(), nullptr, 10);
    s.shards = std::strtoul(env("VF_SHARDS", "1").c_str(), nullptr, 10);
    std::signal(SIGVTALRM, on_hang);
}

}    // namespace vf
