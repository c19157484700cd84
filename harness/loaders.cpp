// Lookup table files: what is read equals what an independent reader finds in the same text, and
// whatever is not the announced table is refused.
#include "vf.hpp"
#include <vshim/all.hpp>
#include <set>
#include <sys/stat.h>
#include <sstream>
#include <nil/blueprint/detail/lookup_table_loaders.hpp>

using namespace nil::blueprint::components::detail;
namespace fields = nil::crypto3::algebra::fields;

template<typename F>
using table_t = std::vector<std::vector<typename F::value_type>>;

template<typename F>
static std::string hex_of(const typename F::integral_type &x) {
    std::ostringstream o;
    o << std::hex << x;
    return o.str();
}
template<typename F>
static typename F::integral_type some_value(vf::rng &g) {
    using I = typename F::integral_type;
    I m = I(F::modulus), x = 0u;
    switch (g.range(0, 5)) {
        case 0: return I(g.range(0, 20));
        case 1: return I(m - I(1 + g.range(0, 9)));
        case 2: x = I(1u) << g.range(0, F::modulus_bits - 2); return g.chance(1, 2) ? x : I(x - I(1u));
        default: break;
    }
    std::size_t bits = g.range(1, F::modulus_bits);
    for (std::size_t i = 0; i < bits; i += 32) x = (x << 32) | I(g.next() & 0xffffffffu);
    x &= (I(1u) << (bits - 1)) | ((I(1u) << (bits - 1)) - I(1u));
    return x < m ? x : I(x % m);
}
static std::string blanks(vf::rng &g, bool at_least_one) {
    std::string s;
    if (at_least_one) s += g.chance(1, 4) ? "\t" : " ";
    while (g.chance(1, 5)) s += g.chance(1, 2) ? " " : "\t";
    return s;
}
static std::string recase(vf::rng &g, std::string s) {
    if (g.chance(1, 3)) for (auto &c : s) if (g.chance(1, 2)) c = char(std::toupper(c));
    if (g.chance(1, 10)) s = std::string(g.range(1, 5), '0') + s;
    return s;
}

template<typename F>
struct sample_table {
    std::vector<std::vector<typename F::integral_type>> rows;
    std::vector<std::string> lines;    // row texts
    std::size_t cols = 0;
    bool final_newline = true;
    std::string eol = "\n";
    std::string text(const std::string &header) const {
        std::string t = header + (lines.empty() && !final_newline ? "" : eol);
        for (std::size_t i = 0; i < lines.size(); i++) t += lines[i] + (i + 1 < lines.size() || final_newline ? eol : "");
        return t;
    }
};
template<typename F>
static sample_table<F> make(vf::rng &g) {
    sample_table<F> t;
    t.cols = g.chance(1, 12) ? g.range(6, 40) : g.range(1, 5);
    std::size_t n = g.chance(1, 8) ? 0 : g.chance(1, 30) ? g.range(13, 700) : g.range(1, 12);
    if (g.chance(1, 8)) t.eol = "\r\n";
    t.final_newline = g.chance(3, 4);
    for (std::size_t i = 0; i < n; i++) {
        t.rows.emplace_back();
        std::string l = g.chance(1, 6) ? blanks(g, true) : "";
        for (std::size_t j = 0; j < t.cols; j++) {
            t.rows.back().push_back(some_value<F>(g));
            if (j) l += blanks(g, true);
            l += recase(g, hex_of<F>(t.rows.back().back()));
        }
        if (g.chance(1, 6)) l += blanks(g, true);
        t.lines.push_back(l);
    }
    return t;
}

template<typename F>
static bool same(const table_t<F> &got, const sample_table<F> &t, std::string &why) {
    if (got.size() != t.cols) { why = std::to_string(got.size()) + " columns, expected " + std::to_string(t.cols); return false; }
    for (std::size_t j = 0; j < t.cols; j++) {
        if (got[j].size() != t.rows.size()) { why = "column " + std::to_string(j) + " has " + std::to_string(got[j].size()) + " rows, expected " + std::to_string(t.rows.size()); return false; }
        for (std::size_t i = 0; i < t.rows.size(); i++)
            if (got[j][i] != typename F::value_type(t.rows[i][j])) {
                std::ostringstream o;
                o << "row " << i << " column " << j << ": " << got[j][i] << ", expected " << t.rows[i][j];
                why = o.str();
                return false;
            }
    }
    return true;
}

struct quiet_cerr {
    std::streambuf *old;
    std::ostringstream sink;
    quiet_cerr() : old(std::cerr.rdbuf(sink.rdbuf())) {}
    ~quiet_cerr() { std::cerr.rdbuf(old); }
};

// a change that makes the text something other than the announced table
template<typename F>
static std::string spoil(vf::rng &g, const sample_table<F> &t, std::string &what) {
    std::string n = std::to_string(t.rows.size());
    auto u = t;
    std::size_t r = t.rows.empty() ? 0 : g.range(0, t.rows.size() - 1);
    if (t.rows.empty()) {
        what = "announces rows that are missing";
        return t.text(std::to_string(g.range(1, 9)));
    }
    switch (g.range(0, 11)) {
        case 0: what = "announces more rows than the file has"; return t.text(std::to_string(t.rows.size() + g.range(1, 3)));
        case 1: what = "announces far more rows than the file has"; return t.text(g.chance(1, 2) ? "1000000000000" : "18446744073709551615");
        case 2: what = "no size line"; return "";
        case 3: {
            what = "size line is not a number";
            static const char *const after[] = {"a", "x", ".5", " rows", " 1", ",", "e0", "'", "\t0"};
            switch (g.range(0, 3)) {
                case 0: return t.text("rows");
                case 1: return t.text("");
                case 2: return t.text("0x" + n);
                default: return t.text(n + after[g.range(0, 8)]);
            }
        }
        case 4: what = "negative size"; return t.text("-" + n);
        case 5: what = "size beyond any integer"; return t.text("99999999999999999999999");
        case 6: what = "row with a column too many"; u.lines[r] += " " + std::to_string(g.range(0, 9)); return u.text(n);
        case 7: {
            what = "row with a column missing";
            u.lines[r] = "";
            for (std::size_t j = 0; j + 1 < t.cols; j++) u.lines[r] += (j ? " " : "") + hex_of<F>(t.rows[r][j]);
            return u.text(n);
        }
        case 8: what = "letter outside the hexadecimal digits"; u.lines[r].insert(g.range(0, u.lines[r].size()), 1, g.chance(1, 2) ? 'g' : 'x'); return u.text(n);
        case 9: what = "sign in front of a value"; { auto p = u.lines[r].find_first_not_of(" \t"); u.lines[r].insert(p, g.chance(1, 2) ? "-" : "0x"); } return u.text(n);
        case 10: {
            // one value of more digits than the field holds, and one column fewer, so that a split value would fit
            what = "value wider than the field";
            std::string wide(1, "123456789abcdef"[g.range(0, 14)]);
            for (std::size_t i = 0; i < (F::modulus_bits + 3) / 4 + g.range(0, 4); i++) wide += "0123456789abcdef"[g.range(0, 15)];
            u.lines[r] = wide;
            for (std::size_t j = 0; j + 1 + (t.cols > 1 ? g.range(0, 1) : 0) < t.cols; j++) u.lines[r] += " " + hex_of<F>(t.rows[r][j]);
            return u.text(n);
        }
        default: what = "punctuation between values"; u.lines[r] += g.chance(1, 2) ? "," : ";"; return u.text(n);
    }
}

template<typename F>
static void one_field(const std::string &fname) {
    std::uint64_t B = vf::scaled(240, 3000);
    for (std::uint64_t b = 0; b < B; b++) {
        std::string id = fname + "/" + std::to_string(b);
        vf::run_case("good/" + id, "good", [&] {
            auto g = vf::case_rng("good" + id);
            for (int k = 0; k < 20; k++) {
                auto t = make<F>(g);
                // the size is decimal, however it is padded
                std::string size = std::to_string(t.rows.size());
                if (g.chance(1, 6)) { size = std::string(g.range(1, 4), '0') + size; vf::count("padded sizes"); }
                if (g.chance(1, 8)) size = blanks(g, true) + size;
                if (g.chance(1, 8)) size += blanks(g, true);
                std::string text = t.text(size);
                if (t.final_newline && g.chance(1, 6)) { text += "\n"; vf::count("blank line after the table"); }
                std::istringstream in(text);
                table_t<F> r;
                // what the result held before must not matter
                if (g.chance(1, 3)) r.assign(g.range(1, 7), std::vector<typename F::value_type>(g.range(0, 20), typename F::value_type(77u)));
                bool ok = parse_lookup_table<F>(in, t.cols, r);
                vf::evaluated(fname + text);
                vf::count("tables read");
                vf::count("values read", t.cols * t.rows.size());
                std::string why;
                if (!ok) vf::violation("good:refused", fname + ": a well-formed table was refused:\n" + text);
                else if (!same<F>(r, t, why)) vf::violation("good:content", fname + ": " + why + " in\n" + text);
                if (k == 0) vf::sample(fname + ": " + text.substr(0, 120));
            }
        });
        vf::run_case("bad/" + id, "bad", [&] {
            auto g = vf::case_rng("bad" + id);
            quiet_cerr q;
            for (int k = 0; k < 30; k++) {
                auto t = make<F>(g);
                std::string what, text = spoil<F>(g, t, what);
                std::istringstream in(text);
                table_t<F> r;
                bool ok;
                try {
                    ok = parse_lookup_table<F>(in, t.cols, r);
                } catch (const std::exception &e) {
                    vf::violation("bad:threw:" + what, fname + ": " + e.what() + " escaped for\n" + text);
                    continue;
                }
                vf::evaluated(fname + "!" + text);
                vf::count("spoiled: " + what);
                if (ok) vf::violation("bad:accepted:" + what, fname + " (" + std::to_string(t.cols) + " columns): accepted\n" + text);
            }
        });
    }
    // files: the first candidate that holds the table wins, unusable ones are passed over
    for (std::uint64_t b = 0; b < vf::scaled(64, 600); b++) {
        std::string id = fname + "/" + std::to_string(b);
        vf::run_case("files/" + id, "files", [&] {
            auto g = vf::case_rng("files" + id);
            quiet_cerr q;
            const char *tmp = std::getenv("VF_TMP");
            std::string dir = std::string(tmp ? tmp : "/tmp") + "/tables_" + std::to_string(::getpid());
            for (int k = 0; k < 6; k++) {
                ::mkdir(dir.c_str(), 0755);
                auto t = make<F>(g);
                std::set<std::string> paths;
                std::vector<std::string> made;
                std::string history;
                std::size_t n = g.range(0, 5);
                bool good = false;
                const sample_table<F> *expect = nullptr;
                std::vector<sample_table<F>> kept;
                kept.reserve(n);
                for (std::size_t i = 0; i < n; i++) {
                    std::string p = dir + "/" + char('a' + i) + ".txt";
                    paths.insert(p);
                    unsigned kind = unsigned(g.range(0, 2));
                    if (kind == 0 && g.chance(1, 3)) { history += "folder "; ::mkdir(p.c_str(), 0755); made.push_back(p); continue; }
                    if (kind == 0) { history += "missing "; continue; }
                    made.push_back(p);
                    std::ofstream o(p, std::ios::binary);
                    if (kind == 1) {
                        std::string what;
                        o << spoil<F>(g, t, what);
                        history += "[" + what + "] ";
                    } else {
                        auto s = make<F>(g);
                        while (s.cols != t.cols) s = make<F>(g);
                        kept.push_back(s);
                        o << s.text(std::to_string(s.rows.size()));
                        history += "good ";
                        if (!good) { good = true; expect = &kept.back(); }
                    }
                }
                table_t<F> r;
                bool ok = false, threw = false;
                try {
                    ok = load_lookup_table<F>(paths, t.cols, r);
                } catch (const std::exception &e) {
                    threw = true;
                    vf::violation("files:threw", fname + ": " + e.what() + " for candidates " + history);
                }
                vf::evaluated(fname + history + std::to_string(g.next()));
                vf::count(good ? "loads with a usable file" : "loads without a usable file");
                std::string why;
                if (!threw && ok != good) vf::violation("files:answer", fname + ": load said " + (ok ? "yes" : "no") + " for candidates " + history);
                else if (!threw && ok && !same<F>(r, *expect, why)) vf::violation("files:content", fname + ": " + why + " for candidates " + history);
                for (auto &p : made) if (::unlink(p.c_str())) ::rmdir(p.c_str());
                ::rmdir(dir.c_str());
            }
        });
    }
    vf::run_case("reduced/" + fname, "reduced", [&] {
        // a number that is no element of the field is refused, the largest element is read
        quiet_cerr q;
        using I = typename F::integral_type;
        for (int d = -1; d < 3; d++) {
            I m = I(F::modulus), x = d < 0 ? I(m - I(1u)) : I(m + I(unsigned(d)));
            std::string text = "1\n" + hex_of<F>(x) + "\n";
            std::istringstream in(text);
            table_t<F> r;
            bool ok = parse_lookup_table<F>(in, 1, r);
            vf::evaluated(fname + text);
            vf::count("values about the modulus");
            if (d < 0 && (!ok || r[0][0] != -F::value_type::one())) vf::violation("good:largest", fname + ": the largest element is not read");
            if (d >= 0 && ok) vf::violation("reduced", fname + ": a number not below the modulus was read:\n" + text);
        }
    });
    vf::run_case("builtin/" + fname, "builtin", [&] {
        table_t<F> r;
        for (auto name : {"8_split_5", "8_SPLIT_4", "", "8_split_4 ", "8_split_44", "8_split_"}) {
            vf::evaluated(fname + name);
            if (load_lookup_table_from_bin<F>(name, r)) vf::violation("builtin:unknown", std::string("a table was found under the unknown name '") + name + "'");
        }
        for (auto name : {"8_split_4", "8_split_7"}) {
            vf::evaluated(fname + name);
            vf::count("built-in tables read");
            if (!load_lookup_table_from_bin<F>(name, r)) { vf::violation("builtin:missing", std::string("built-in table ") + name + " was not read"); continue; }
            unsigned base = name[8] - '0';
            if (r.size() != 2) { vf::violation("builtin:columns", name); continue; }
            std::set<std::uint64_t> got;
            for (std::size_t i = 0; i < r[1].size(); i++) {
                std::uint64_t a = std::uint64_t(typename F::integral_type(r[0].at(i).data)), s = std::uint64_t(typename F::integral_type(r[1][i].data)), p = 0, x = s;
                for (int k = 0; k < 8; k++, x /= base) p |= ((x % base) & 1) << k;
                if (x || p != a) { vf::violation("builtin:row", std::string(name) + " row " + std::to_string(i) + ": " + std::to_string(s) + " is paired with " + std::to_string(a)); break; }
                got.insert(s);
            }
            // every sum of three rotated bit strings must be there, nothing twice
            std::uint64_t want = 0;
            for (std::uint64_t c = 0; c < 65536; c++) {
                std::uint64_t s = 0;
                unsigned d[8];
                for (int k = 7; k >= 0; k--) { d[k] = c >> (2 * k) & 3; s = s * base + d[k]; }
                bool possible = true;
                if (base == 7) for (int k = 0; k < 3; k++) if ((d[k] == 0 && d[k + 5] == 3) || (d[k] == 3 && d[k + 5] == 0)) possible = false;
                if (!possible) continue;
                want++;
                if (!got.count(s)) { vf::violation("builtin:hole", std::string(name) + " lacks " + std::to_string(s)); break; }
            }
            if (got.size() != want || r[1].size() != want) vf::violation("builtin:extra", std::string(name) + " has " + std::to_string(r[1].size()) + " rows, " + std::to_string(got.size()) + " distinct, expected " + std::to_string(want));
        }
    });
}

#include <sys/stat.h>
int main() {
    vf::init();
    one_field<fields::pallas_base_field>("pallas");
    one_field<fields::bls12_base_field<381>>("bls12-381 fq");
    one_field<fields::goldilocks64>("goldilocks");
    one_field<fields::alt_bn128_scalar_field<254>>("bn254 fr");
    return vf::finish();
}
