// The lookup library. C08: every built-in table holds exactly the rows of the relation it stands for.
// C17: reservations, indices and definitions over arbitrary histories of calls on a circuit.
#include "vf.hpp"
#include <vshim/all.hpp>
#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>

using namespace nil::blueprint;
namespace fields = nil::crypto3::algebra::fields;
namespace snark = nil::crypto3::zk::snark;

struct relation {
    std::string name;
    std::size_t columns, rows;
    // row number -> columns
    std::function<void(std::uint64_t, std::uint64_t *)> row;
};
static std::uint64_t spread(std::uint64_t v, unsigned base, unsigned digits) {
    std::uint64_t r = 0;
    for (unsigned i = digits; i-- > 0;) r = r * base + (v >> i & 1);
    return r;
}
static std::uint64_t gather(std::uint64_t v, unsigned base, const unsigned *map) {
    std::uint64_t r = 0;
    for (unsigned i = 0; i < 8; i++, v /= base) r |= std::uint64_t(map[v % base]) << i;
    return r;
}
static const unsigned par[7] = {0, 1, 0, 1, 0, 1, 0}, maj[4] = {0, 0, 1, 1}, ch[7] = {0, 0, 0, 1, 0, 1, 1};

static std::vector<std::uint64_t> sums7() {
    std::vector<std::uint64_t> v;
    for (std::uint64_t c = 0; c < 65536; c++) {
        unsigned d[8];
        std::uint64_t s = 0;
        for (int k = 7; k >= 0; k--) { d[k] = c >> (2 * k) & 3; s = s * 7 + d[k]; }
        bool possible = true;
        for (int k = 0; k < 3; k++) if (d[k] + d[k + 5] == 3 && d[k] * d[k + 5] == 0) possible = false;
        if (possible) v.push_back(s);
    }
    return v;
}

static std::vector<relation> relations() {
    static std::vector<std::uint64_t> s7 = sums7();
    return {
        {"byte_range_table", 1, 256, [](std::uint64_t i, std::uint64_t *r) { r[0] = i; }},
        {"chunk_16_bits", 1, 65536, [](std::uint64_t i, std::uint64_t *r) { r[0] = i; }},
        {"binary_xor_table", 3, 4, [](std::uint64_t i, std::uint64_t *r) { r[0] = i >> 1; r[1] = i & 1; r[2] = r[0] ^ r[1]; }},
        {"binary_and_table", 3, 4, [](std::uint64_t i, std::uint64_t *r) { r[0] = i >> 1; r[1] = i & 1; r[2] = r[0] & r[1]; }},
        {"sha256_sparse_base4", 2, 16384, [](std::uint64_t i, std::uint64_t *r) { r[0] = i; r[1] = spread(i, 4, 14); }},
        {"sha256_sparse_base7", 2, 16384, [](std::uint64_t i, std::uint64_t *r) { r[0] = i; r[1] = spread(i, 7, 14); }},
        {"sha256_reverse_sparse_base4", 2, 65536, [](std::uint64_t i, std::uint64_t *r) { r[0] = gather(i, 4, par); r[1] = i; }},
        {"sha256_reverse_sparse_base7", 2, 43904, [](std::uint64_t i, std::uint64_t *r) { r[1] = s7[i]; r[0] = gather(r[1], 7, par); }},
        {"sha256_maj", 2, 65536, [](std::uint64_t i, std::uint64_t *r) { r[0] = gather(i, 4, maj); r[1] = i; }},
        {"sha256_ch", 2, 5764801, [](std::uint64_t i, std::uint64_t *r) { r[0] = gather(i, 7, ch); r[1] = i; }},
    };
}
// subtables and the columns they project on
static const std::map<std::string, std::map<std::string, std::vector<std::size_t>>> views = {
    {"byte_range_table", {{"full", {0}}}},
    {"chunk_16_bits", {{"full", {0}}}},
    {"binary_xor_table", {{"full", {0, 1, 2}}}},
    {"binary_and_table", {{"full", {0, 1, 2}}}},
    {"sha256_sparse_base4", {{"full", {0, 1}}, {"first_column", {0}}}},
    {"sha256_sparse_base7", {{"full", {0, 1}}, {"first_column", {0}}, {"second_column", {1}}}},
    {"sha256_reverse_sparse_base4", {{"full", {0, 1}}}},
    {"sha256_reverse_sparse_base7", {{"full", {0, 1}}}},
    {"sha256_maj", {{"full", {0, 1}}, {"first_column", {0}}}},
    {"sha256_ch", {{"full", {0, 1}}, {"first_column", {0}}}},
};

template<typename F>
using circuit_t = circuit<snark::plonk_constraint_system<F>>;

template<typename F>
static void contents(const std::string &fname, bool small_only) {
    for (auto &rel : relations()) {
        if (small_only && rel.rows > 100000) continue;
        vf::run_case("contents/" + fname + "/" + rel.name, "contents:" + rel.name, [&] {
            circuit_t<F> bp;
            for (auto &view : views.at(rel.name)) bp.reserve_table(rel.name + "/" + view.first);
            for (auto &view : views.at(rel.name)) {
                std::string full_name = rel.name + "/" + view.first;
                auto def = bp.get_reserved_tables().at(rel.name);
                const auto &t = def->get_table();
                auto sub = def->subtables.at(view.first);
                if (sub.column_indices != view.second) { vf::violation("contents:columns:" + full_name, fname + ": projects on unexpected columns"); return; }
                // fingerprints of the rows the table offers and of the rows of the relation, as sorted lists
                std::vector<std::uint64_t> got, want;
                std::size_t k = view.second.size();
                for (std::size_t r = sub.begin; r <= sub.end; r++) {
                    std::uint64_t h = 0;
                    for (auto c : sub.column_indices) {
                        auto v = t.at(c).at(r).data.canon();
                        for (std::size_t l = 1; l < sizeof(v.v) / 8; l++) if (v.v[l]) h ^= 0x1234567;
                        h = (h ^ v.v[0]) * 0x9E3779B97F4A7C15ull;
                        h ^= h >> 32;
                    }
                    got.push_back(h);
                }
                for (std::size_t r = 0; r < rel.rows; r++) {
                    std::uint64_t row[3], h = 0;
                    rel.row(r, row);
                    for (auto c : view.second) { h = (h ^ row[c]) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; }
                    want.push_back(h);
                }
                for (auto *x : {&got, &want}) { std::sort(x->begin(), x->end()); x->erase(std::unique(x->begin(), x->end()), x->end()); }
                vf::count("tables compared");
                vf::count("table rows compared", sub.end - sub.begin + 1);
                for (std::size_t i = 0; i < std::min<std::size_t>(want.size(), 200000); i++) vf::evaluated_h(want[i] ^ vf::hash_str(fname + full_name));
                if (want.size() > 200000) vf::st().evaluations += want.size() - 200000;
                vf::sample(fname + " " + full_name + ": " + std::to_string(got.size()) + " rows");
                if (got != want) {
                    std::vector<std::uint64_t> extra, hole;
                    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
                    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(hole));
                    std::string where;
                    for (std::size_t r = sub.begin; r <= sub.end && where.empty() && !extra.empty(); r++) {
                        std::uint64_t h = 0;
                        for (auto c : sub.column_indices) { h = (h ^ t[c][r].data.canon().v[0]) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; }
                        if (std::binary_search(extra.begin(), extra.end(), h)) where = ", for example row " + std::to_string(r);
                    }
                    vf::violation("contents:rows:" + full_name, fname + ": " + std::to_string(hole.size()) + " rows missing, " + std::to_string(extra.size()) + " that do not belong" + where);
                }
            }
        });
    }
}

template<typename F>
struct custom_table : snark::lookup_table_definition<F> {
    std::vector<std::vector<typename F::value_type>> data;
    static std::string part(std::size_t i) { return i == 2 ? "s/0" : "s" + std::to_string(i); }    // a part's name may hold a slash itself
    custom_table(const std::string &n, std::vector<std::vector<typename F::value_type>> d, std::size_t subs) : snark::lookup_table_definition<F>(n), data(d) {
        for (std::size_t i = 0; i < subs; i++) this->subtables[part(i)] = {{i % d.size()}, i % d[0].size(), d[0].size() - 1};
    }
    void generate() override { this->_table = data; }
    std::size_t get_columns_number() override { return data.size(); }
    std::size_t get_rows_number() override { return data[0].size(); }
};

template<typename F>
static void histories(const std::string &fname) {
    using V = typename F::value_type;
    using var = snark::plonk_variable<V>;
    std::vector<std::string> known;
    for (auto &t : views) {
        if (t.first == "sha256_ch" || t.first == "sha256_maj" || t.first.find("reverse") != std::string::npos) continue;    // costly to fill, same code
        for (auto &s : t.second) known.push_back(t.first + "/" + s.first);
    }
    known.push_back("zkevm_opcodes/full");
    known.push_back("zkevm_opcodes/opcodes_only");
    for (std::uint64_t b = 0; b < vf::scaled(160, 1500); b++) {
        std::string id = fname + "/" + std::to_string(b);
        vf::run_case("history/" + id, "history", [&] {
            auto g = vf::case_rng("history" + id);
            circuit_t<F> bp;
            std::vector<std::string> names = known;
            std::map<std::string, std::shared_ptr<custom_table<F>>> custom;
            std::map<std::string, std::size_t> index;    // model: name -> index, in order of first reservation
            std::set<std::string> dynamic;
            std::map<std::string, std::size_t> defined;    // dynamic table -> tag
            std::string trace;
            bool closed = false;
            auto check_indices = [&](const char *when) {
                const auto &l = bp.get_reserved_indices();
                const auto &r = bp.get_reserved_indices_right();
                vf::evaluated(trace + when);
                if (l.size() != index.size()) { vf::violation("history:count", trace + ": " + std::to_string(l.size()) + " reserved, expected " + std::to_string(index.size())); return; }
                for (auto &i : index) {
                    auto it = l.find(i.first);
                    if (it == l.end()) { vf::violation("history:lost", trace + ": " + i.first + " is not reserved"); return; }
                    if (it->second != i.second) { vf::violation("history:index", trace + ": " + i.first + " has index " + std::to_string(it->second) + ", expected " + std::to_string(i.second)); return; }
                    auto back = r.find(i.second);
                    if (back == r.end() || back->second != i.first) { vf::violation("history:inverse", trace + ": index " + std::to_string(i.second) + " does not lead back to " + i.first); return; }
                }
            };
            bool many = g.chance(1, 5);    // tables of the caller's own, more than the library has
            std::size_t steps = many ? g.range(60, 160) : g.range(1, 24);
            for (std::size_t k = 0; k < steps; k++) {
                unsigned op = unsigned(g.range(0, 11));
                if (many && g.chance(1, 4)) op = 6;
                if (many && g.chance(1, 6)) op = 7;
                if (op <= 5) {
                    if (closed) continue;
                    std::string n = g.pick(names);
                    trace += "reserve " + n + "; ";
                    bp.reserve_table(n);
                    index.insert({n, index.size() + 1});
                    vf::count("reservations");
                } else if (op == 6) {
                    std::string n = "user" + std::to_string(g.range(0, many ? 30 : 3));
                    if (custom.count(n)) {
                        // registered again before anything of it was reserved: the later one counts
                        bool reserved = false;
                        for (auto &i : index) if (i.first.compare(0, n.size() + 1, n + "/") == 0) reserved = true;
                        if (reserved || closed) continue;
                        for (auto it = names.begin(); it != names.end();) it = it->compare(0, n.size() + 1, n + "/") == 0 ? names.erase(it) : it + 1;
                        trace += "again ";
                        vf::count("tables registered again");
                    }
                    std::size_t c = g.range(1, 3), r = g.range(1, 6), s = g.range(1, 3);
                    std::vector<std::vector<V>> d(c, std::vector<V>(r));
                    for (auto &col : d) for (auto &v : col) v = V(g.range(0, 1000));
                    custom[n] = std::make_shared<custom_table<F>>(n, d, s);
                    bp.register_lookup_table(custom[n]);
                    for (std::size_t i = 0; i < s; i++) names.push_back(n + "/" + custom_table<F>::part(i));
                    trace += "register " + n + "; ";
                    vf::count("registrations");
                } else if (op <= 8) {
                    if (closed) continue;
                    std::string n = "dyn" + std::to_string(g.range(0, many ? 30 : 3));
                    if (dynamic.count(n)) continue;    // reserving a dynamic table twice is a caller's error
                    trace += "reserve dynamic " + n + "; ";
                    bp.reserve_dynamic_table(n);
                    dynamic.insert(n);
                    index.insert({n, index.size() + 1});
                    vf::count("dynamic reservations");
                } else if (op == 9) {
                    std::vector<std::string> open;
                    for (auto &d : dynamic) if (!defined.count(d)) open.push_back(d);
                    if (open.empty()) continue;
                    std::string n = g.pick(open);
                    std::size_t tag = g.range(0, 40);
                    snark::plonk_lookup_table<F> t(1, tag);
                    t.append_option(std::vector<var>{var(std::size_t(tag % 3), 0, true, var::column_type::witness)});
                    trace += std::string("define ") + n + (closed ? " after the tables were read; " : "; ");
                    bp.define_dynamic_table(n, t);
                    defined[n] = tag;
                    vf::count(closed ? "dynamic definitions after reading" : "dynamic definitions");
                } else if (op == 10 && g.chance(1, 3)) {
                    trace += "read tables; ";
                    bp.get_reserved_tables();
                    closed = true;
                } else check_indices("indices");
            }
            check_indices("final indices");
            const auto &tables = bp.get_reserved_tables();
            const auto &dyn = bp.get_reserved_dynamic_tables();
            std::map<std::string, std::set<std::string>> want;
            for (auto &i : index) if (!dynamic.count(i.first)) want[i.first.substr(0, i.first.find('/'))].insert(i.first.substr(i.first.find('/') + 1));
            vf::evaluated(trace + "tables");
            for (auto &w : want) {
                auto it = tables.find(w.first);
                if (it == tables.end()) { vf::violation("history:table-missing", trace + ": " + w.first); return; }
                for (auto &s : w.second) {
                    auto st = it->second->subtables.find(s);
                    if (st == it->second->subtables.end()) { vf::violation("history:subtable-missing", trace + ": " + w.first + "/" + s); return; }
                    if (custom.count(w.first)) {
                        auto &c = custom[w.first];
                        auto &m = c->subtables[s];
                        if (st->second.begin != m.begin || st->second.end != m.end || st->second.column_indices != m.column_indices) vf::violation("history:subtable-changed", trace + ": " + w.first + "/" + s);
                    }
                }
                if (it->second->subtables.size() != w.second.size()) vf::violation("history:subtable-extra", trace + ": " + w.first + " offers parts nobody reserved");
                if (custom.count(w.first) && it->second->get_table() != custom[w.first]->data) vf::violation("history:content", trace + ": " + w.first + " does not hold what was registered");
                vf::count("reserved tables read back");
            }
            if (tables.size() != want.size()) vf::violation("history:table-extra", trace + ": " + std::to_string(tables.size()) + " tables offered, " + std::to_string(want.size()) + " reserved");
            if (dyn.size() != dynamic.size()) vf::violation("history:dynamic-count", trace + ": " + std::to_string(dyn.size()) + " dynamic tables, " + std::to_string(dynamic.size()) + " reserved");
            for (auto &d : dynamic) {
                auto it = dyn.find(d);
                if (it == dyn.end()) { vf::violation("history:dynamic-missing", trace + ": " + d); continue; }
                bool def = it->second->is_defined();
                vf::evaluated(trace + d);
                if (def != (defined.count(d) > 0)) vf::violation("history:dynamic-definition", trace + ": " + d + (def ? " is defined though nobody did" : " lost its definition"));
                else if (def && it->second->lookup_table.tag_index != defined[d]) vf::violation("history:dynamic-tag", trace + ": " + d);
                if (defined.count(d) && bp.get_dynamic_table_definition(d)->lookup_table.tag_index != defined[d]) vf::violation("history:dynamic-tag", trace + ": " + d);
            }
            vf::sample(trace.substr(0, 300));
        });
        vf::run_case("misuse/" + id, "misuse", [&] {
            auto g = vf::case_rng("misuse" + id);
            circuit_t<F> bp;
            std::string good = g.pick(known), bad;
            unsigned kind = unsigned(g.range(0, 3));
            if (g.chance(1, 2)) bp.reserve_table(good);
            if (kind == 0) bad = "no_such_table/full";
            else if (kind == 1) bad = good.substr(0, good.find('/')) + "/no_such_part";
            else if (kind == 2) { bp.get_reserved_tables(); bad = g.pick(known); }
            else bad = good.substr(0, good.find('/'));
            bool refused = false;
            try { bp.reserve_table(bad); } catch (const std::exception &) { refused = true; }
            vf::evaluated("misuse " + bad + std::to_string(kind));
            vf::count("refused reservations");
            if (!refused) vf::violation("misuse:" + std::to_string(kind), "reserving " + bad + (kind == 2 ? " after the tables were read" : "") + " was accepted");
        });
    }
}

int main() {
    vf::init();
    if (vf::st().prop != "C17") {
        contents<fields::pallas_base_field>("pallas", false);
        contents<fields::bls12_scalar_field<381>>("bls12-381 fr", true);
    }
    if (vf::st().prop != "C08") {
        histories<fields::pallas_base_field>("pallas");
    }
    return vf::finish();
}
