// An independent judge of circuits: which constraints does a table break?
#pragma once
#include "vf.hpp"
#include <vshim/all.hpp>
#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>
#include <unordered_map>
#include <unordered_set>

namespace vf {
namespace snark = nil::crypto3::zk::snark;

template<typename F> using value_t = typename F::value_type;
template<typename F> using var_t = snark::plonk_variable<value_t<F>>;
template<typename F> using system_t = snark::plonk_constraint_system<F>;
template<typename F> using circuit_t = nil::blueprint::circuit<system_t<F>>;
template<typename F> using assignment_t = nil::blueprint::assignment<system_t<F>>;
template<typename F> using constraint_t = snark::plonk_constraint<F>;

template<typename V> std::string show(const V &v) {
    std::ostringstream o;
    o << v;
    return o.str();
}

// A plain copy of all columns; missing cells read as zero.
template<typename F>
struct grid {
    using V = value_t<F>;
    using var = var_t<F>;
    std::vector<std::vector<V>> w, p, c, s, sh;
    explicit grid(const assignment_t<F> &a) {
        auto take = [](auto &dst, std::size_t n, auto col) {
            dst.resize(n);
            for (std::size_t i = 0; i < n; i++) { const auto &src = col(i); dst[i].assign(src.begin(), src.end()); }
        };
        take(w, a.witnesses_amount(), [&](std::size_t i) -> const auto & { return a.witness(i); });
        take(p, a.public_inputs_amount(), [&](std::size_t i) -> const auto & { return a.public_input(i); });
        take(c, a.constants_amount(), [&](std::size_t i) -> const auto & { return a.constant(i); });
        take(s, a.selectors_amount(), [&](std::size_t i) -> const auto & { return a.selector(i); });
        take(sh, a.shareds_amount(), [&](std::size_t i) -> const auto & { return a.shared(i); });
    }
    static V at(const std::vector<std::vector<V>> &t, std::size_t col, std::int64_t row) {
        if (col >= t.size()) throw std::out_of_range("column " + std::to_string(col) + " does not exist");
        if (row < 0 || std::size_t(row) >= t[col].size()) return V::zero();
        return t[col][row];
    }
    // value of a variable seen from a row (row is ignored for absolute variables)
    V get(const var &v, std::size_t row = 0) const {
        std::int64_t r = v.relative ? std::int64_t(row) + v.rotation : std::int64_t(v.rotation);
        switch (v.type) {
            case var::column_type::witness: return at(w, v.index, r);
            case var::column_type::public_input: return v.index == 0 ? at(p, 0, r) : at(sh, v.index - 1, r);
            case var::column_type::constant: return at(c, v.index, r);
            case var::column_type::selector: return at(s, v.index, r);
            default: throw std::logic_error("uninitialized variable in a constraint");
        }
    }
    std::size_t rows() const {
        std::size_t n = 0;
        for (auto *t : {&w, &p, &c, &s}) for (auto &x : *t) n = std::max(n, x.size());
        return n;
    }
};

// Walks an expression tree; `leaf` gives the value of a variable.
template<typename F, typename L>
value_t<F> eval(const nil::crypto3::math::expression<var_t<F>> &e, const L &leaf) {
    using namespace nil::crypto3::math;
    using V = value_t<F>;
    if (auto *t = boost::get<term<var_t<F>>>(&e.get_expr())) {
        V r = t->get_coeff();
        for (auto &v : t->get_vars()) r = r * leaf(v);
        return r;
    }
    if (auto *p = boost::get<pow_operation<var_t<F>>>(&e.get_expr())) {
        V b = eval<F>(p->get_expr(), leaf), r = V::one();
        for (int i = 0; i < p->get_power(); i++) r = r * b;
        return r;
    }
    auto *b = boost::get<binary_arithmetic_operation<var_t<F>>>(&e.get_expr());
    V l = eval<F>(b->get_expr_left(), leaf), r = eval<F>(b->get_expr_right(), leaf);
    switch (b->get_op()) {
        case ArithmeticOperator::ADD: return l + r;
        case ArithmeticOperator::SUB: return l - r;
        default: return l * r;
    }
}
template<typename F, typename L>
void each_var(const nil::crypto3::math::expression<var_t<F>> &e, const L &f) {
    using namespace nil::crypto3::math;
    if (auto *t = boost::get<term<var_t<F>>>(&e.get_expr())) { for (auto &v : t->get_vars()) f(v); return; }
    if (auto *p = boost::get<pow_operation<var_t<F>>>(&e.get_expr())) { each_var<F>(p->get_expr(), f); return; }
    auto *b = boost::get<binary_arithmetic_operation<var_t<F>>>(&e.get_expr());
    each_var<F>(b->get_expr_left(), f);
    each_var<F>(b->get_expr_right(), f);
}

template<typename F>
std::uint64_t row_hash(const std::vector<value_t<F>> &row) {
    std::uint64_t h = 0x51ed270b;
    for (auto &v : row) {
        auto l = v.data.canon();
        for (auto x : l.v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
    }
    return h;
}

// Fingerprints in increasing order: some tables have millions of rows.
struct fingerprints {
    std::vector<std::uint64_t> all;
    bool sorted = true;
    void insert(std::uint64_t x) { all.push_back(x); sorted = false; }
    std::size_t count(std::uint64_t x) {
        if (!sorted) { std::sort(all.begin(), all.end()); sorted = true; }
        return std::binary_search(all.begin(), all.end(), x);
    }
};

// The rows a lookup may hit, by fingerprint (64 bits; a collision could only hide a violation).
template<typename F>
struct lookup_rows {
    std::map<std::size_t, fingerprints> by_id;
    std::map<std::size_t, std::size_t> width;
    static std::map<std::string, std::pair<std::size_t, std::shared_ptr<fingerprints>>> &cache() {
        static std::map<std::string, std::pair<std::size_t, std::shared_ptr<fingerprints>>> c;
        return c;
    }
    std::map<std::size_t, std::shared_ptr<fingerprints>> shared;
    // `cacheable`: library tables never change between circuits
    fingerprints &rows(const circuit_t<F> &bp, const grid<F> &g, std::size_t id, bool cacheable) {
        auto s = shared.find(id);
        if (s != shared.end()) return *s->second;
        auto it = by_id.find(id);
        if (it != by_id.end()) return it->second;
        std::string name = bp.get_reserved_indices_right().at(id);
        const auto &dyn = bp.get_reserved_dynamic_tables();
        if (dyn.count(name)) {
            auto &out = by_id[id];
            const auto &t = dyn.at(name)->lookup_table;
            width[id] = t.columns_number;
            for (std::size_t r = 0; r < g.s.at(t.tag_index).size(); r++) {
                if (g.s[t.tag_index][r].is_zero()) continue;
                for (auto &option : t.lookup_options) {
                    std::vector<value_t<F>> row;
                    for (auto &e : option) row.push_back(eval<F>(e, [&](const var_t<F> &v) { return g.get(v, r); }));
                    out.insert(row_hash<F>(row));
                }
            }
            return out;
        }
        if (cacheable && cache().count(name)) {
            width[id] = cache()[name].first;
            return *(shared[id] = cache()[name].second);
        }
        auto def = bp.get_reserved_tables().at(name.substr(0, name.find('/')));
        const auto &sub = def->subtables.at(name.substr(name.find('/') + 1));
        auto out = std::make_shared<fingerprints>();
        const auto &table = def->get_table();
        out->all.reserve(sub.end - sub.begin + 1);
        std::vector<value_t<F>> row(sub.column_indices.size());
        for (std::size_t r = sub.begin; r <= sub.end; r++) {
            for (std::size_t i = 0; i < row.size(); i++) row[i] = table.at(sub.column_indices[i]).at(r);
            out->insert(row_hash<F>(row));
        }
        width[id] = sub.column_indices.size();
        if (cacheable) cache()[name] = {width[id], out};
        return *(shared[id] = out);
    }
};

struct broken {
    enum kind_t { gate, lookup, copy } kind;
    std::size_t index, row, constraint;
    std::string str() const {
        static const char *n[] = {"gate ", "lookup gate ", "copy constraint "};
        return n[kind] + std::to_string(index) + (kind == copy ? "" : " constraint " + std::to_string(constraint) + " on row " + std::to_string(row));
    }
};

struct judge_options {
    bool cacheable = true;
    std::size_t limit = 1;    // how many broken constraints to collect
    const std::set<std::uint32_t> *gates = nullptr, *lookup_gates = nullptr, *copies = nullptr, *rows = nullptr;
};

template<typename F>
std::vector<broken> judge(const circuit_t<F> &bp, const grid<F> &g, const judge_options &o = {}, lookup_rows<F> *tables = nullptr) {
    std::vector<broken> out;
    lookup_rows<F> own;
    if (!tables) tables = &own;
    const auto &gates = bp.gates();
    for (std::size_t i = 0; i < gates.size(); i++) {
        if (o.gates && !o.gates->count(i)) continue;
        const auto &sel = g.s.at(gates[i].selector_index);
        for (std::size_t r = 0; r < sel.size(); r++) {
            if (sel[r].is_zero() || (o.rows && !o.rows->count(r))) continue;
            for (std::size_t k = 0; k < gates[i].constraints.size(); k++) {
                if (!eval<F>(gates[i].constraints[k], [&](const var_t<F> &v) { return g.get(v, r); }).is_zero()) {
                    out.push_back({broken::gate, i, r, k});
                    if (out.size() >= o.limit) return out;
                }
            }
        }
    }
    const auto &lookups = bp.lookup_gates();
    for (std::size_t i = 0; i < lookups.size(); i++) {
        if (o.lookup_gates && !o.lookup_gates->count(i)) continue;
        const auto &sel = g.s.at(lookups[i].tag_index);
        for (std::size_t r = 0; r < sel.size(); r++) {
            if (sel[r].is_zero() || (o.rows && !o.rows->count(r))) continue;
            for (std::size_t k = 0; k < lookups[i].constraints.size(); k++) {
                const auto &lc = lookups[i].constraints[k];
                std::vector<value_t<F>> row;
                for (auto &e : lc.lookup_input) row.push_back(eval<F>(e, [&](const var_t<F> &v) { return g.get(v, r); }));
                if (!tables->rows(bp, g, lc.table_id, o.cacheable).count(row_hash<F>(row))) {
                    out.push_back({broken::lookup, i, r, k});
                    if (out.size() >= o.limit) return out;
                }
            }
        }
    }
    const auto &copies = bp.copy_constraints();
    for (std::size_t i = 0; i < copies.size(); i++) {
        if (o.copies && !o.copies->count(i)) continue;
        if (g.get(copies[i].first) != g.get(copies[i].second)) {
            out.push_back({broken::copy, i, 0, 0});
            if (out.size() >= o.limit) return out;
        }
    }
    return out;
}

// Small canonical polynomials: equality of expressions decided exactly.
template<typename F>
struct poly {
    using monomial = std::vector<std::tuple<std::size_t, std::int32_t, int, bool>>;
    std::map<monomial, value_t<F>> m;
    void add(const monomial &k, const value_t<F> &v) {
        auto it = m.find(k);
        if (it == m.end()) { if (!v.is_zero()) m[k] = v; return; }
        it->second = it->second + v;
        if (it->second.is_zero()) m.erase(it);
    }
    bool operator==(const poly &o) const { return m == o.m; }
    bool operator<(const poly &o) const {
        return std::lexicographical_compare(m.begin(), m.end(), o.m.begin(), o.m.end(), [](const auto &a, const auto &b) {
            if (a.first != b.first) return a.first < b.first;
            return a.second < b.second;
        });
    }
    poly operator*(const poly &o) const {
        poly r;
        for (auto &a : m) for (auto &b : o.m) {
            monomial k = a.first;
            k.insert(k.end(), b.first.begin(), b.first.end());
            std::sort(k.begin(), k.end());
            r.add(k, a.second * b.second);
        }
        return r;
    }
    poly plus(const poly &o, const value_t<F> &f) const {
        poly r = *this;
        for (auto &b : o.m) r.add(b.first, b.second * f);
        return r;
    }
    static poly of(const nil::crypto3::math::expression<var_t<F>> &e) {
        using namespace nil::crypto3::math;
        using V = value_t<F>;
        if (auto *t = boost::get<term<var_t<F>>>(&e.get_expr())) {
            monomial k;
            for (auto &v : t->get_vars()) k.emplace_back(v.index, v.rotation, int(v.type), v.relative);
            std::sort(k.begin(), k.end());
            poly r;
            r.add(k, t->get_coeff());
            return r;
        }
        if (auto *p = boost::get<pow_operation<var_t<F>>>(&e.get_expr())) {
            poly b = of(p->get_expr()), r;
            r.add({}, V::one());
            for (int i = 0; i < p->get_power(); i++) r = r * b;
            return r;
        }
        auto *b = boost::get<binary_arithmetic_operation<var_t<F>>>(&e.get_expr());
        poly l = of(b->get_expr_left()), r = of(b->get_expr_right());
        switch (b->get_op()) {
            case ArithmeticOperator::ADD: return l.plus(r, V::one());
            case ArithmeticOperator::SUB: return l.plus(r, -V::one());
            default: return l * r;
        }
    }
};
}    // namespace vf
