// A dishonest prover: given a circuit, a table and some cells that must keep the values it
// is told, it tries to change the other witness cells until every constraint holds.
// Whatever it finds is judged by the caller, so a success is never a false claim.
#pragma once
#include "oracle.hpp"
#include <optional>

namespace vf {

// The cells of a table joined by its copy constraints.
template<typename F>
struct cells {
    using var = var_t<F>;
    using key = std::tuple<int, std::size_t, std::int64_t>;    // column type, column, row
    std::map<key, std::size_t> id;
    std::vector<std::size_t> up;
    std::vector<key> where;
    static key of(const var &v, std::size_t row) { return {int(v.type), v.index, v.relative ? std::int64_t(row) + v.rotation : std::int64_t(v.rotation)}; }
    std::size_t get(const key &k) {
        auto it = id.find(k);
        if (it != id.end()) return it->second;
        up.push_back(up.size());
        where.push_back(k);
        return id[k] = up.size() - 1;
    }
    std::size_t root(std::size_t x) { while (up[x] != x) x = up[x] = up[up[x]]; return x; }
    std::size_t of_var(const var &v, std::size_t row = 0) { return root(get(of(v, row))); }
    void join(const circuit_t<F> &bp) {
        for (auto &c : bp.copy_constraints()) { auto a = of_var(c.first), b = of_var(c.second); up[a] = b; }
    }
};

template<typename F>
struct forger {
    using V = value_t<F>;
    using var = var_t<F>;
    using ex = nil::crypto3::math::expression<var>;
    using big = boost::multiprecision::cpp_int;
    const circuit_t<F> &bp;
    const grid<F> &start;
    cells<F> cs;
    struct instance {
        const ex *e = nullptr;
        const snark::plonk_lookup_constraint<F> *l = nullptr;
        std::size_t row;
        std::map<var, std::size_t> at;
        std::vector<std::size_t> touched;
    };
    std::vector<instance> all;
    std::vector<V> value;
    std::vector<bool> locked;
    std::vector<std::vector<std::size_t>> uses;
    std::vector<int> digit;          // how many values 0..digit-1 a cell may take, 0 = any
    bool possible = true;            // two fixed cells tied to each other may contradict
    lookup_rows<F> tables;

    forger(const circuit_t<F> &b, const grid<F> &g) : bp(b), start(g) {
        cs.join(bp);
        auto each = [&](auto &sel, auto f) { for (std::size_t r = 0; r < sel.size(); r++) if (!sel[r].is_zero()) f(r); };
        for (auto &x : bp.gates()) each(g.s.at(x.selector_index), [&](std::size_t r) { for (auto &c : x.constraints) { instance i; i.e = &c; i.row = r; add(i); } });
        for (auto &x : bp.lookup_gates()) each(g.s.at(x.tag_index), [&](std::size_t r) { for (auto &c : x.constraints) { instance i; i.l = &c; i.row = r; add(i); } });
        std::size_t n = cs.up.size();
        value.assign(n, V::zero());
        locked.assign(n, false);
        std::vector<bool> set(n, false);
        for (std::size_t i = 0; i < n; i++) {
            auto [t, c, r] = cs.where[i];
            V v = cell(g, cs.where[i]);
            std::size_t k = cs.root(i);
            if (t != int(var::column_type::witness)) {
                if (locked[k] && value[k] != v) possible = false;
                value[k] = v;
                locked[k] = true;
            } else if (!set[k] && !locked[k]) value[k] = v;
            set[k] = true;
        }
        uses.resize(n);
        for (std::size_t i = 0; i < all.size(); i++) for (auto c : all[i].touched) uses[c].push_back(i);
        digit.assign(n, 0);
        for (auto &i : all) if (i.e && i.touched.size() == 1) digit[i.touched[0]] = std::max(digit[i.touched[0]], digits(i));
    }
    static V cell(const grid<F> &g, const typename cells<F>::key &k) {
        auto [t, c, r] = k;
        return g.get(var(c, std::int32_t(r), false, typename var::column_type(t)));
    }
    void add(instance &i) {
        auto note = [&](const var &v) { i.at[v] = cs.of_var(v, i.row); };
        if (i.e) each_var<F>(*i.e, note); else for (auto &e : i.l->lookup_input) each_var<F>(e, note);
        std::set<std::size_t> s;
        for (auto &x : i.at) s.insert(x.second);
        i.touched.assign(s.begin(), s.end());
        all.push_back(i);
    }
    V eval_at(const instance &i, const ex &e) const { return eval<F>(e, [&](const var &v) { return value[i.at.at(v)]; }); }
    // the roots of a constraint on one cell, if they are 0, 1, ..., n - 1
    int digits(const instance &i) {
        std::size_t c = i.touched[0];
        V keep = value[c];
        int n = 0;
        while (n <= 16) { value[c] = V(n); if (!eval_at(i, *i.e).is_zero()) break; n++; }
        value[c] = keep;
        return n > 16 ? 0 : n;
    }
    bool broken(const instance &i) {
        if (i.e) return !eval_at(i, *i.e).is_zero();
        std::vector<V> row;
        for (auto &e : i.l->lookup_input) row.push_back(eval_at(i, e));
        return !tables.rows(bp, start, i.l->table_id, true).count(row_hash<F>(row));
    }
    static big integer(const V &v) {
        auto c = v.data.canon();
        big r = 0;
        for (int k = int(sizeof(c.v) / 8) - 1; k >= 0; k--) r = (r << 64) | c.v[k];
        return r;
    }
    static V element(big b) {
        V r = V::zero();
        std::vector<std::uint64_t> l;
        while (b != 0) { l.push_back(std::uint64_t(b & ~std::uint64_t(0))); b >>= 64; }
        V s = V(std::uint64_t(1) << 32) * V(std::uint64_t(1) << 32);
        for (std::size_t k = l.size(); k-- > 0;) r = r * s + V(l[k]);
        return r;
    }
    void fix(const var &v, const V &x) {
        std::size_t c = cs.id.count(cells<F>::of(v, 0)) ? cs.of_var(v) : ~std::size_t(0);
        if (c == ~std::size_t(0)) { return; }
        if (c >= value.size()) return;
        if (locked[c] && value[c] != x) possible = false;
        value[c] = x;
        locked[c] = true;
    }
    bool known(const var &v) { return cs.id.count(cells<F>::of(v, 0)) && cs.of_var(v) < value.size(); }

    // One attempt; returns the forged table.
    std::optional<grid<F>> attempt(rng &g, std::size_t steps) {
        if (!possible) return std::nullopt;
        auto keep_v = value;
        auto keep_l = locked;
        std::set<std::size_t> bad;
        for (std::size_t i = 0; i < all.size(); i++) if (broken(all[i])) bad.insert(i);
        std::optional<grid<F>> out;
        auto set = [&](std::size_t c, const V &v) {
            value[c] = v;
            locked[c] = true;
            for (auto u : uses[c]) { if (broken(all[u])) bad.insert(u); else bad.erase(u); }
        };
        for (std::size_t s = 0; s < steps && !bad.empty(); s++) {
            // prefer the constraints with the fewest choices
            std::size_t best = *bad.begin(), n = ~std::size_t(0), pass = g.range(0, 3);
            for (auto b : bad) {
                std::size_t k = 0;
                for (auto c : all[b].touched) k += !locked[c];
                k = k * 4 + (pass ? g.range(0, 3) : 0);
                if (k < n) { n = k; best = b; }
            }
            if (!repair(all[best], g, set)) break;
        }
        if (bad.empty()) {
            out = start;
            for (std::size_t i = 0; i < value.size(); i++) {
                auto [t, c, r] = cs.where[i];
                if (t != int(var::column_type::witness) || r < 0) continue;
                auto &col = out->w.at(c);
                if (std::int64_t(col.size()) <= r) col.resize(r + 1, V::zero());
                col[r] = value[cs.root(i)];
            }
        }
        value = keep_v;
        locked = keep_l;
        return out;
    }
    template<typename Set>
    bool repair(const instance &i, rng &g, const Set &set) {
        std::vector<std::size_t> open;
        for (auto c : i.touched) if (!locked[c]) open.push_back(c);
        if (open.empty()) return false;
        for (std::size_t k = open.size(); k > 1; k--) std::swap(open[k - 1], open[g.range(0, k - 1)]);
        if (i.l) {
            // move one open cell to a small value that hits the table
            for (auto c : open) {
                V keep = value[c];
                for (int t = 0; t < 300; t++) { value[c] = V(t); if (!broken(i)) { set(c, V(t)); return true; } }
                value[c] = keep;
            }
            return false;
        }
        // coefficients of the open cells, if the constraint is linear in all of them at once
        auto f = [&] { return eval_at(i, *i.e); };
        std::map<std::size_t, V> coef;
        {
            std::vector<V> keep;
            for (auto c : open) keep.push_back(value[c]);
            for (auto c : open) value[c] = V::zero();
            V zero = f();
            bool linear = true;
            for (auto c : open) { value[c] = V::one(); V one = f(); coef[c] = one - zero; value[c] = V(5); if (f() != zero + V(5) * coef[c]) linear = false; value[c] = V::zero(); }
            V sum = zero, r = zero;
            std::uint64_t x = 3;
            for (auto c : open) { value[c] = V(x); sum = sum + V(x) * coef[c]; x = x * 7 + 1; }
            if (f() != sum) linear = false;
            for (std::size_t k = 0; k < open.size(); k++) value[open[k]] = keep[k];
            if (!linear) coef.clear();
            else if (open.size() > 1) {
                std::vector<std::size_t> small, wide;
                for (auto c : open) if (!coef[c].is_zero()) (digit[c] > 1 ? small : wide).push_back(c);
                if (small.size() >= 1 && wide.size() <= 1 && radix(small, wide, coef, zero, set)) return true;
            }
        }
        for (auto c : open) {
            V keep = value[c];
            value[c] = V::zero(); V a = f();
            value[c] = V::one(); V b = f();
            value[c] = V(7); V d = f();
            value[c] = keep;
            if (a + V(7) * (b - a) == d && !(b - a).is_zero()) { V x = -a * (b - a).inversed(); if (digit[c] > 1 && integer(x) >= digit[c] && g.chance(3, 4)) continue; set(c, x); return true; }
            for (int t = 0; t < 17; t++) { value[c] = V(t); bool ok = f().is_zero(); value[c] = keep; if (ok) { set(c, V(t)); return true; } }
        }
        return false;
    }
    // writes the wanted sum in the digits the cells may take; one cell may take the rest
    template<typename Set>
    bool radix(const std::vector<std::size_t> &small, const std::vector<std::size_t> &wide, std::map<std::size_t, V> &coef, const V &zero, const Set &set) {
        for (int sign = 0; sign < 2; sign++) for (auto unit : small) {
            V inv = coef[unit].inversed();
            if (sign) inv = inv;    // both signs are covered by the choice of the unit below
            std::vector<std::pair<big, std::size_t>> w;
            bool ok = true;
            for (auto c : small) { big b = integer(coef[c] * inv); if (b > (big(1) << 260)) ok = false; w.push_back({b, c}); }
            std::sort(w.begin(), w.end());
            if (w[0].first != 1) continue;
            big span = 1;
            for (auto &x : w) { if (x.first != span) ok = false; span = x.first * digit[x.second]; }
            if (!ok) continue;
            V target = -zero * inv;    // sum of weight * digit must be this
            big t = integer(target), rest = 0;
            if (!wide.empty()) {
                V u = coef[wide[0]] * inv;
                big b = integer(u), nb = integer(-u);
                if (b == span) { rest = t / span; t = t % span; }
                else if (nb < (big(1) << 250) && b > nb) {
                    // the wide cell is the sum itself: take what the digits say now
                    continue;
                } else continue;
            } else if (t >= span) continue;
            for (auto &x : w) { big d = t % digit[x.second]; t /= digit[x.second]; set(x.second, V(std::uint64_t(d))); }
            if (!wide.empty()) set(wide[0], element(rest));
            return true;
        }
        return false;
    }
};

// Tries to make `targets` true while `fixed` keep their values. Returns true if a table was
// found that the judge accepts.
template<typename F>
bool forge(const circuit_t<F> &bp, const grid<F> &g, const std::vector<std::pair<var_t<F>, value_t<F>>> &fixed, rng &r, std::size_t tries, grid<F> *found = nullptr) {
    forger<F> f(bp, g);
    for (auto &x : fixed) f.fix(x.first, x.second);
    if (!f.possible) return false;
    for (std::size_t t = 0; t < tries; t++) {
        auto h = f.attempt(r, 4000);
        if (!h) continue;
        // cells outside every constraint are not the forger's to move
        for (auto &x : fixed) if (x.first.type == var_t<F>::column_type::witness) {
            auto &col = h->w.at(x.first.index);
            if (col.size() <= std::size_t(x.first.rotation)) col.resize(x.first.rotation + 1, value_t<F>::zero());
            col[x.first.rotation] = x.second;
        }
        if (judge<F>(bp, *h).empty()) { if (found) *found = *h; return true; }
    }
    return false;
}
}    // namespace vf
