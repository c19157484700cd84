// Generators of constraints and small lookup tables.
#pragma once
#include "oracle.hpp"

namespace vf {
template<typename F>
struct gen {
    using V = value_t<F>;
    using var = var_t<F>;
    using ex = nil::crypto3::math::expression<var>;
    rng &g;
    std::size_t W, C;
    int lo = -1, hi = 1;
    std::size_t S = 0;    // selector columns that may be read
    V small() {
        switch (g.range(0, 5)) {
            case 0: return V(0);
            case 1: return V(1);
            case 2: return -V(g.range(1, 3));
            case 3: return V(g.next()) * V(g.next()) * V(g.next());
            default: return V(g.range(0, 9));
        }
    }
    var variable() {
        int rot = int(g.range(0, hi - lo)) + lo;
        if (S && g.chance(1, 4)) return var(g.range(0, S - 1), rot, true, var::column_type::selector);
        if (C && g.chance(1, 4)) return var(g.range(0, C - 1), rot, true, var::column_type::constant);
        return var(g.range(0, W - 1), rot, true, var::column_type::witness);
    }
    ex expr(unsigned depth) {
        if (depth == 0 || g.chance(1, 5)) {
            if (g.chance(1, 5)) return ex(small());
            return ex(variable());
        }
        switch (g.range(0, 4)) {
            case 0: return expr(depth - 1) + expr(depth - 1);
            case 1: return expr(depth - 1) - expr(depth - 1);
            case 2: return expr(depth - 1) * expr(depth - 1);
            case 3: return expr(depth - 1).pow(int(g.range(1, 3)));
            default: return -expr(depth - 1);
        }
    }
    // the same polynomial, written differently
    ex rewrite(const ex &e) {
        switch (g.range(0, 6)) {
            case 0: return e + ex(V(0));
            case 1: { ex r = ex(variable()); return (e + r) - r; }
            case 2: return -(-e);
            case 3: return ex(V(1)) * e;
            case 4: { ex r = ex(variable()); return r - (r - e); }
            case 5: { V k = V(g.range(2, 50)); return ex(k) * (ex(k.inversed()) * e); }
            default: return e;
        }
    }
    // a polynomial that differs in one detail
    ex nudge(const ex &e) {
        switch (g.range(0, 3)) {
            case 0: return e + ex(V(g.range(1, 5)));
            case 1: return e + ex(variable());
            case 2: return e * ex(V(g.range(2, 3)));
            default: return e + ex(variable()) * ex(variable());
        }
    }
};

template<typename F>
struct small_table : snark::lookup_table_definition<F> {
    std::vector<std::vector<value_t<F>>> data;
    small_table(const std::string &n, std::vector<std::vector<value_t<F>>> d) : snark::lookup_table_definition<F>(n), data(d) {}
    void generate() override { this->_table = data; }
    std::size_t get_columns_number() override { return data.size(); }
    std::size_t get_rows_number() override { return data[0].size(); }
};
}    // namespace vf
