// The zkEVM part: traces of executed operations, the selector and the step
// rules they rest on, words and the stack, and the table of contract code.
#include "oracle.hpp"
namespace boost {
    // one assertion of the sources gives a truth value as its message
    inline void assertion_failed_msg(char const *expr, bool, char const *function, char const *file, long line) { assertion_failed(expr, function, file, line); }
}
#include "comp.hpp"
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/blueprint/zkevm/zkevm_circuit.hpp>
#include <nil/blueprint/zkevm/bytecode.hpp>

namespace bp = nil::blueprint;
namespace bc = nil::blueprint::components;
using namespace vf;
using F = nil::crypto3::algebra::curves::alt_bn128<254>::base_field_type;
using goldi = nil::crypto3::algebra::fields::goldilocks64;
using pallas = nil::crypto3::algebra::fields::pallas_base_field;
template<typename X> using cs = nil::crypto3::zk::snark::plonk_constraint_system<X>;
using V = value_t<F>;

namespace {
// 256-bit words as sixteen chunks of sixteen bits, computed by hand
using word = std::array<std::uint32_t, 16>;
using integral = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>>;

word wadd(const word &a, const word &b) {
    word r; std::uint32_t c = 0;
    for (int i = 0; i < 16; i++) { c += a[i] + b[i]; r[i] = c & 0xffff; c >>= 16; }
    return r;
}
word wneg(const word &a) {
    word n, one{};
    for (int i = 0; i < 16; i++) n[i] = a[i] ^ 0xffff;
    one[0] = 1;
    return wadd(n, one);
}
word wmul(const word &a, const word &b) {
    word r{};
    for (int i = 0; i < 16; i++) {
        std::uint64_t c = 0;
        for (int j = 0; i + j < 16; j++) { c += std::uint64_t(a[i]) * b[j] + r[i + j]; r[i + j] = c & 0xffff; c >>= 16; }
    }
    return r;
}
int wcmp(const word &a, const word &b) {
    for (int i = 15; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
bool wzero(const word &a) { return a == word{}; }
word wdiv(const word &a, const word &b, word *rem = nullptr) {
    word q{}, r{};
    if (wzero(b)) { if (rem) *rem = a; return q; }
    for (int k = 255; k >= 0; k--) {
        bool top = r[15] >> 15;
        r = wadd(r, r);
        r[0] |= (a[k / 16] >> (k % 16)) & 1;
        if (top || wcmp(r, b) >= 0) { r = wadd(r, wneg(b)); q[k / 16] |= 1u << (k % 16); }
    }
    if (rem) *rem = r;
    return q;
}
word wany(rng &g) {
    word w{};
    switch (g.range(0, 7)) {
        case 0: break;
        case 1: w[0] = g.range(0, 3); break;
        case 2: w.fill(0xffff); break;
        case 3: w[g.range(0, 15)] = 1u << g.range(0, 15); break;
        case 4: { int n = g.range(1, 16); for (int i = 0; i < n; i++) w[i] = g.range(0, 0xffff); break; }
        case 5: for (auto &c : w) c = g.chance(1, 2) ? 0 : g.chance(1, 2) ? 0xffff : g.range(0, 0xffff); break;
        case 6: { w[g.range(0, 15)] = 1u << g.range(0, 15); word one{}; one[0] = 1; w = wadd(w, wneg(one)); break; }
        default: for (auto &c : w) c = g.range(0, 0xffff);
    }
    return w;
}
bp::zkevm_word_type to_evm(const word &w) {
    integral n = 0u;
    for (int i = 15; i >= 0; i--) { n <<= 16; n += integral(std::uint64_t(w[i])); }
    return bp::zwordc(n);
}
word of_evm(const bp::zkevm_word_type &x) {
    word w;
    integral n = integral(x);
    for (int i = 0; i < 16; i++) { w[i] = std::uint32_t(static_cast<std::uint64_t>(n & integral(0xffffu))); n >>= 16; }
    return w;
}
std::string text(const word &w) {
    std::string s;
    char b[8];
    for (int i = 15; i >= 0; i--) { std::snprintf(b, sizeof b, "%04x", w[i]); s += b; }
    auto p = s.find_first_not_of('0');
    return "0x" + (p == std::string::npos ? "0" : s.substr(p));
}

// ---------------------------------------------------------------- traces
#if PART == 1
struct step { bp::zkevm_opcode op; word a, b; std::size_t row, height; std::array<V, 4> kept; };

const char *op_name(bp::zkevm_opcode o) {
    switch (o) {
        case bp::zkevm_opcode::ISZERO: return "iszero";
        case bp::zkevm_opcode::ADD: return "add";
        case bp::zkevm_opcode::SUB: return "sub";
        case bp::zkevm_opcode::MUL: return "mul";
        default: return "div";
    }
}

word outcome(bp::zkevm_opcode op, const word &a, const word &b) {
    switch (op) {
        case bp::zkevm_opcode::ADD: return wadd(a, b);
        case bp::zkevm_opcode::SUB: return wadd(a, wneg(b));
        case bp::zkevm_opcode::MUL: return wmul(a, b);
        case bp::zkevm_opcode::DIV: return wdiv(a, b);
        default: return word{};
    }
}

// where a word appears, chunk after chunk, in the rows of an operation
std::vector<std::pair<std::size_t, std::size_t>> windows(const grid<F> &d, const std::vector<std::size_t> &cols, const step &s, const word &w) {
    std::vector<std::pair<std::size_t, std::size_t>> out;
    for (std::size_t r = s.row; r < s.row + s.height; r++) for (std::size_t c = 0; c + 16 <= cols.size(); c++) {
        bool same = true;
        for (int i = 0; i < 16 && same; i++) same = r < d.w[cols[c + i]].size() ? d.w[cols[c + i]][r] == V(w[i]) : w[i] == 0;
        if (same) out.push_back({r, c});
    }
    return out;
}

void traces(rng &g) {
    circuit_t<F> circ;
    // the trace must not depend on how large the table was when handed over
    std::size_t pre = g.chance(1, 2) ? 0 : g.range(1, 200);
    assignment_t<F> tab(pre, g.chance(1, 2) ? 0 : 1, g.chance(1, 2) ? 0 : 1, g.chance(1, 2) ? 0 : 5);
    std::size_t start = g.range(1, 4);
    bp::zkevm_circuit<F> z(tab, circ, start);
    bp::zkevm_machine_interface m;
    std::vector<step> steps;
    std::vector<word> below;
    for (std::size_t k = g.range(0, 2); k; k--) { below.push_back(wany(g)); m.stack.push(to_evm(below.back())); }
    bool lengthy = g.chance(1, 24);
    std::size_t n = lengthy ? g.range(12, 48) : g.range(1, 5);
    if (lengthy) count("long traces");
    std::vector<bp::zkevm_opcode> ops = {bp::zkevm_opcode::ISZERO, bp::zkevm_opcode::ADD, bp::zkevm_opcode::SUB, bp::zkevm_opcode::MUL, bp::zkevm_opcode::DIV};
    for (std::size_t k = 0; k < n; k++) {
        step s{g.pick(ops), wany(g), wany(g), z.get_current_row(), 0, {}};
        if (g.chance(1, 5)) s.b = s.a;
        if (s.op == bp::zkevm_opcode::DIV && g.chance(1, 2)) { for (int i = g.range(1, 15); i < 16; i++) s.b[i] = 0; }
        m.stack.push(to_evm(s.b));
        m.stack.push(to_evm(s.a));
        if (g.chance(1, 2)) { z.get_state().pc.value = V(g.next()); z.get_state().curr_gas.value = V(g.range(0, 1000)); z.get_state().stack_size.value = V(g.range(0, 5)); z.get_state().memory_size.value = V(g.range(0, 99)); }
        s.kept = {z.get_state().pc.value, z.get_state().stack_size.value, z.get_state().memory_size.value, z.get_state().curr_gas.value};
        z.assign_opcode(s.op, m);
        s.height = z.get_current_row() - s.row;
        word a = of_evm(m.stack.pop()), b = of_evm(m.stack.pop());
        if (a != s.a || b != s.b) { violation("evm-stack", std::string(op_name(s.op)) + " leaves " + text(a) + ", " + text(b) + " on the stack"); return; }
        steps.push_back(s);
    }
    for (std::size_t k = below.size(); k; k--)
        if (of_evm(m.stack.pop()) != below[k - 1]) { violation("evm-stack", "a word further down the stack has changed"); return; }
    g.chance(1, 2) ? z.finalize() : z.finalize_test();
    grid<F> done(tab);
    for (auto &c : done.w) if (c.size() < z.get_current_row()) c.resize(z.get_current_row(), V::zero());
    for (auto &s : steps) saw("operations", op_name(s.op));
    std::string shown;
    for (auto &s : steps) shown += std::string(op_name(s.op)) + " " + text(s.a) + " " + text(s.b) + "; ";
    evaluated("trace " + std::to_string(n) + " " + op_name(steps[0].op));
    judge_options jo;
    // only the rows around a changed one can be affected
    auto refused = [&](const grid<F> &h, std::size_t row) {
        std::set<std::uint32_t> rs;
        for (std::size_t r = row ? row - 1 : 0; r <= row + 1; r++) rs.insert(r);
        judge_options o;
        o.rows = &rs;
        return !judge<F>(circ, h, o).empty();
    };
    auto bad = judge<F>(circ, done);
    if (!bad.empty()) { violation("evm-honest", "an executed trace breaks " + bad[0].str() + ": " + shown); return; }
    count("traces satisfied");
    sample("trace from row " + std::to_string(start) + ": " + shown.substr(0, 200));
    const auto cols = z.get_opcode_cols();
    auto &st = z.get_state();
    for (std::size_t k = 0; k < steps.size(); k++) {
        const step &s = steps[k];
        word res = outcome(s.op, s.a, s.b);
        std::string what = std::string(op_name(s.op)) + " " + text(s.a) + " " + text(s.b);
        if (lengthy && k + 1 < steps.size() && !g.chance(2, steps.size())) {    // of a long trace the last step and two others are changed
            if (windows(done, cols, s, s.a).empty() || (s.op != bp::zkevm_opcode::ISZERO && (windows(done, cols, s, s.b).empty() || windows(done, cols, s, res).empty()))) { violation("evm-result", "an operand or the result does not appear in step " + std::to_string(k) + " of the trace: " + what); return; }
            continue;
        }
        if (s.op == bp::zkevm_opcode::ISZERO) {
            auto at = windows(done, cols, s, s.a);
            if (at.empty()) { violation("evm-result", "the operand does not appear in the trace: " + what); return; }
            // exactly the flag, its helper and the forced zeros are held
            V flag = wzero(s.a) ? V(1) : V::zero();
            std::size_t held = 0;
            std::vector<std::size_t> tight;
            for (std::size_t c = 0; c < cols.size(); c++) {
                bool chunk = false;
                for (auto &x : at) chunk = chunk || (x.first == s.row && !wzero(s.a) && c >= x.second && c < x.second + 16);
                if (chunk || (wzero(s.a) && c < 16)) continue;
                grid<F> h = done;
                h.w[cols[c]][s.row] = V(1) - h.w[cols[c]][s.row];
                if (refused(h, s.row)) { held += done.w[cols[c]][s.row] == flag; tight.push_back(c); }
            }
            if (!held) { violation("evm-loose", "the answer can be turned over: " + what); return; }
            for (auto c : tight) for (auto e : tight) if (c != e) {
                grid<F> h = done;
                h.w[cols[c]][s.row] = V(1) - h.w[cols[c]][s.row];
                h.w[cols[e]][s.row] = V::zero();
                if (!refused(h, s.row)) { violation("evm-loose", "the answer can be turned over together with its helper: " + what); return; }
            }
            count("answers held", tight.size());
        } else {
            std::vector<word> named = {s.a, s.b, res};
            for (std::size_t v = 0; v < 3; v++) {
                auto at = windows(done, cols, s, named[v]);
                if (at.empty()) { violation("evm-result", (v == 2 ? "the result " + text(res) : v == 1 ? std::string("the second operand") : std::string("the first operand")) + " does not appear in the trace: " + what); return; }
                if (wzero(named[v])) continue;
                // a place where every change giving another outcome is refused
                bool held = false;
                int open = 0;
                for (auto &x : at) {
                    bool all = true;
                    for (int i = 0; i < 16 && all; i++) for (int t = 0; t < 2 && all; t++) {
                        grid<F> h = done;
                        word other = named[v];
                        other[i] = t == 0 ? (other[i] + 1) & 0xffff : other[i] ^ (1u << g.range(0, 15));
                        if (v < 2 && outcome(s.op, v == 0 ? other : s.a, v == 1 ? other : s.b) == res) continue;
                        h.w[cols[x.second + i]][x.first] = V(other[i]);
                        all = refused(h, x.first);
                        if (!all) open = i;
                    }
                    if (all) { held = true; break; }
                }
                if (!held) { violation("evm-loose", "chunk " + std::to_string(open) + " of " + (v == 2 ? "the result" : v == 1 ? "the second operand" : "the first operand") + " can be changed: " + what); return; }
                count("words held");
            }
        }
        // another top chunk of a sum or difference, made up for by a carry that is no bit
        if (s.op == bp::zkevm_opcode::ADD || s.op == bp::zkevm_opcode::SUB) {
            V part = V(1 << 16).inversed();
            grid<F> h = done;
            for (auto &x : windows(done, cols, s, res)) {
                V &top = h.w[cols[x.second + 15]][x.first], honest = top;
                bool up = res[15] != 0xffff;
                top = up ? top + V(1) : top - V(1);
                if (!refused(h, x.first)) { top = honest; continue; }    // the word stands here by chance
                for (std::size_t r = s.row; r < s.row + s.height; r++) for (std::size_t c = 16; c < std::min<std::size_t>(cols.size(), 24); c++) for (int t = 0; t < 2; t++) {
                    V &cell = h.w[cols[c]][r], was = cell;
                    if (!(was.is_zero() || was == V(1)) || (r == x.first && c >= x.second && c < x.second + 16)) continue;
                    cell = t == 0 ? was - part : was + part;
                    bool hold = true;
                    for (std::size_t i = 0; i < s.height; i++) hold = hold && !refused(h, s.row + i);
                    if (hold) { violation("evm-carry", what + " may have another top chunk"); return; }
                    cell = was;
                    count("carries split");
                }
                break;
            }
        }
        // a division one short: the remainder then reaches the divisor
        word rem;
        if (s.op == bp::zkevm_opcode::DIV && !wzero(s.b) && !wzero(wdiv(s.a, s.b, &rem))) {
            word one{};
            one[0] = 1;
            word q = wadd(rem, s.b), r = wadd(res, wneg(one));
            grid<F> h = done;
            bool higher = false;
            if (wcmp(q, s.b) >= 0) {
                for (int i = 15; i >= 0; i--) {
                    V d = V(s.b[i]) - V(q[i]);
                    higher = higher || s.b[i] != q[i];
                    h.w[cols[i]][s.row + 2] = V(r[i]);
                    h.w[cols[16 + i]][s.row + 2] = V(q[i]);
                    h.w[cols[i]][s.row + 3] = V(higher);
                    h.w[cols[16 + i]][s.row + 3] = d.is_zero() ? d : d.inversed();
                }
                // the carries of the low half follow
                auto limb = [](const word &w, int k) { return std::uint64_t(w[4 * k]) | std::uint64_t(w[4 * k + 1]) << 16 | std::uint64_t(w[4 * k + 2]) << 32 | std::uint64_t(w[4 * k + 3]) << 48; };
                auto fe = [&](const word &w, int k) { return V(limb(w, k)); };
                V two64 = V(1ull << 32) * V(1ull << 32);
                V low = fe(r, 0) * fe(s.b, 0) + fe(q, 0) + two64 * (fe(r, 0) * fe(s.b, 1) + fe(r, 1) * fe(s.b, 0) + fe(q, 1)) - fe(s.a, 0) - two64 * fe(s.a, 1);
                auto c = low.data.canon();
                for (int i = 0; i < 4; i++) h.w[cols[16 + i]][s.row] = V((c.v[2] >> (16 * i)) & 0xffff);
                h.w[cols[20]][s.row] = V(c.v[3]);
                bool hold = true;
                for (std::size_t i = 0; i < s.height; i++) hold = hold && !refused(h, s.row + i);
                if (hold) violation("evm-remainder", what + " gives " + text(r) + " with remainder " + text(q));
                count("remainders enlarged");
            }
        }
        // a division as if by nothing: no result, all of the first operand left
        if (s.op == bp::zkevm_opcode::DIV && !wzero(res)) {
            grid<F> h = done;
            for (int i = 0; i < 16; i++) { h.w[cols[i]][s.row + 2] = V::zero(); h.w[cols[16 + i]][s.row + 2] = V(s.a[i]); }
            for (int i = 16; i < 21; i++) h.w[cols[i]][s.row] = h.w[cols[i]][s.row + 1] = V::zero();
            h.w[cols[21]][s.row + 1] = V::zero();
            bool hold = true;
            for (std::size_t i = 0; i < s.height; i++) hold = hold && !refused(h, s.row + i);
            if (hold) { violation("evm-denied", what + " may give nothing"); return; }
            count("results denied");
        }
        // the step itself: which operation it is, how long it lasts, what it keeps
        for (std::size_t r = s.row; r < s.row + s.height; r++) {
            std::vector<std::pair<const char *, std::size_t>> own = {{"the rows left", st.rows_until_next_op.selector}, {"the start mark", st.step_selection.selector}, {"the operation", z.get_state_selector_cols()[0]}};
            if (s.height > 1) for (auto c : {st.pc.selector, st.stack_size.selector, st.memory_size.selector, st.curr_gas.selector}) own.push_back({"a kept value", c});
            std::array<std::size_t, 4> at = {st.pc.selector, st.stack_size.selector, st.memory_size.selector, st.curr_gas.selector};
            for (int i = 0; i < 4; i++) if (done.w[at[i]][r] != s.kept[i]) { violation("evm-step", "a kept value is not the one set: row " + std::to_string(r - s.row) + " of " + what); return; }
            if (done.w[own[0].second][r] != V(s.row + s.height - 1 - r) || done.w[own[1].second][r] != V(r == s.row) || done.w[own[2].second][r] != V(bp::opcodes_info::instance().get_opcode_value(s.op))) { violation("evm-step", "the marks of row " + std::to_string(r - s.row) + " of " + what + " are wrong"); return; }
            for (auto &o : own) for (int t = 0; t < 2; t++) {
                grid<F> h = done;
                V &cell = h.w[o.second][r];
                cell = t == 0 ? cell + V(1) : cell.is_zero() ? -V(1) : V::zero();
                if (!refused(h, r)) { violation("evm-step", std::string(o.first) + " can be changed in row " + std::to_string(r - s.row) + " of " + what); return; }
                count("step cells held");
            }
            // rows of an operation exchanged with those of another row, column group by column group
            std::set<std::size_t> group;
            for (std::size_t c = 0; c < done.w.size(); c++) group.insert(c);
            for (auto c : cols) group.erase(c);
            for (auto c : z.get_state_selector_cols()) group.erase(c);
            for (auto c : {st.pc.selector, st.stack_size.selector, st.memory_size.selector, st.curr_gas.selector, st.rows_until_next_op.selector, st.rows_until_next_op_inv.selector, st.step_selection.selector}) group.erase(c);
            for (std::size_t q = start; q < z.get_current_row(); q++) {
                grid<F> h = done;
                bool differs = false;
                for (auto c : group) if (h.w[c][r] != done.w[c][q]) { h.w[c][r] = done.w[c][q]; differs = true; }
                if (!differs) continue;
                if (!refused(h, r)) { violation("evm-row", "row " + std::to_string(r - s.row) + " of " + what + " can pass for another row of an operation"); return; }
                count("rows exchanged");
            }
        }
        // an operation cannot pass for another one of the same length
        for (auto &o : steps) {
            if (o.op == s.op || o.height != s.height) continue;
            auto kind = [](bp::zkevm_opcode x) { return x == bp::zkevm_opcode::SUB ? bp::zkevm_opcode::ADD : x; };
            if (kind(o.op) == kind(s.op)) continue;    // a sum read from its other end
            word first = s.op == bp::zkevm_opcode::SUB ? res : s.a, last = s.op == bp::zkevm_opcode::SUB ? s.a : res;
            if (outcome(kind(o.op), first, s.b) == last) continue;    // both hold
            grid<F> h = done;
            for (std::size_t i = 0; i < s.height; i++) for (auto c : z.get_state_selector_cols()) h.w[c][s.row + i] = done.w[c][o.row + i];
            bool hold = true;
            for (std::size_t i = 0; i < s.height; i++) hold = hold && !refused(h, s.row + i);
            if (hold) { violation("evm-other", what + " passes for " + op_name(o.op)); return; }
            count("operations exchanged");
        }
    }
}
#endif

// ---------------------------------------------------------------- selector
#if PART == 2
template<typename X>
void selectors(rng &g) {
    using C = bc::state_selector<cs<X>, X>;
    using var = var_t<X>;
    using W = value_t<X>;
    std::size_t options = g.chance(1, 8) ? g.range(40, 160) : g.range(2, 20);
    auto mf = C::get_manifest(options);
    std::size_t width = mf.witness_amount->max_value_if_sat();
    std::vector<std::uint32_t> cols;
    std::size_t pad = g.range(0, 3);
    for (std::size_t i = 0; i < width; i++) cols.push_back(i + pad);
    C comp(cols, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), options);
    assignment_t<X> tab(width + pad, 1, 1, 6);
    circuit_t<X> circ;
    std::size_t rows = std::min<std::size_t>(options, 6), start = g.range(1, 5);
    std::vector<std::size_t> picked;
    for (std::size_t k = 0; k < rows; k++) picked.push_back(k == 0 ? options - 1 : k == 1 ? 0 : g.range(0, options - 1));
    for (std::size_t k = 0; k < rows; k++) {
        tab.public_input(0, k) = W(picked[k]);
        typename C::input_type in = {var(0, k, false, var::column_type::public_input)};
        bc::generate_circuit(comp, circ, tab, in, start + k);
        bc::generate_assignments(comp, tab, in, start + k);
    }
    grid<X> done(tab);
    evaluated("selector " + std::to_string(options));
    // selectors of other sizes bring gates of their own, one of the same size does not
    std::set<std::size_t> sizes = {options};
    nil::blueprint::gate_manifest announced = C::get_gate_manifest(width, options);
    for (int k = 0; k < 4; k++) {
        std::size_t o = g.chance(1, 2) ? options + g.range(0, 2) - 1 : g.range(2, 20);
        sizes.insert(o);
        announced.merge_with(C::get_gate_manifest(C::get_manifest(o).witness_amount->max_value_if_sat(), o));
    }
    if (announced.get_gates_amount() != sizes.size()) { violation("selector-announced", std::to_string(announced.get_gates_amount()) + " gates are announced for selectors of " + std::to_string(sizes.size()) + " sizes"); return; }
    auto bad = judge<X>(circ, done);
    if (!bad.empty()) { violation("selector-honest", bad[0].str() + " broken for " + std::to_string(options) + " options"); return; }
    for (std::size_t k = 0; k < rows; k++) for (std::size_t o = 0; o < options; o++) {
        auto e = comp.option_constraint(o);
        bool chosen = !eval<X>(e, [&](const var &v) { return done.get(v, start + k); }).is_zero();
        if (chosen != (o == picked[k])) { violation("selector-option", "option " + std::to_string(o) + " of " + std::to_string(options) + (chosen ? " is" : " is not") + " active when " + std::to_string(picked[k]) + " is chosen"); return; }
        count("options judged");
    }
    auto ov = comp.option_variable(0);
    for (std::size_t k = 0; k < rows; k++) {
        if (done.get(ov, start + k) != W(picked[k])) { violation("selector-option", "the chosen option reads " + std::to_string(picked[k])); return; }
        // another choice given from outside is noticed
        grid<X> h = done;
        h.p[0][k] = W((picked[k] + 1) % options);
        if (judge<X>(circ, h).empty()) { violation("selector-untied", "the choice given can be exchanged"); return; }
        // and no cell of the selection can be changed on its own or with another one
        for (std::size_t c = 0; c < width; c++) for (int t = 0; t < 2; t++) {
            h = done;
            auto &cell = h.w[cols[c]][start + k];
            cell = t == 0 ? W(1) - cell : cell + W(g.range(2, 9));
            if (cell == done.w[cols[c]][start + k]) continue;
            if (judge<X>(circ, h).empty()) { violation("selector-loose", "column " + std::to_string(c) + " of the selection can be changed"); return; }
            count("selection cells held");
        }
        // a whole other selection, honest in itself, does not stand in
        for (std::size_t q = 0; q < rows; q++) if (picked[q] != picked[k]) {
            h = done;
            for (auto c : cols) h.w[c][start + k] = done.w[c][start + q];
            if (judge<X>(circ, h).empty()) { violation("selector-untied", "another selection stands in for the one given"); return; }
            count("selections exchanged");
        }
        // choices past the end cannot be expressed
        if (options % 2) {
            h = done;
            for (auto c : cols) h.w[c][start + k] = W(0);
            h.w[cols[0]][start + k] = W(options);
            h.w[cols[width - 1]][start + k] = W(1);
            h.w[cols[width - 2]][start + k] = W(1);
            h.p[0][k] = W(options);
            if (judge<X>(circ, h).empty()) { violation("selector-past", "option " + std::to_string(options) + " of " + std::to_string(options) + " can be chosen"); return; }
            count("choices past the end refused");
        }
    }
    sample("selector over " + std::to_string(options) + " options");
}

// ---------------------------------------------------------------- step rules
template<typename X>
void transitions(rng &g) {
    using W = value_t<X>;
    using var = var_t<X>;
    bp::zkevm_state<X> st;
    using sv = bp::state_var<X>;
    std::vector<std::size_t> cols = {0, 1, 2, 3, 4, 5, 6};
    for (std::size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[g.range(0, i - 1)]);
    auto wit = sv::column_type::witness;
    std::array<sv *, 4> vs = {&st.pc, &st.stack_size, &st.memory_size, &st.curr_gas};
    for (int i = 0; i < 4; i++) *vs[i] = sv(cols[i], wit, W(0));
    st.step_selection = sv(cols[4], wit, W(0));
    st.rows_until_next_op = sv(cols[5], wit, W(0));
    st.rows_until_next_op_inv = sv(cols[6], wit, W(0));
    bp::zkevm_state_transition tr;
    if (g.chance(1, 6)) tr = bp::generate_frozen_state_transition();
    else {
        std::array<bp::transition_type *, 4> ts = {&tr.pc, &tr.stack_size, &tr.memory_size, &tr.curr_gas};
        std::vector<bp::transition_type::type> kinds = {bp::transition_type::DEFAULT, bp::transition_type::ANY, bp::transition_type::SAME_VALUE, bp::transition_type::DELTA, bp::transition_type::NEW_VALUE};
        for (auto t : ts) {
            if (g.chance(1, 5)) continue;    // untouched: the usual step
            t->t = g.pick(kinds);
            t->value = g.chance(1, 2) ? std::int64_t(g.range(0, 20)) - 10 : std::int64_t(g.next() >> 2) * (g.chance(1, 2) ? 1 : -1);
        }
    }
    std::array<bp::transition_type, 4> ts = {tr.pc, tr.stack_size, tr.memory_size, tr.curr_gas};
    auto constraints = bp::generate_transition_constraints<X>(st, tr);
    auto as = [](std::int64_t v) { return v < 0 ? W(0) - W(std::uint64_t(-v)) : W(std::uint64_t(v)); };
    std::array<W, 4> now, next;
    std::array<bool, 4> free{};
    for (int i = 0; i < 4; i++) {
        now[i] = g.chance(1, 3) ? W(g.range(0, 5)) : W(g.next() >> 1);
        switch (ts[i].t) {
            case bp::transition_type::DEFAULT: next[i] = i == 0 ? now[i] + W(1) : now[i]; break;
            case bp::transition_type::SAME_VALUE: next[i] = now[i]; break;
            case bp::transition_type::DELTA: next[i] = now[i] + as(ts[i].value); break;
            case bp::transition_type::NEW_VALUE: next[i] = as(ts[i].value); break;
            default: next[i] = W(g.next() >> 1); free[i] = true;
        }
        count(std::string("rule ") + std::to_string(int(ts[i].t)));
    }
    assignment_t<X> tab(7, 1, 1, 1);
    std::size_t row = g.range(0, 5);
    for (int i = 0; i < 4; i++) vs[i]->set_value(now[i]);
    st.assign_state(tab, row);
    for (int i = 0; i < 4; i++) vs[i]->set_value(next[i]);
    st.assign_state(tab, row + 1);
    grid<X> d(tab);
    evaluated("rules");
    auto ok = [&](const grid<X> &h) {
        for (auto &c : constraints) if (!eval<X>(c, [&](const var &v) { return h.get(v, row); }).is_zero()) return false;
        return true;
    };
    if (!ok(d)) { violation("step-honest", "a step following its rules is refused"); return; }
    for (int i = 0; i < 4; i++) {
        grid<X> h = d;
        h.w[cols[i]][row + 1] = next[i] + W(g.chance(1, 2) ? 1 : g.range(2, 99));
        if (ok(h) != free[i]) { violation("step-rule", free[i] ? "a value without a rule is held" : "a value breaking its rule is accepted"); return; }
        count("steps judged");
    }
}

// ---------------------------------------------------------------- words and the stack
void words(rng &g) {
    evaluated("words");
    for (int k = 0; k < 20; k++) {
        word w = wany(g);
        auto ch = bp::zkevm_word_to_field_element<F>(to_evm(w));
        if (ch.size() != 16) { violation("word-chunks", "a word splits into " + std::to_string(ch.size()) + " chunks"); return; }
        for (int i = 0; i < 16; i++) if (ch[i] != V(w[i])) { violation("word-chunks", "chunk " + std::to_string(i) + " of " + text(w) + " reads " + show(ch[i])); return; }
        std::uint64_t x = g.chance(1, 3) ? ~0ull >> g.range(0, 63) : g.next();
        auto c4 = bp::chunk_64_to_16<F>(V(x));
        if (c4.size() != 4) { violation("word-chunks", "64 bits split into " + std::to_string(c4.size()) + " chunks"); return; }
        for (int i = 0; i < 4; i++) if (c4[i] != V((x >> (16 * i)) & 0xffff)) { violation("word-chunks", "chunk " + std::to_string(i) + " of a 64-bit value is wrong"); return; }
        count("words split");
    }
    bp::zkevm_stack st;
    std::vector<word> model;
    for (int k = 0; k < 60; k++) {
        switch (g.range(0, 4)) {
            case 0: case 1: model.push_back(wany(g)); st.push(to_evm(model.back())); break;
            case 2:
                if (model.empty()) break;
                if (of_evm(st.pop()) != model.back()) { violation("word-stack", "the wrong word is taken off"); return; }
                model.pop_back();
                break;
            case 3: if (model.size() >= 2) { st.swap(); std::swap(model[model.size() - 1], model[model.size() - 2]); } break;
            default: if (!model.empty()) { st.dup(); model.push_back(model.back()); }
        }
        if (!model.empty() && of_evm(st.top()) != model.back()) { violation("word-stack", "the wrong word is on top"); return; }
        count("stack steps");
    }
}

#endif

// ---------------------------------------------------------------- contract code
#if PART == 3
void bytecodes(rng &g) {
    using C = bc::zkevm_bytecode<cs<F>, F>;
    using T = bc::zkevm_bytecode_table<cs<F>, F>;
    using var = var_t<F>;
    static const std::vector<std::pair<int, int>> valid = {{0, 0xb}, {0x10, 0x1d}, {0x20, 0x20}, {0x30, 0x3f}, {0x40, 0x4a}, {0x50, 0x9f}, {0xa0, 0xa4}, {0xf0, 0xf5}, {0xfa, 0xfa}, {0xfd, 0xff}};
    bool big = g.chance(1, 24);
    std::size_t n = big ? g.range(1, 14) : g.range(1, 3), total = 0;
    if (big) count("large sets of code");
    std::vector<std::vector<unsigned>> code(n);
    struct row { unsigned tag, index, value, op, push, left; std::size_t of; };
    std::vector<row> model;
    for (std::size_t k = 0; k < n; k++) {
        std::size_t len = g.chance(1, 6) ? 0 : g.range(1, big ? 3000 / n : g.chance(1, 4) ? 90 : 20);
        model.push_back({0, 0, unsigned(len), 0, 0, unsigned(len), k});
        unsigned push = 0;
        for (std::size_t j = 0; j < len; j++) {
            unsigned b;
            bool op = push == 0;
            if (op) {
                auto r = g.pick(valid);
                b = g.chance(1, 3) ? (g.chance(1, 4) ? 0x5f : g.range(0x60, g.chance(1, 2) ? 0x63 : 0x7f)) : g.range(r.first, r.second);
                if (b >= 0x60 && b <= 0x7f) push = b - 0x5f;
            } else { b = g.range(0, 255); push--; }
            code[k].push_back(b);
            model.push_back({1, unsigned(j), b, op, push, unsigned(len - 1 - j), k});
        }
        total += len + 1;
    }
    std::size_t room = total + (g.chance(1, 2) ? g.range(0, 20) : 0), start = g.range(1, 3);
    std::vector<std::uint32_t> cols;
    std::size_t width = C::get_manifest().witness_amount->max_value_if_sat(), pad = g.range(0, 2);
    for (std::size_t i = 0; i < width; i++) cols.push_back(i + pad);
    C comp(cols, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), room);
    assignment_t<F> tab(width + pad, 1, 1, 8);
    circuit_t<F> circ;
    auto tables = comp.component_lookup_tables();
    for (auto &[k, v] : tables) { if (v == 1) circ.reserve_dynamic_table(k); else circ.reserve_table(k); }
    std::vector<std::vector<var>> in(n);
    std::vector<std::pair<var, var>> hashes;
    std::size_t p = 0;
    std::vector<V> hi, lo;
    auto put = [&](const V &v) { tab.public_input(0, p) = v; return var(0, p++, false, var::column_type::public_input); };
    for (std::size_t k = 0; k < n; k++) {
        in[k].push_back(put(V(code[k].size())));
        for (auto b : code[k]) in[k].push_back(put(V(b)));
        hi.push_back(V(g.next())), lo.push_back(V(g.next()));
        var a = put(hi[k]), b = put(lo[k]);
        hashes.push_back({a, b});
    }
    V challenge(g.next());
    var ch = put(challenge);
    typename C::input_type input(in, hashes, ch);
    if (g.chance(1, 2)) { bc::generate_circuit(comp, circ, tab, input, start); bc::generate_assignments(comp, tab, input, start); }
    else { bc::generate_assignments(comp, tab, input, start); bc::generate_circuit(comp, circ, tab, input, start); }
    // the rows laid out by the table alone must be the same
    assignment_t<F> alone(width + pad, 1, 1, 8);
    for (std::size_t i = 0; i < p; i++) alone.public_input(0, i) = tab.public_input(0, i);
    std::vector<std::uint32_t> six(cols.begin(), cols.begin() + 6);
    T table(six, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), room);
    bc::generate_assignments(table, alone, typename T::input_type(in, hashes), start);
    for (std::size_t c = 0; c < tab.witnesses_amount(); c++)
        if (tab.witness_column_size(c) > start + room) { violation("code-rows", "rows are written past the room set aside"); return; }
    grid<F> d(tab), da(alone);
    for (auto &c : d.w) if (c.size() < start + room + 1) c.resize(start + room + 1, V::zero());
    for (auto &c : da.w) if (c.size() < start + room + 1) c.resize(start + room + 1, V::zero());
    evaluated("code " + std::to_string(n) + " " + std::to_string(total / 8));
    V rlc;
    for (std::size_t r = 0; r < model.size(); r++) {
        auto &m = model[r];
        rlc = m.tag ? rlc * challenge + V(m.value) : V::zero();
        std::array<V, 10> want = {V(m.tag), V(m.index), V(m.value), V(m.op), hi[m.of], lo[m.of], V(m.push), rlc, V(m.left), challenge};
        std::array<std::size_t, 10> where = {T::TAG, T::INDEX, T::VALUE, T::IS_OPCODE, T::HASH_HI, T::HASH_LO, C::PUSH_SIZE, C::VALUE_RLC, C::LENGTH_LEFT, C::RLC_CHALLENGE};
        for (std::size_t c = 0; c < 10; c++) {
            if (d.w[cols[where[c]]][start + r] != want[c]) { violation("code-rows", "row " + std::to_string(r) + " column " + std::to_string(c) + " reads " + show(d.w[cols[where[c]]][start + r]) + ", expected " + show(want[c])); return; }
            if (c < 6 && da.w[cols[where[c]]][start + r] != want[c]) { violation("code-rows", "the table alone differs in row " + std::to_string(r) + " column " + std::to_string(c)); return; }
        }
        count("code rows read");
    }
    lookup_rows<F> fixed;
    auto bad = judge<F>(circ, d, {}, &fixed);
    if (!bad.empty()) { violation("code-honest", "an honest table of code breaks " + bad[0].str()); return; }
    count("code tables satisfied");
    auto near = [&](const grid<F> &h, std::size_t row) {
        std::set<std::uint32_t> rs;
        for (std::size_t r = row ? row - 1 : 0; r <= row + 1; r++) rs.insert(r);
        judge_options o;
        o.rows = &rs;
        return judge<F>(circ, h, o, &fixed).empty();
    };
    for (std::size_t r = 0; r < model.size(); r++) {
        auto &m = model[r];
        if (big && !g.chance(30, model.size())) continue;
        bool followed = m.tag || code[m.of].size();    // a header of no code holds nothing more
        std::vector<std::pair<const char *, std::size_t>> cells = {{"mark", T::TAG}, {"position", T::INDEX}, {"length left", C::LENGTH_LEFT}, {"byte", T::VALUE}, {"running sum", C::VALUE_RLC}};
        if (followed) for (auto c : {T::HASH_HI, T::HASH_LO, C::RLC_CHALLENGE}) cells.push_back({"copied value", c});
        if (followed) cells.push_back({"push bytes left", C::PUSH_SIZE});
        if (m.tag) cells.push_back({"opcode mark", T::IS_OPCODE});
        for (auto &c : cells) for (int t = 0; t < 2; t++) {
            grid<F> h = d;
            V &x = h.w[cols[c.second]][start + r], old = x;
            x = t == 0 ? V(1) - x : x + V(g.range(1, 40));
            if (x == old) continue;
            if (near(h, start + r)) { violation("code-loose", std::string("the ") + c.first + " of row " + std::to_string(r) + (m.tag ? "" : " (a header)") + " can be changed"); return; }
            count("code cells held");
        }
        // a byte of pushed data cannot be passed off as an operation, nor the other way round
        if (m.tag && r + 1 < model.size() && model[r + 1].tag) {
            grid<F> h = d;
            h.w[cols[T::IS_OPCODE]][start + r] = V(1 - m.op);
            h.w[cols[C::PUSH_SIZE]][start + r] = m.op ? V(g.range(0, 3)) : V(m.value >= 0x60 && m.value <= 0x7f ? m.value - 0x5f : 0);
            if (near(h, start + r)) { violation("code-loose", "row " + std::to_string(r) + " passes for " + (m.op ? "pushed data" : "an operation")); return; }
            count("bytes passed off");
        }
    }
    // what is given from outside
    for (std::size_t i = 0; i < p; i++) {
        if (big && !g.chance(20, p)) continue;
        grid<F> h = d;
        h.p[0][i] = h.p[0][i] + V(1);
        if (judge<F>(circ, h, {}, &fixed).empty()) { violation("code-untied", "an input can be exchanged without the table noticing"); return; }
        count("code inputs tied");
    }
    auto listed = input.all_vars();
    if (listed.size() != p) { violation("code-listed", std::to_string(listed.size()) + " of " + std::to_string(p) + " inputs are listed"); return; }
    sample("code of " + std::to_string(n) + " contracts over " + std::to_string(room) + " rows");
}
// The helper that reads the table of code from the row above, the row below and from aside.
void readers(rng &g) {
    using C = bc::bytecode_table_tester<cs<F>, F>;
    using T = bc::zkevm_bytecode_table<cs<F>, F>;
    using var = var_t<F>;
    std::size_t len = g.range(15, 40), start = g.range(0, 3), pad = g.range(0, 2);
    std::vector<std::uint32_t> cols;
    for (std::size_t i = 0; i < 12; i++) cols.push_back(i + pad);
    C comp(cols, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), len + 1);
    assignment_t<F> tab(12 + pad, 1, 1, 8);
    circuit_t<F> circ;
    circ.reserve_dynamic_table("zkevm_bytecode");
    std::size_t p = 0;
    auto put = [&](const V &v) { tab.public_input(0, p) = v; return var(0, p++, false, var::column_type::public_input); };
    std::vector<std::vector<var>> in(1);
    in[0].push_back(put(V(len)));
    for (std::size_t i = 0; i < len; i++) in[0].push_back(put(V(g.range(0, 255))));
    var a = put(V(g.next())), b = put(V(g.next()));
    typename C::input_type input(in, {{a, b}});
    bc::generate_circuit(comp, circ, tab, input, start);
    bc::generate_assignments(comp, tab, input, start);
    grid<F> d(tab);
    evaluated("readers " + std::to_string(len));
    auto bad = judge<F>(circ, d, {});
    if (!bad.empty()) { violation("code-readers", "an honest reader breaks " + bad[0].str()); return; }
    for (auto &place : std::vector<std::pair<std::size_t, std::size_t>>{{6, start}, {6, start + len + 2}, {0, start + 1}})
        for (std::size_t c = 0; c < 6; c++) {
            grid<F> h = d;
            h.w[cols[place.first + c]][place.second] += V(1000);
            if (judge<F>(circ, h, {}).empty()) { violation("code-readers", "a reader in row " + std::to_string(place.second - start) + " may claim anything"); return; }
            count("readings held");
        }
}
// What the table of code tells others, asked in a row and columns of their own.
void told(rng &g) {
    using T = bc::zkevm_bytecode_table<cs<F>, F>;
    using var = var_t<F>;
    std::size_t n = g.range(1, 3), start = g.range(1, 3), pad = g.range(0, 2), p = 0, total = 0;
    std::vector<std::uint32_t> cols;
    for (std::size_t i = 0; i < 6; i++) cols.push_back(i + pad);
    assignment_t<F> tab(12 + pad, 1, 1, 8);
    circuit_t<F> circ;
    circ.reserve_dynamic_table("zkevm_bytecode");
    auto put = [&](const V &v) { tab.public_input(0, p) = v; return var(0, p++, false, var::column_type::public_input); };
    std::vector<std::vector<var>> in(n);
    std::vector<std::pair<var, var>> hashes;
    std::set<std::array<V, 6>> rows;
    std::vector<std::array<V, 6>> order;
    auto row = [&](const std::array<V, 6> &r) { rows.insert(r); order.push_back(r); };
    for (std::size_t k = 0; k < n; k++) {
        std::size_t len = g.range(0, 30);
        V hi(g.next()), lo(g.next());
        in[k].push_back(put(V(len)));
        row({V(0), V(0), V(len), V(0), hi, lo});
        unsigned push = 0;
        for (std::size_t j = 0; j < len; j++) {
            unsigned b = g.chance(1, 3) ? g.range(0x5f, 0x80) : g.range(0, 255);
            bool op = push == 0;
            if (op) push = b >= 0x60 && b <= 0x7f ? b - 0x5f : 0; else push--;
            in[k].push_back(put(V(b)));
            row({V(1), V(j), V(b), V(op), hi, lo});
        }
        var a = put(hi), b = put(lo);
        hashes.push_back({a, b});
        total += len + 1;
    }
    std::size_t room = total + g.range(0, 5);
    if (room > total) rows.insert({V(0), V(0), V(0), V(0), V(0), V(0)});
    T table(cols, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>(), room);
    typename T::input_type input(in, hashes);
    for (std::size_t r = 0; r < start + room; r++) for (auto c : cols) tab.witness(c, r) = V::zero();
    bc::generate_assignments(table, tab, input, start);
    bc::generate_circuit(table, circ, tab, input, start);
    snark::plonk_lookup_constraint<F> reading;
    reading.table_id = circ.get_reserved_indices().at("zkevm_bytecode");
    for (std::size_t c = 0; c < 6; c++) {
        reading.lookup_input.push_back(var(6 + pad + c, 0, true));
        tab.witness(6 + pad + c, 0) = V::zero();
    }
    tab.enable_selector(circ.add_lookup_gate({reading}), 0);
    grid<F> d(tab);
    evaluated("told " + std::to_string(n) + " " + std::to_string(total));
    for (int t = 0; t < 24; t++) {
        auto say = g.pick(order);
        if (g.chance(1, 2)) {
            auto other = g.pick(order);
            std::size_t c = g.range(0, 5);
            say[c] = g.chance(1, 3) ? other[c] : g.chance(1, 2) ? V(1) - say[c] : say[c] + V(g.range(1, 3));
        }
        bool listed = rows.count(say) != 0;
        for (std::size_t c = 0; c < 6; c++) d.w[6 + pad + c][0] = say[c];
        bool got = judge<F>(circ, d, {}).empty();
        count(listed ? "code read" : "false code refused");
        if (got != listed) { violation("code-told", std::string("a reader of the table is ") + (got ? "told something the code does not hold" : "refused what the code holds")); return; }
    }
}
#endif
}    // namespace

template<typename G>
void each(const char *name, std::size_t n, G &&f) {
    for (std::size_t k = 0; k < n; k++) {
        std::string id = std::string(name) + ":" + std::to_string(k);
        run_case(id, name, [&] { rng g = case_rng(id); f(g, k); });
    }
}

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
#if PART == 1
    each("trace", scaled(240, 2000), [](rng &g, std::size_t) { traces(g); });
#elif PART == 2
    each("selector", scaled(120, 1200), [](rng &g, std::size_t k) { k % 2 ? selectors<goldi>(g) : selectors<pallas>(g); });
    each("rules", scaled(3000, 30000), [](rng &g, std::size_t k) { k % 2 ? transitions<goldi>(g) : transitions<F>(g); });
    each("words", scaled(150, 1500), [](rng &g, std::size_t) { words(g); });
#else
    each("code", scaled(240, 2400), [](rng &g, std::size_t) { bytecodes(g); });
    each("readers", scaled(40, 400), [](rng &g, std::size_t) { readers(g); });
    each("told", scaled(120, 1200), [](rng &g, std::size_t) { told(g); });
#endif
    return finish();
}
