// What gadgets announce about themselves before they are built: allowed widths, rows, gates.
#include "comp.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/zkevm/state_selector.hpp>

using namespace vf;
namespace nb = nil::blueprint;
namespace bc = nil::blueprint::components;
using F = nil::crypto3::algebra::fields::pallas_base_field;
using V = value_t<F>;
using var = var_t<F>;
using S = system_t<F>;

// One gadget with fixed parameters, seen only through what it announces and what it builds.
struct subject {
    std::string kind, what;
    std::function<nb::plonk_component_manifest()> manifest;
    std::function<nb::gate_manifest(std::size_t)> gates;
    std::function<std::size_t(std::size_t)> rows;
    // builds at the row and returns the rows the built component says it takes
    std::function<std::size_t(std::vector<std::uint32_t>, circuit_t<F> &, assignment_t<F> &, std::size_t)> build;
};
template<typename X, typename C, typename... A> struct asks : std::false_type {};
template<typename C, typename... A> struct asks<std::void_t<decltype(C::get_manifest(std::declval<A>()...))>, C, A...> : std::true_type {};
template<typename C, typename Bind, typename... A>
subject make(const std::string &kind, const std::string &what, std::size_t n, const Bind &bind, A... a) {
    subject s;
    s.kind = kind;
    s.what = kind + " " + what;
    s.manifest = [=] { if constexpr (asks<void, C, A...>::value) return C::get_manifest(a...); else return C::get_manifest(); };
    s.gates = [=](std::size_t w) { return C::get_gate_manifest(w, a...); };
    s.rows = [=](std::size_t w) { return C::get_rows_amount(w, a...); };
    s.build = [=](std::vector<std::uint32_t> W, circuit_t<F> &bp, assignment_t<F> &as, std::size_t row) {
        C c(W, std::vector<std::uint32_t>{0}, std::vector<std::uint32_t>{0}, a...);
        std::vector<var> v;
        for (std::size_t i = 0; i < n; i++) v.push_back(var(0, i, false, var::column_type::public_input));
        auto in = bind(v);
        generate_circuit(c, bp, as, in, row);
        return std::size_t(c.rows_amount);
    };
    return s;
}
template<typename C> auto flat() { return [](const std::vector<var> &v) { typename C::input_type i; auto a = i.all_vars(); for (std::size_t k = 0; k < v.size(); k++) a.at(k).get() = v[k]; return i; }; }

static std::vector<subject> subjects() {
    std::vector<subject> r;
    auto n = [](auto x) { return std::to_string(x); };
    using RC = bc::range_check<S>;
    using BD = bc::bit_decomposition<S>;
    using BC = bc::bit_composition<S>;
    using BS = bc::bit_shift_constant<S>;
    using CC = bc::comparison_checked<S>;
    using CU = bc::comparison_unchecked<S>;
    using CF = bc::comparison_flag<S>;
    using DR = bc::division_remainder<S>;
    auto bits = [](const std::vector<var> &v) { BC::input_type i; i.bits = v; return i; };
    for (std::size_t b : {1, 2, 3, 7, 8, 15, 16, 33, 64, 100, 120}) {
        r.push_back(make<RC>("range", n(b), 1, flat<RC>(), b));
        for (auto m : {bc::bit_composition_mode::LSB, bc::bit_composition_mode::MSB}) {
            r.push_back(make<BD>("decomposition", n(b) + " mode " + n(int(m)), 1, flat<BD>(), b, m));
            for (bool c : {false, true}) r.push_back(make<BC>("composition", n(b) + " mode " + n(int(m)) + " check " + n(c), b, bits, b, c, m));
        }
        if (b > 3) for (std::size_t s : {std::size_t(1), b / 2, b - 1}) for (auto m : {bc::LEFT, bc::RIGHT})
            r.push_back(make<BS>("shift", n(b) + " by " + n(s) + " mode " + n(int(m)), 1, flat<BS>(), b, s, m));
        for (auto m : {bc::LESS_THAN, bc::LESS_EQUAL, bc::GREATER_THAN, bc::GREATER_EQUAL}) {
            r.push_back(make<CC>("comparison", n(b) + " mode " + n(int(m)), 2, flat<CC>(), b, m));
            r.push_back(make<CU>("unchecked comparison", n(b) + " mode " + n(int(m)), 2, flat<CU>(), b, m));
            r.push_back(make<CF>("comparison flag", n(b) + " mode " + n(int(m)), 2, flat<CF>(), b, m));
        }
        for (bool c : {false, true}) r.push_back(make<DR>("division with remainder", n(b) + " check " + n(c), 2, flat<DR>(), b, c));
    }
    using EF = bc::equality_flag<S, F>;
    for (bool c : {false, true}) r.push_back(make<EF>("equality flag", n(c), 2, flat<EF>(), c));
    using PF = bc::pow_factor<S, F>;
    auto pf = [](const std::vector<var> &v) { PF::input_type i; i.theta = v[0]; i.coefficients.assign(v.begin() + 1, v.end()); return i; };
    for (std::size_t p : {3, 9, 20, 47, 60, 100}) r.push_back(make<PF>("power sum", n(p), p + 2, pf, p));
    using AS = bc::fri_array_swap<S, F>;
    auto as = [](const std::vector<var> &v) { AS::input_type i; i.t = v[0]; i.arr.assign(v.begin() + 1, v.end()); return i; };
    for (std::size_t p : {1, 2, 5, 9, 16}) r.push_back(make<AS>("array swap", n(p), 2 * p + 1, as, p));
    using FC = bc::fri_cosets<S, F>;
    for (std::size_t p : {2, 3, 5, 8, 13}) r.push_back(make<FC>("cosets", n(p), 1, flat<FC>(), p, V(3)));
    using CP = bc::flexible_constant_pow<S, F>;
    for (std::uint64_t p : {7ull, 255ull, 1023ull, 65536ull, 99999999ull, 1234567890123ull}) r.push_back(make<CP>("constant power", n(p), 1, flat<CP>(), typename F::integral_type(p)));
    using SS = bc::state_selector<S, F>;
    for (std::size_t p : {1, 2, 3, 8, 9, 20}) r.push_back(make<SS>("selector", n(p), 1, flat<SS>(), p));
    return r;
}
// allowed widths up to 60, the smallest acceptable one, and whether constants are needed
static std::string announced(const subject &s) {
    auto m = s.manifest();
    std::string r;
    for (std::size_t w = 1; w <= 60; w++) r += m.witness_amount->check_manifest_param(w) ? '1' : '0';
    for (std::size_t w = 1; w <= 60; w++) if (m.witness_amount->check_manifest_param(w, false)) { r += "/" + std::to_string(w); break; }
    return r + "/" + std::to_string(m.witness_amount->max_value_if_sat());
}
static std::string in_child(const subject &s) {
    int fd[2];
    if (pipe(fd)) std::abort();
    pid_t p = fork();
    if (!p) {
        std::string a = announced(s);
        if (write(fd[1], a.data(), a.size()) < 0) _exit(1);
        _exit(0);
    }
    close(fd[1]);
    std::string r(4096, 0);
    std::size_t have = 0;
    ssize_t k;
    while ((k = read(fd[0], &r[have], r.size() - have)) > 0) have += k;
    r.resize(have);
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("announcement:crash", "asking " + s.what + " for its manifest failed");
    return r;
}

int main() {
    init();
    std::cout.setstate(std::ios::failbit);
    auto all = subjects();
    // answers of processes that were never asked before
    std::vector<std::string> fresh;
    for (auto &s : all) fresh.push_back(in_child(s));
    std::map<std::string, std::vector<std::size_t>> kinds;
    for (std::size_t i = 0; i < all.size(); i++) kinds[all[i].kind].push_back(i);
    auto widths = [&](std::size_t i) { std::vector<std::size_t> r; for (std::size_t w = 1; w <= 60; w++) if (fresh[i][w - 1] == '1') r.push_back(w); return r; };
    std::vector<std::vector<std::size_t>> by_kind;
    for (auto &k : kinds) by_kind.push_back(k.second);

    std::uint64_t T = scaled(8000, 60000);
    for (std::uint64_t b = 0; b < T; b++) {
        std::string id = "announced/" + std::to_string(b);
        run_case(id, "announced", [&] {
            auto g = case_rng(id);
            for (int q = 0; q < 6; q++) {
                auto &kind = g.pick(by_kind);
                std::size_t i = g.pick(kind);
                auto &s = all[i];
                saw("gadgets", s.kind);
                std::string now = announced(s);
                evaluated("manifest " + s.what);
                count("manifests asked again");
                if (now != fresh[i]) { violation(s.kind + ":history", s.what + " announces other widths after other gadgets were asked: " + now + " instead of " + fresh[i]); return; }
            }
            // two gadgets of one kind, or of two, in one circuit
            auto &kind = g.pick(by_kind);
            std::size_t i = g.pick(kind), j = g.chance(2, 3) ? g.pick(kind) : g.pick(g.pick(by_kind));
            auto wi = widths(i), wj = widths(j);
            std::vector<std::size_t> ws;
            for (auto w : wi) if (std::find(wj.begin(), wj.end(), w) != wj.end()) ws.push_back(w);
            if (ws.empty()) return;
            std::size_t w = g.pick(ws);
            std::string where = all[i].what + " and " + all[j].what + " on " + std::to_string(w) + " columns";
            std::vector<std::uint32_t> W(w);
            std::iota(W.begin(), W.end(), 0);
            circuit_t<F> bp;
            assignment_t<F> as(w, 1, 2, 200);
            auto added = [&] { return bp.num_gates() + bp.num_lookup_gates(); };
            auto mi = all[i].gates(w), mj = all[j].gates(w);
            std::size_t ai = mi.get_gates_amount(), aj = mj.get_gates_amount();
            std::size_t ri = all[i].build(W, bp, as, 0);
            std::size_t first = added();
            if (first != ai) { violation(all[i].kind + ":gates", all[i].what + " on " + std::to_string(w) + " columns announces " + std::to_string(ai) + " gates and adds " + std::to_string(first)); return; }
            if (ri != all[i].rows(w)) { violation(all[i].kind + ":rows", all[i].what + " on " + std::to_string(w) + " columns announces " + std::to_string(all[i].rows(w)) + " rows and takes " + std::to_string(ri)); return; }
            std::size_t rj = all[j].build(W, bp, as, ri);
            std::size_t both = added();
            if (rj != all[j].rows(w)) { violation(all[j].kind + ":rows", all[j].what + " announces a different number of rows"); return; }
            auto merged = mi.merge_with(mj);
            std::size_t am = merged.get_gates_amount(), mirrored = mj.merge_with(mi).get_gates_amount();
            evaluated(where);
            count("gadgets placed together");
            if (am != mirrored) { violation(all[i].kind + ":merge", "merging depends on the order: " + where); return; }
            if (am < both) { violation(all[i].kind + ":merge", where + " announce " + std::to_string(am) + " gates together and add " + std::to_string(both)); return; }
            if (am > ai + aj) { violation(all[i].kind + ":merge", where + " announce more together than each on its own"); return; }
            if (i == j && am != ai) { violation(all[i].kind + ":merge", "the same gadget twice announces more gates: " + where); return; }
            if (i == j && both != first) { violation(all[i].kind + ":merge", "the same gadget twice adds more gates: " + where); return; }
            sample(where + ": " + std::to_string(am) + " gates announced, " + std::to_string(both) + " added");
        });
    }
    return finish();
}
