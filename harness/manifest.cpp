// Manifest algebra: every parameter description is compared with an explicit set model.
#include "vf.hpp"
#include <boost/assert.hpp>
#include <nil/blueprint/manifest.hpp>

using namespace nil::blueprint;
using P = std::shared_ptr<manifest_param>;
using S = std::set<std::uint32_t>;

static const std::uint32_t U = 130;    // model universe is [0, U)

struct desc {
    int kind;    // 0 unsat 1 single 2 range 3 set
    std::int32_t a = 0, b = 0;
    std::uint32_t step = 1;
    S set;
    P make() const {
        switch (kind) {
            case 0: return P(new manifest_unsat_param());
            case 1: return P(new manifest_single_value_param(a));
            case 2: return P(new manifest_range_param(a, b, step));
            default: return P(new manifest_set_param(set));
        }
    }
    S model() const {
        S r;
        if (kind == 1) r.insert(a);
        else if (kind == 2) for (std::int64_t v = a; v < b; v += step) r.insert(std::uint32_t(v));
        else if (kind == 3) r = set;
        return r;
    }
    std::string str() const {
        std::ostringstream o;
        if (kind == 0) o << "unsat";
        else if (kind == 1) o << "single(" << a << ")";
        else if (kind == 2) o << "range(" << a << "," << b << "," << step << ")";
        else { o << "set("; for (auto v : set) o << v << " "; o << ")"; }
        return o.str();
    }
};
static const char *kname[] = {"unsat", "single", "range", "set"};

static std::string show(const S &s) {
    std::ostringstream o;
    o << "{";
    int n = 0;
    for (auto v : s) { if (n++ > 30) { o << "..."; break; } o << v << " "; }
    o << "}";
    return o.str();
}

// Iterates with a bound, so that a broken iterator shows up as a wrong listing.
static std::vector<std::uint32_t> listing(const manifest_param &p, std::size_t bound) {
    std::vector<std::uint32_t> r;
    auto e = p.end();
    for (auto it = p.begin(); it != e; ++it) {
        r.push_back(*it);
        if (r.size() > bound) break;
    }
    return r;
}
// The same with the other way of stepping and comparing.
static std::vector<std::uint32_t> stepping(const manifest_param &p, std::size_t bound) {
    std::vector<std::uint32_t> r;
    auto e = p.end();
    auto it = p.begin();
    while (!(it == e)) {
        r.push_back(*it++);
        if (r.size() > bound) break;
    }
    return r;
}

static void check_param(const P &p, const S &model, const std::string &key, const std::string &what, std::uint32_t upto) {
    bool sat = p->is_satisfiable();
    if (sat != !model.empty())
        vf::violation(key + ":satisfiable", what + ": satisfiable=" + std::to_string(sat) + " but accepted values are " + show(model));
    for (std::uint32_t v = 0; v < upto; v++) {
        bool got = p->check_manifest_param(v), want = model.count(v) != 0;
        if (got != want) {
            vf::violation(key + ":member", what + ": exact acceptance of " + std::to_string(v) + " is " + std::to_string(got) +
                          ", accepted values are " + show(model));
            break;
        }
    }
    for (std::uint32_t v = 0; v < upto; v++) {
        bool got = p->check_manifest_param(v, false), want = !model.empty() && *model.begin() <= v;
        if (got != want) {
            vf::violation(key + ":fits", what + ": at-least acceptance of " + std::to_string(v) + " is " + std::to_string(got) +
                          ", accepted values are " + show(model));
            break;
        }
    }
    auto l = listing(*p, model.size() + 5);
    std::vector<std::uint32_t> want(model.begin(), model.end());
    if (l != want)
        vf::violation(key + ":iterate", what + ": iteration lists " + show(S(l.begin(), l.end())) + " (" + std::to_string(l.size()) +
                      " items), accepted values are " + show(model));
    l = stepping(*p, model.size() + 5);
    if (l != want)
        vf::violation(key + ":step", what + ": stepping lists " + show(S(l.begin(), l.end())) + " (" + std::to_string(l.size()) +
                      " items), accepted values are " + show(model));
    if (!model.empty() && sat && p->max_value_if_sat() != *model.rbegin())
        vf::violation(key + ":max", what + ": maximum reported " + std::to_string(p->max_value_if_sat()) + ", accepted values are " + show(model));
}

static S inter(const S &a, const S &b) { S r; for (auto v : a) if (b.count(v)) r.insert(v); return r; }

static S members(const P &p, std::uint32_t upto) { S r; for (std::uint32_t v = 0; v < upto; v++) if (p->check_manifest_param(v)) r.insert(v); return r; }

// What a merge must give: all the values of either side from some threshold on, each enough
// for both sides, nothing acceptable to both lost, and the same in either order.
static void check_merge(const S &a, const S &b, const P &r, const P &r2, const std::string &key, const std::string &what) {
    S m = members(r, U), m2 = members(r2, U);
    if (m != m2) { vf::violation(key + ":order", what + ": merged one way " + show(m) + ", the other way " + show(m2)); return; }
    if (a.empty() || b.empty()) {
        if (r->is_satisfiable() || !m.empty())
            vf::violation(key + ":unsat", what + ": one side accepts nothing but the merge accepts " + show(m));
        return;
    }
    if (!r->is_satisfiable() || m.empty()) { vf::violation(key + ":lost", what + ": merge accepts nothing"); return; }
    std::uint32_t lo = std::max(*a.begin(), *b.begin()), hi = std::max(*a.rbegin(), *b.rbegin());
    for (auto v : m) {
        if (v < lo) { vf::violation(key + ":toosmall", what + ": merge accepts " + std::to_string(v) + " which is too small for one side"); return; }
        if (!a.count(v) && !b.count(v)) { vf::violation(key + ":invented", what + ": merge accepts " + std::to_string(v) + " which neither side lists"); return; }
    }
    for (auto v : inter(a, b))
        if (!m.count(v)) { vf::violation(key + ":dropped", what + ": " + std::to_string(v) + " suits both sides but the merge " + show(m) + " rejects it"); return; }
    for (const S *s : {&a, &b})
        for (auto v : *s)
            if (v >= *m.begin() && !m.count(v)) { vf::violation(key + ":hole", what + ": merge " + show(m) + " leaves out " + std::to_string(v)); return; }
    if (*m.rbegin() != hi) vf::violation(key + ":max", what + ": merge " + show(m) + " does not reach " + std::to_string(hi));
    check_param(r, m, key, what + " merged", U);
}

static desc gen(vf::rng &g, int force = -1, bool clean = false) {
    desc d;
    int k = force >= 0 ? force : (g.chance(1, 12) ? 0 : int(g.range(1, 3)));
    d.kind = k;
    switch (k) {
        case 1: d.a = std::int32_t(g.range(0, 60)); break;
        case 2: {
            d.a = std::int32_t(g.range(0, 40));
            d.step = std::uint32_t(g.chance(1, 4) ? 1 : g.range(1, 14));
            d.b = g.chance(1, 10) ? std::int32_t(g.range(0, d.a)) : d.a + std::int32_t(g.range(1, 70));
            if (clean && d.b <= d.a) d.b = d.a + 1;
            break;
        }
        case 3: {
            std::size_t n = g.chance(1, 15) ? 0 : g.range(1, 7);
            for (std::size_t i = 0; i < n; i++) d.set.insert(std::uint32_t(g.range(0, 70)));
            if (clean && d.set.empty()) d.set.insert(3);
            break;
        }
    }
    return d;
}

// Two descriptions of one kind are equal when written alike and differ when they accept different values.
static void equality(const desc &A, const desc &B) {
    if (A.kind != B.kind) return;
    bool alike = A.a == B.a && A.b == B.b && A.step == B.step && A.set == B.set, differ = A.model() != B.model();
    if (!alike && !differ) return;
    bool got = A.kind == 0 ? manifest_unsat_param() == manifest_unsat_param() :
               A.kind == 1 ? manifest_single_value_param(A.a) == manifest_single_value_param(B.a) :
               A.kind == 2 ? manifest_range_param(A.a, A.b, A.step) == manifest_range_param(B.a, B.b, B.step) :
                             manifest_set_param(A.set) == manifest_set_param(B.set);
    vf::count("descriptions compared");
    // asked as what it is, a description answers as it does when asked as any requirement
    std::uint32_t v = std::uint32_t(B.a);
    bool own = A.kind == 0 ? manifest_unsat_param().check_manifest_param(v) :
               A.kind == 1 ? manifest_single_value_param(A.a).check_manifest_param(v) :
               A.kind == 2 ? manifest_range_param(A.a, A.b, A.step).check_manifest_param(v) :
                             manifest_set_param(A.set).check_manifest_param(v);
    if (own != (A.model().count(v) != 0)) vf::violation(std::string("asked:") + kname[A.kind], A.str() + " accepts " + std::to_string(v) + ": " + std::to_string(own));
    if (got != alike) vf::violation(std::string("equality:") + kname[A.kind], A.str() + " and " + B.str() + " compare as " + (got ? "equal" : "different"));
}

// Where a merge of two described requirements begins: at the larger of the smallest amounts; a single
// amount keeps only what the other side lists from it on, a range the members of a set from its start on.
static S merged(const desc &A, const desc &B) {
    if (A.kind > B.kind) return merged(B, A);
    S a = A.model(), b = B.model(), r;
    if (a.empty() || b.empty()) return r;
    std::uint32_t from = std::max(*a.begin(), *b.begin());
    if (A.kind == 1) {
        for (auto v : b) if (v >= *a.begin()) r.insert(v);
        if (r.empty()) r.insert(from);
        return r;
    }
    if (A.kind == 2 && B.kind == 3) {
        auto first = b.lower_bound(*a.begin());
        from = first == b.end() ? *a.begin() : *first;
    }
    for (auto v : a) if (v >= from) r.insert(v);
    for (auto v : b) if (v >= from) r.insert(v);
    return r;
}

static void pair_case(const desc &A, const desc &B, vf::rng &g) {
    std::string ks = std::string(kname[A.kind]) + "-" + kname[B.kind];
    S a = A.model(), b = B.model();
    vf::evaluated("pair " + A.str() + B.str());
    equality(A, B);
    if (g.chance(1, 8)) equality(A, A);
    vf::count("pairs of " + ks);
    if (g.chance(1, 400)) vf::sample(A.str() + " with " + B.str());
    {
        P pa = A.make(), pb = B.make();
        P r = pa->intersect(pb);
        S want = inter(a, b);
        check_param(r, want, "intersect:" + ks, A.str() + " intersect " + B.str(), U);
        if (A.kind == 2) check_param(pa, a, "operand:range", A.str() + " after use", U);
        if (want.empty()) vf::count("empty intersections"); else vf::count("non-empty intersections");
    }
    {
        P r = A.make()->merge_with(B.make()), r2 = B.make()->merge_with(A.make());
        std::string k2 = A.kind <= B.kind ? ks : std::string(kname[B.kind]) + "-" + kname[A.kind];
        check_merge(a, b, r, r2, "merge:" + k2, A.str() + " merge " + B.str());
        S m = members(r, U), want = merged(A, B);
        if (m != want) vf::violation("merge:" + k2 + ":begin", A.str() + " merge " + B.str() + " accepts " + show(m) + ", expected " + show(want));
        vf::count("merges compared");
    }
}

static void single_case(const desc &A, vf::rng &g) {
    S a = A.model();
    vf::evaluated("single " + A.str());
    check_param(A.make(), a, std::string("param:") + kname[A.kind], A.str(), U);
    std::ostringstream os;
    os << *A.make();
    if (os.str().empty()) vf::violation("param:print", A.str() + " prints nothing");
    for (int i = 0; i < 6; i++) {
        S v;
        std::vector<std::uint32_t> mv(a.begin(), a.end());
        if (!mv.empty() && i == 1) { std::size_t n = g.range(1, mv.size()); for (std::size_t j = 0; j < n; j++) v.insert(mv[j]); }            // a prefix
        else if (!mv.empty() && i == 2) { std::size_t n = g.range(1, mv.size()); for (std::size_t j = 0; j < n; j++) v.insert(mv[mv.size() - 1 - j]); }  // a suffix
        else if (!mv.empty() && i == 3) { for (auto x : mv) if (g.chance(1, 2)) v.insert(x); }
        else if (i == 4) v = a;
        if (i >= 3 || i == 0) { std::size_t n = g.range(0, 5); for (std::size_t j = 0; j < n; j++) v.insert(std::uint32_t(g.range(0, 90))); }
        S want;
        for (auto x : a) if (!v.count(x)) want.insert(x);
        check_param(A.make()->subtract(v), want, std::string("subtract:") + kname[A.kind], A.str() + " minus " + show(v), U);
        vf::count("subtractions");
    }
}

// Longer histories of operations on the results of operations.
static void chain_case(vf::rng &g, int len) {
    desc A = gen(g);
    P p = A.make();
    S m = A.model();
    std::string h = A.str();
    for (int i = 0; i < len; i++) {
        if (g.chance(1, 3)) {
            S v;
            for (auto x : m) if (g.chance(1, 3)) v.insert(x);
            if (g.chance(1, 2)) v.insert(std::uint32_t(g.range(0, 90)));
            S w;
            for (auto x : m) if (!v.count(x)) w.insert(x);
            p = p->subtract(v);
            m = w;
            h += " minus " + show(v);
            check_param(p, m, "chain:subtract", h, U);
        } else if (g.chance(1, 2)) {
            desc B = gen(g);
            p = g.chance(1, 2) ? p->intersect(B.make()) : B.make()->intersect(p);
            m = inter(m, B.model());
            h += " intersect " + B.str();
            check_param(p, m, "chain:intersect", h, U);
        } else {
            desc B = gen(g, -1, true);
            P q = B.make(), r = p->merge_with(q), r2 = q->merge_with(p);
            h += " merge " + B.str();
            check_merge(m, B.model(), r, r2, "chain:merge", h);
            p = r;
            m = members(p, U);
        }
        vf::count("chained operations");
    }
    vf::evaluated("chain " + h);
    if (g.chance(1, 200)) vf::sample(h);
}

// Ranges whose numbers are large: model by enumeration of one side.
static void large_case(vf::rng &g) {
    auto mk = [&] {
        desc d;
        d.kind = 2;
        static const std::uint32_t caps[] = {1000, 20000, 100500};
        std::uint32_t cap = caps[g.range(0, 2)];
        d.a = std::int32_t(g.range(0, cap / 2));
        d.b = d.a + std::int32_t(g.range(1, cap));
        d.step = std::uint32_t(g.range(1, g.chance(1, 2) ? 40 : cap / 8));
        return d;
    };
    desc A = mk(), B = mk();
    if (g.chance(1, 4)) B.step = A.step;
    if (g.chance(1, 4)) B.a = A.a % std::int32_t(B.step) + std::int32_t(B.step) * std::int32_t(g.range(0, 5));
    if (B.b <= B.a) B.b = B.a + 1;
    std::string what = A.str() + " intersect " + B.str();
    vf::evaluated("large " + what);
    vf::count("large range pairs");
    S want;
    for (std::int64_t v = A.a; v < A.b; v += A.step)
        if (v >= B.a && v < B.b && (v - B.a) % B.step == 0) want.insert(std::uint32_t(v));
    P r = A.make()->intersect(B.make());
    auto l = listing(*r, want.size() + 3);
    if (r->is_satisfiable() != !want.empty() || S(l.begin(), l.end()) != want || l.size() != want.size()) {
        vf::violation("intersect:range-range:large", what + ": lists " + show(S(l.begin(), l.end())) + " want " + show(want));
        return;
    }
    if (!want.empty() && r->max_value_if_sat() != *want.rbegin())
        vf::violation("intersect:range-range:large-max", what + ": max " + std::to_string(r->max_value_if_sat()) + " want " + std::to_string(*want.rbegin()));
    // merge of large ranges, by membership at the borders
    P m = A.make()->merge_with(B.make()), m2 = B.make()->merge_with(A.make());
    S a = A.model(), b = B.model();
    std::uint32_t lo = std::max(*a.begin(), *b.begin()), hi = std::max(*a.rbegin(), *b.rbegin());
    for (std::uint32_t v : {lo, hi, lo + 1, hi - 1, hi + 1, lo ? lo - 1 : 0, std::uint32_t(A.b), std::uint32_t(B.b), std::uint32_t(A.a), std::uint32_t(B.a),
                            std::uint32_t(g.range(lo, hi)), std::uint32_t(g.range(lo, hi))}) {
        bool got = m->check_manifest_param(v), got2 = m2->check_manifest_param(v);
        bool may = v >= lo && (a.count(v) || b.count(v)), must = (a.count(v) && b.count(v)) || v == hi;
        if (got != got2 || (got && !may) || (must && !got)) {
            vf::violation("merge:range-range:large", A.str() + " merge " + B.str() + ": acceptance of " + std::to_string(v) + " is " +
                          std::to_string(got) + "/" + std::to_string(got2));
            break;
        }
    }
}

// The same questions and combinations for large numbers, long sets and long ranges, asked at the
// accepted values, beside them and at values that look like them in fewer bits.
static desc gen_grand(vf::rng &g, std::uint32_t cap) {
    desc d;
    d.kind = int(g.range(1, 3));
    if (d.kind == 1) d.a = std::int32_t(g.range(0, cap));
    else if (d.kind == 2) {
        std::uint32_t n = std::uint32_t(g.range(1, g.chance(1, 4) ? 400 : 40));
        d.a = std::int32_t(g.range(0, cap));
        d.step = std::uint32_t(g.range(1, std::max<std::uint32_t>(cap / n, 2)));
        d.b = std::int32_t(d.a + std::int64_t(n - 1) * d.step + std::int64_t(g.range(1, d.step)));
        if (g.chance(1, 12)) d.b = d.a - std::int32_t(std::min<std::uint32_t>(std::uint32_t(d.a), std::uint32_t(g.range(0, 3))));
    } else {
        std::size_t n = g.range(1, g.chance(1, 4) ? 120 : 12);
        for (std::size_t i = 0; i < n; i++) d.set.insert(std::uint32_t(g.range(0, 2ull * cap)));
    }
    return d;
}
static void align(vf::rng &g, desc &B, const desc &A) {
    // make the two meet
    S a = A.model();
    if (a.empty() || !g.chance(2, 3)) return;
    std::uint32_t v = *std::next(a.begin(), std::ptrdiff_t(g.range(0, a.size() - 1)));
    if (B.kind == 1) B.a = std::int32_t(v);
    else if (B.kind == 3) for (auto x : a) { if (g.chance(1, 2)) B.set.insert(x); }
    else if (B.kind == 2 && B.b > B.a) {
        std::int64_t k = std::int64_t(g.range(0, std::min<std::uint64_t>(v / B.step, std::uint64_t(B.b - B.a) / B.step)));
        std::int64_t len = std::int64_t(B.b) - B.a;
        B.a = std::int32_t(v - k * B.step);
        B.b = std::int32_t(B.a + len);
    }
}
static S probes(const S &a, const S &b, vf::rng &g) {
    S q = {0, 1};
    for (const S *s : {&a, &b}) for (auto v : *s) {
        q.insert(v);
        q.insert(v + 1);
        if (v) q.insert(v - 1);
        for (std::uint32_t w : {256u, 65536u, 1u << 24}) { q.insert(v + w); if (v >= w) q.insert(v - w); }
        q.insert(v & 255);
        q.insert(v & 65535);
    }
    for (int i = 0; i < 20; i++) q.insert(std::uint32_t(g.range(0, 0x7ffffffe)));
    return q;
}
static void check_probed(const P &p, const S &model, const S &q, const std::string &key, const std::string &what) {
    if (p->is_satisfiable() != !model.empty()) { vf::violation(key + ":satisfiable", what + ": accepted values are " + show(model)); return; }
    for (auto v : q) {
        if (v > 0x7ffffffe) continue;
        bool in = model.count(v) != 0, from = !model.empty() && *model.begin() <= v;
        if (p->check_manifest_param(v) != in) { vf::violation(key + ":member", what + ": exact acceptance of " + std::to_string(v) + " is " + std::to_string(!in)); return; }
        if (p->check_manifest_param(v, false) != from) { vf::violation(key + ":fits", what + ": at-least acceptance of " + std::to_string(v) + " is " + std::to_string(!from)); return; }
    }
    std::vector<std::uint32_t> want(model.begin(), model.end());
    if (listing(*p, want.size() + 5) != want) { vf::violation(key + ":iterate", what + ": iteration does not list " + show(model)); return; }
    if (!model.empty() && p->max_value_if_sat() != *model.rbegin()) vf::violation(key + ":max", what + ": maximum reported " + std::to_string(p->max_value_if_sat()));
}
static void grand_case(vf::rng &g) {
    static const std::uint32_t caps[] = {200, 300, 5000, 70000, 1u << 20, 1u << 25, 1u << 29};
    std::uint32_t cap = caps[g.range(0, 6)];
    desc A = gen_grand(g, cap), B = gen_grand(g, g.chance(3, 4) ? cap : caps[g.range(0, 6)]);
    align(g, B, A);
    S a = A.model(), b = B.model(), q = probes(a, b, g);
    std::string ks = std::string(kname[A.kind]) + "-" + kname[B.kind], what = A.str() + " with " + B.str();
    vf::evaluated("grand " + what);
    vf::count("grand pairs");
    equality(A, B);
    equality(A, A);
    P pa = A.make(), pb = B.make();
    check_probed(pa, a, q, std::string("grand:") + kname[A.kind], A.str());
    S both = inter(a, b);
    if (!both.empty()) vf::count("grand intersections");
    check_probed(pa->intersect(pb), both, q, "grand:intersect:" + ks, what);
    check_probed(pa->merge_with(pb), merged(A, B), q, "grand:merge:" + ks, what);
    // taking values away: a prefix, a suffix, some, all but some, all, and ones not there
    std::vector<std::uint32_t> v(a.begin(), a.end());
    for (int i = 0; i < 6; i++) {
        S out;
        std::size_t n = v.empty() ? 0 : g.range(0, v.size());
        for (std::size_t j = 0; j < v.size(); j++)
            if (i == 0 ? j < n : i == 1 ? j + n >= v.size() : i == 2 ? g.chance(1, 3) : i == 3 ? j != n : i == 4 ? true : false) out.insert(v[j]);
        if (i == 5 || g.chance(1, 3)) for (std::size_t j = g.range(1, 6); j; j--) out.insert(std::uint32_t(g.range(0, 2ull * cap)));
        S left;
        for (auto x : a) if (!out.count(x)) left.insert(x);
        P r = pa->subtract(out);
        check_probed(r, left, q, std::string("grand:subtract:") + kname[A.kind], A.str() + " minus " + show(out));
        // and the rest is used like any other
        if (i == int(g.range(0, 5))) check_probed(r->intersect(pb), inter(left, b), q, "grand:subtract-intersect:" + ks, A.str() + " minus " + show(out) + " intersect " + B.str());
        vf::count("grand subtractions");
    }
    // the operands are what they were
    check_probed(pa, a, q, "grand:operand", A.str() + " after use");
    check_probed(pb, b, q, "grand:operand", B.str() + " after use");
    // a set grows by the values added, and only by those
    if (A.kind == 3) {
        auto grown = std::make_shared<manifest_set_param>(A.set);
        S m = a;
        for (auto x : b) { grown->add_value(x); m.insert(x); if (m.size() > 200) break; }
        check_probed(grown, m, q, "grand:grown", what);
        check_probed(pa, a, q, "grand:operand", A.str() + " after another grew");
        vf::count("sets grown");
    }
    // an offer bounds it
    std::uint32_t mx = std::uint32_t(g.chance(1, 2) && !a.empty() ? *std::next(a.begin(), std::ptrdiff_t(g.range(0, a.size() - 1))) - g.chance(1, 3) : g.range(0, 2ull * cap));
    if (mx > 0x7ffffff0) mx = 0x7ffffff0;
    S want;
    for (auto x : a) if (x <= mx) want.insert(x);
    plonk_component_manifest cm(pa, g.chance(1, 2));
    compiler_manifest offer(mx, true);
    check_probed(offer.intersect(cm).witness_amount, want, q, "grand:offer", A.str() + " offered " + std::to_string(mx));
    compiler_manifest late(std::uint32_t(g.range(0, cap)), true);
    late.set_max_witness_amount(mx);
    check_probed(late.intersect(cm).witness_amount, want, q, "grand:offer:set", A.str() + " offered " + std::to_string(mx));
    compiler_manifest again(offer);
    again.set_max_witness_amount(std::uint32_t(cap));
    if (offer.get_max_witness_amount() != mx) vf::violation("grand:offer:shared", what);
    check_probed(offer.intersect(cm).witness_amount, want, q, "grand:offer:shared", A.str() + " offered " + std::to_string(mx));
    // what it prints names its numbers
    std::ostringstream os;
    os << *pa;
    std::vector<std::uint64_t> shown, expect;
    std::string text = os.str(), digits;
    for (char ch : text + " ") { if (std::isdigit(static_cast<unsigned char>(ch))) digits += ch; else if (!digits.empty()) { shown.push_back(std::stoull(digits)); digits.clear(); } }
    if (A.kind == 1) expect = {std::uint64_t(A.a)};
    else if (A.kind == 2) expect = {std::uint64_t(A.a), std::uint64_t(A.b), A.step};
    else expect.assign(a.begin(), a.end());
    if (shown != expect) vf::violation(std::string("grand:print:") + kname[A.kind], A.str() + " prints as " + text);
    if (g.chance(1, 200)) vf::sample("large: " + what.substr(0, 120));
}

// Whole manifests: witness amount and constant requirement together, against a compiler's offer.
static void component_case(vf::rng &g) {
    using ct = manifest_constant_type;
    static const ct::type cts[] = {ct::type::NONE, ct::type::UNSAT, ct::type::REQUIRED};
    desc A = gen(g), B = gen(g);
    ct ca = cts[g.range(0, 2)], cb = cts[g.range(0, 2)];
    std::uint32_t mx = std::uint32_t(g.range(0, 60));
    bool hc = g.chance(1, 2);
    std::string what = A.str() + "/" + std::to_string(int(ca.t)) + " , " + B.str() + "/" + std::to_string(int(cb.t)) + " offer " +
                       std::to_string(mx) + "," + std::to_string(hc);
    vf::evaluated("component " + what);
    vf::count("component manifests");
    plonk_component_manifest ma(A.make(), ca), mb(B.make(), cb);
    S a = A.model(), b = B.model();
    auto verify = [&](const plonk_component_manifest &m, const S &model, ct c, const std::string &key) {
        bool sat = !model.empty() && c != ct::type::UNSAT;
        if (m.is_satisfiable() != sat) vf::violation(key + ":satisfiable", what + ": satisfiable=" + std::to_string(m.is_satisfiable()));
        for (std::uint32_t w = 0; w < U; w++)
            for (std::uint32_t cn = 0; cn < 3; cn++) {
                bool cok = c == ct::type::NONE || (c == ct::type::REQUIRED && cn > 0);
                bool fit = cok && !model.empty() && *model.begin() <= w, exact = cok && model.count(w);
                if (m.check_manifest(w, cn) != fit || m.check_manifest(w, cn, false) != fit || m.check_manifest(w, cn, true) != exact) {
                    vf::violation(key + ":check", what + ": columns " + std::to_string(w) + " constants " + std::to_string(cn) + ": at-least " +
                                  std::to_string(m.check_manifest(w, cn)) + " exact " + std::to_string(m.check_manifest(w, cn, true)));
                    return;
                }
            }
    };
    verify(ma, a, ca, "component:own");
    plonk_component_manifest copy(ma);
    verify(copy, a, ca, "component:copy");
    // offers
    compiler_manifest offer(mx, hc), offer2(0, hc);
    offer2.set_max_witness_amount(mx);
    if (offer.get_max_witness_amount() != mx || offer2.get_max_witness_amount() != mx) vf::violation("component:offer:max", what);
    // offers are ordered by what they hold
    compiler_manifest offer3(std::uint32_t(mx + g.range(0, 1)), g.chance(1, 2));
    bool alike = offer3.get_max_witness_amount() == mx && offer3.has_constant == hc;
    if (int(offer < offer3) + int(offer3 < offer) != int(!alike) || offer < offer2 || offer2 < offer) vf::violation("component:offer:order", what);
    S want;
    for (auto v : a) if (v <= mx) want.insert(v);
    ct wc = ca == ct::type::UNSAT || (ca == ct::type::REQUIRED && !hc) ? ct::type::UNSAT : ca.t;
    verify(offer.intersect(ma), want, wc, "component:offer");
    verify(offer2.intersect(ma), want, wc, "component:offer-set");
    // merging
    plonk_component_manifest m = ma.merge_with(mb), m2 = mb.merge_with(ma);
    ct mc = (ca == ct::type::UNSAT || cb == ct::type::UNSAT) ? ct::type::UNSAT :
            (ca == ct::type::REQUIRED || cb == ct::type::REQUIRED) ? ct::type::REQUIRED : ct::type::NONE;
    if (m.constant_required != mc || m2.constant_required != mc) vf::violation("component:merge:constant", what);
    check_merge(a, b, m.witness_amount, m2.witness_amount, "component:merge", what);
    verify(m, members(m.witness_amount, U), mc, "component:merged");
}

static void lookup_types() {
    using lt = manifest_lookup_type;
    static const lt::type ts[] = {lt::type::NONE, lt::type::UNSAT, lt::type::REQUIRED, lt::type::OPTIONAL};
    auto allowed = [](lt::type t) { S r; if (t == lt::type::NONE) r = {0}; if (t == lt::type::REQUIRED) r = {1}; if (t == lt::type::OPTIONAL) r = {0, 1}; return r; };
    for (auto x : ts) for (auto y : ts) {
        vf::evaluated("lookup type " + std::to_string(int(x)) + std::to_string(int(y)));
        S w = inter(allowed(x), allowed(y));
        lt r = lt(x).intersect(lt(y));
        if (allowed(r.t) != w) vf::violation("lookup-type:intersect", std::to_string(int(x)) + "," + std::to_string(int(y)) + " -> " + std::to_string(int(r.t)));
        // merging: a part that needs lookups makes the whole need them, UNSAT is absorbing
        lt m = lt(x).merge_with(lt(y));
        lt::type want = x == lt::type::UNSAT || y == lt::type::UNSAT ? lt::type::UNSAT : x == lt::type::REQUIRED || y == lt::type::REQUIRED ? lt::type::REQUIRED :
                        x == lt::type::OPTIONAL || y == lt::type::OPTIONAL ? lt::type::OPTIONAL : lt::type::NONE;
        if (m.t != want) vf::violation("lookup-type:merge", std::to_string(int(x)) + "," + std::to_string(int(y)) + " -> " + std::to_string(int(m.t)));
        bool same = x == y;
        if ((lt(x) == lt(y)) != same || (lt(x) != lt(y)) == same || int(lt(x) < lt(y)) + int(lt(y) < lt(x)) != int(!same))
            vf::violation("lookup-type:compare", std::to_string(int(x)) + "," + std::to_string(int(y)));
        std::ostringstream os; os << lt(x);
        std::ostringstream os2; os2 << lt(y);
        if (os.str().empty() || (os.str() == os2.str()) != same) vf::violation("lookup-type:print", std::to_string(int(x)) + " prints as " + os.str());
    }
    using ct = manifest_constant_type;
    static const ct::type cs[] = {ct::type::NONE, ct::type::UNSAT, ct::type::REQUIRED};
    for (auto x : cs) for (auto y : cs) {
        vf::evaluated("constant type " + std::to_string(int(x)) + std::to_string(int(y)));
        bool same = x == y;
        if ((ct(x) == ct(y)) != same || (ct(x) != ct(y)) == same || int(ct(x) < ct(y)) + int(ct(y) < ct(x)) != int(!same))
            vf::violation("constant-type:compare", std::to_string(int(x)) + "," + std::to_string(int(y)));
        std::ostringstream os, os2; os << ct(x); os2 << ct(y);
        if (os.str().empty() || (os.str() == os2.str()) != same) vf::violation("constant-type:print", std::to_string(int(x)) + " prints as " + os.str());
    }
    if (ct(true) != ct(ct::type::REQUIRED) || ct(false) != ct(ct::type::NONE) || ct() != ct(ct::type::NONE)) vf::violation("constant-type:bool", "");
}

// ---- gate counts -------------------------------------------------------------------------
static std::uint32_t live_gate_calls = 0;
template<int K>
struct gate_kind : component_gate_manifest {
    int param; std::uint32_t n;
    gate_kind(int p, std::uint32_t n_) : param(p), n(n_) {}
    std::uint32_t gates_amount() const override { live_gate_calls++; return n; }
    bool operator<(const component_gate_manifest *o) const override { return param < dynamic_cast<const gate_kind *>(o)->param; }
};
struct plain_kind : component_gate_manifest {    // relies on the default comparison
    std::uint32_t gates_amount() const override { return 3; }
};

// kinds picked at run time out of many
template<int K>
static void add_kind(gate_manifest &m, int k, int p, std::uint32_t a) {
    if constexpr (K > 0) {
        if (k == K) m.add(gate_kind<K>(p, a)); else add_kind<K - 1>(m, k, p, a);
    } else m.add(gate_kind<0>(p, a));
}

static void crowd_case(vf::rng &g) {
    gate_manifest x;
    std::map<std::pair<int, int>, std::uint32_t> model;
    auto amount = [](int k, int p) { return std::uint32_t((std::uint32_t(k) * 7919u + std::uint32_t(p) * 104729u) % 5000); };
    auto total = [](const std::map<std::pair<int, int>, std::uint32_t> &m) { std::uint32_t r = 0; for (auto &e : m) r += e.second; return r; };
    std::string h;
    int n = int(g.range(2, 80));
    auto check = [&](const gate_manifest &m, const std::map<std::pair<int, int>, std::uint32_t> &want, const char *key) {
        if (m.get_gates_amount() != total(want)) vf::violation(std::string("gates:") + key, h + ": " + std::to_string(m.get_gates_amount()) + " want " + std::to_string(total(want)));
    };
    for (int i = 0; i < n; i++) {
        int k = int(g.range(0, 47)), p = g.chance(1, 4) ? int(g.next()) : int(g.range(0, 2));
        h += std::to_string(k) + "." + std::to_string(p) + " ";
        if (g.chance(1, 4)) {
            // a copy grows alone
            gate_manifest c(x), d;
            d = x;
            auto grown = model;
            grown[{k, p}] = amount(k, p);
            add_kind<47>(c, k, p, amount(k, p));
            check(x, model, "copied-from");
            check(c, grown, "copy");
            d.merge_with(c);
            check(d, grown, "assigned");
            check(c, grown, "merged-from");
            if (g.chance(1, 2)) { x = c; model = grown; }
        } else {
            add_kind<47>(x, k, p, amount(k, p));
            model[{k, p}] = amount(k, p);
        }
        check(x, model, "crowd");
    }
    vf::evaluated("crowd " + h);
    vf::count("crowded gate manifests");
}

static void gates_case(vf::rng &g) {
    std::vector<gate_manifest> ms;
    std::vector<std::map<std::pair<int, int>, std::uint32_t>> models;
    std::string h;
    auto amount = [](int k, int p) { return std::uint32_t(1 + (k * 7 + p * 3) % 5); };
    int n = int(g.range(1, 6));
    for (int i = 0; i < n; i++) {
        gate_manifest m;
        std::map<std::pair<int, int>, std::uint32_t> model;
        int c = int(g.range(0, 6));
        for (int j = 0; j < c; j++) {
            int k = int(g.range(0, 4)), p = int(g.range(0, 3));
            std::uint32_t a = amount(k, p);
            switch (k) {
                case 0: m.add(gate_kind<0>(p, a)); break;
                case 1: m.add(gate_kind<1>(p, a)); break;
                case 2: m.add(gate_kind<2>(p, a)); break;
                case 3: m = gate_manifest(m); m.add(gate_kind<3>(p, a)); break;
                default: m.add(plain_kind()); p = 0; a = 3;
            }
            model[{k, p}] = a;
            h += std::to_string(k) + "." + std::to_string(p) + " ";
        }
        h += "| ";
        ms.push_back(m);
        models.push_back(model);
    }
    auto total = [](const std::map<std::pair<int, int>, std::uint32_t> &m) { std::uint32_t r = 0; for (auto &x : m) r += x.second; return r; };
    for (int i = 0; i < n; i++)
        if (ms[i].get_gates_amount() != total(models[i]))
            vf::violation("gates:add", h + ": " + std::to_string(ms[i].get_gates_amount()) + " want " + std::to_string(total(models[i])));
    // merge in two different orders, with repeats
    gate_manifest x, y;
    std::map<std::pair<int, int>, std::uint32_t> all;
    for (int i = 0; i < n; i++) { x.merge_with(ms[i]); all.insert(models[i].begin(), models[i].end()); }
    for (int i = n - 1; i >= 0; i--) { y.merge_with(ms[i]); if (g.chance(1, 2)) y.merge_with(x); }
    if (x.get_gates_amount() != total(all) || y.get_gates_amount() != total(all))
        vf::violation("gates:merge", h + ": " + std::to_string(x.get_gates_amount()) + "/" + std::to_string(y.get_gates_amount()) + " want " + std::to_string(total(all)));
    gate_manifest z((plain_kind()));
    if (z.get_gates_amount() != 3) vf::violation("gates:from-one", std::to_string(z.get_gates_amount()));
    z.merge_with(z);
    if (z.get_gates_amount() != 3) vf::violation("gates:self", std::to_string(z.get_gates_amount()));
    vf::evaluated("gates " + h);
    vf::count("gate manifests");
    if (g.chance(1, 300)) vf::sample("gate manifest " + h);
}

int main() {
    vf::init();
    std::string prop = vf::st().prop;
    auto blocks = [&](const std::string &name, std::uint64_t nblocks, std::uint64_t per, auto &&f) {
        for (std::uint64_t i = 0; i < nblocks; i++)
            vf::run_case(name + "/" + std::to_string(i), name, [&] {
                auto g = vf::case_rng(name + std::to_string(i));
                for (std::uint64_t j = 0; j < per; j++) f(g);
            });
    };
    std::uint64_t B = vf::scaled(160, 2000);
    if (prop != "C06") {
        // exhaustive over small ranges and pairs of them
        std::vector<desc> all;
        all.push_back({0});
        for (int v = 0; v < 9; v++) { desc d{1}; d.a = v; all.push_back(d); }
        for (int a = 0; a < 7; a++) for (int b = a - 1 < 0 ? 0 : a - 1; b < 13; b++) for (int s = 1; s < 6; s++) { desc d{2}; d.a = a; d.b = b; d.step = s; all.push_back(d); }
        for (int m = 0; m < 64; m++) { desc d{3}; for (int j = 0; j < 6; j++) if (m >> j & 1) d.set.insert(std::uint32_t(j * 2 + (j & 1))); all.push_back(d); }
        std::size_t stride = vf::thorough() ? 1 : 5;
        for (std::size_t i = 0; i < all.size(); i++)
            vf::run_case("small/" + std::to_string(i), "small", [&] {
                auto g = vf::case_rng("small" + std::to_string(i));
                single_case(all[i], g);
                for (std::size_t j = (i + vf::st().seed) % stride; j < all.size(); j += stride) pair_case(all[i], all[j], g);
            });
        blocks("pairs", B, 300, [](vf::rng &g) { auto A = gen(g), B = gen(g); pair_case(A, B, g); });
        blocks("ranges", B, 300, [](vf::rng &g) { auto A = gen(g, 2), B = gen(g, 2); pair_case(A, B, g); });
        blocks("one", B, 200, [](vf::rng &g) { single_case(gen(g), g); });
        blocks("chain", B, 60, [](vf::rng &g) { chain_case(g, int(g.range(2, 6))); });
        blocks("large", B, 60, [](vf::rng &g) { large_case(g); });
        blocks("grand", B, 12, [](vf::rng &g) { grand_case(g); });
        blocks("component", B, 80, [](vf::rng &g) { component_case(g); });
        vf::run_case("lookup-types", "lookup-types", lookup_types);
    }
    if (prop != "C05") blocks("gates", B, 200, [](vf::rng &g) { gates_case(g); });
    if (prop != "C05") blocks("crowd", B, 10, [](vf::rng &g) { crowd_case(g); });
    return vf::finish();
}
