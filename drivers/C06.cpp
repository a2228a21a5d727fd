#include "common.h"
#include <climits>
#include <map>
#include <random>
#include <iostream>
#include "Geometry.h"
extern "C" { size_t getPeakRSS() { return 0; } size_t getCurrentRSS() { return 0; } }
using namespace vf;
typedef uint64_t K;
struct Range { K lo, hi; };
static std::vector<Range> ranges(size_t n) { // disjoint, non-empty, in random order; touching and separated ones, small and far identifiers
    std::vector<Range> v; K at = below(3) ? below(5) : (K(1) << (20 + below(40))) + below(9);
    for (size_t i = 0; i < n; ++i) { K w = 1 + below(below(4) ? 4 : 70); v.push_back({at, at + w}); at += w; if (below(2)) at += 1 + below(below(3) ? 3 : 1000000); }
    for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    return v;
}
static std::string show(const std::vector<Range> &v) { std::string s; for (auto &r : v) s += cat("[", r.lo, ",", r.hi, ")"); return s; }
static K probe(const std::vector<Range> &v) { const Range &r = v[below(v.size())]; switch (below(6)) { case 0: return r.lo; case 1: return r.hi - 1; case 2: return r.hi; case 3: return r.lo - (r.lo > 0); case 4: return r.lo + below(r.hi - r.lo); default: return below(4) ? rnd() >> 1 : r.hi + below(10); } }
static bool inside(const std::vector<Range> &v, K k) { for (auto &r : v) if (r.lo <= k && k < r.hi) return true; return false; }
typedef BlockedArray2<K, K> BA;
// every observation of a store against its ranges and contents
template <class A> static void whole(A &a, const std::vector<Range> &v, const std::map<K, K> &ref) {
    const A &ca = a; uint n = v.size(); K low = ~K(0), up = 0; for (auto &r : v) low = std::min(low, r.lo), up = std::max(up, r.hi);
    check(ca.lowerBound() == low && ca.upperBound() == up, "bounds of the store");
    check(ca.exact_size() == ref.size(), cat("exact size ", ca.exact_size(), ", expected ", ref.size()));
    for (auto &kv : ref) { uint h = below(n), h2 = below(n), h3 = below(n);
        check(ca.contains(kv.first, h) && h < n, cat("stored identifier ", kv.first, " is not found"));
        check(&ca.at(kv.first, h2) == &a.at(kv.first, h3) && &ca.at(kv.first, h) == &a.at(kv.first, h3) && h2 < n && h3 < n, cat("accesses to ", kv.first, " with different hints disagree"));
        check(a.at(kv.first, h3) == kv.second, cat("identifier ", kv.first, " lost its content")); 
        check(ca.unsafe_contains(kv.first) && ca.unsafe_at(kv.first) == kv.second && a.unsafe_at(kv.first) == kv.second, cat("unhinted access to ", kv.first)); }
    for (int i = 0; i < 60; ++i) { K k = probe(v); for (uint h0 = 0; h0 < n; ++h0) { uint h = h0; bool b = ca.contains(k, h); check(b == inside(v, k), cat("contains(", k, ", hint ", h0, ") is ", b)); check(h < n, "hint left the store"); if (b) check(ca.at(k, h) == ref.at(k), "at after contains"); }
        check(ca.unsafe_contains(k) == inside(v, k), cat("unsafe_contains(", k, ")"));
        if (!inside(v, k)) { uint h = below(n); bool t = false; try { (void)ca.at(k, h); } catch (const std::out_of_range &) { t = true; } check(t, cat("at(", k, ") outside every range does not throw")); } }
    auto r = ref.begin(); for (auto it = a.begin(); it != a.end(); ++it, ++r) { check(r != ref.end(), "iteration visits more cells than stored"); check(*it == r->second && &*it == &a.unsafe_at(r->first), cat("iteration does not visit ", r->first, " next")); }
    check(r == ref.end(), "iteration ends early");
    r = ref.begin(); for (auto it = ca.begin(); it != ca.end(); it++, ++r) { check(r != ref.end() && &*it == &ca.unsafe_at(r->first), "const iteration"); } check(r == ref.end(), "const iteration ends early");
    auto b = ref.rbegin(); auto it = a.end(); while (it != a.begin()) { --it; check(b != ref.rend() && &*it == &a.unsafe_at(b->first), "backward iteration"); ++b; } check(b == ref.rend(), "backward iteration ends early");
    auto r2 = ref.begin(); for (auto i1 = ca.begin(); i1 != ca.end(); ++i1, ++r2) { auto i2 = i1; auto o = i2++; check(o == i1 && !(i2 == i1) && i1 < i2 && i2 > i1 && i1 <= i2 && i2 >= i1 && i1 <= o && !(i1 < o), "iterator comparisons"); }
}
static void stores(int R) {
    for (int q = 0; q < R; ++q) {
        auto v = ranges(1 + below(q % 7 == 0 ? 40 : 7)); size_t cut = v.size() > 1 && below(2) ? 1 + below(v.size() - 1) : v.size(); 
        begin(cat("BlockedArray2 ranges ", show(v), " merged from ", cut));
        std::map<K, K> ref; auto fill = [&](BA &a, size_t f, size_t t) { for (size_t i = f; i < t; ++i) for (K k = v[i].lo; k < v[i].hi; ++k) { K x = rnd(); uint h = below(t - f); if (below(2)) a.at(k, h) = x; else a.unsafe_at(k) = x; ref[k] = x; } };
        BA a(v[0].lo, v[0].hi); bool interleave = below(2); std::vector<Range> sofar{v[0]}; if (interleave) { fill(a, 0, 1); whole(a, sofar, ref); }
        for (size_t i = 1; i < cut; ++i) { auto &blk = a.addBlock(v[i].lo, v[i].hi); check(blk.min() == v[i].lo && blk.max() == v[i].hi, "the reference returned by addBlock is another block"); blk.at(v[i].lo) = 77; uint h = 0; check(a.at(v[i].lo, h) == 77, "the block returned by addBlock is not the stored one");
            sofar.push_back(v[i]); if (interleave) { for (K k = v[i].lo; k < v[i].hi; ++k) { ref[k] = rnd(); uint h2 = below(i); a.at(k, h2) = ref[k]; } if (below(3) == 0) whole(a, sofar, ref); } }
        if (!interleave) fill(a, 0, cut);
        if (cut < v.size()) { BA b(v[cut].lo, v[cut].hi); for (size_t i = cut + 1; i < v.size(); ++i) b.addBlock(v[i].lo, v[i].hi); fill(b, cut, v.size()); for (int i = 0; i < 5; ++i) (void)b.unsafe_contains(probe(v)); a.merge(std::move(b)); }
        if (below(4) == 0) { BA c(std::move(a)); whole(c, v, ref); continue; }
        if (below(4) == 0) { BA c(3, 9); if (below(2)) c.addBlock(20, 30), (void)c.unsafe_contains(25); c = std::move(a); whole(c, v, ref); continue; }
        whole(a, v, ref);
    }
}
typedef dSimplices<2, double> DS;
static void simplices(int R) {
    for (int q = 0; q < R; ++q) {
        auto v = ranges(1 + below(6)); size_t cut = v.size() > 1 && below(2) ? 1 + below(v.size() - 1) : v.size(); unsigned dens = below(5);
        begin(cat("dSimplices ranges ", show(v), " merged from ", cut, " density ", dens));
        std::set<K> live; auto fill = [&](DS &a, size_t f, size_t t) { for (size_t i = f; i < t; ++i) for (K k = v[i].lo; k < v[i].hi; ++k) { uint h = below(t - f); auto &s = a.at(k, h); if (below(4) < dens) { s.id = k; live.insert(k); } else s.id = dSimplex<2, double>::cINF; } };
        DS a(v[0].lo, v[0].hi, 0); for (size_t i = 1; i < cut; ++i) a.addBlock(v[i].lo, v[i].hi); fill(a, 0, cut);
        if (cut < v.size()) { DS b(v[cut].lo, v[cut].hi, 0); for (size_t i = cut + 1; i < v.size(); ++i) b.addBlock(v[i].lo, v[i].hi); fill(b, cut, v.size()); a.merge(std::move(b)); }
        const DS &ca = a; uint n = v.size(); BlockedArray2Handle<DS, tIdType> hd(a); BlockedArray2Handle<const DS, tIdType> chd(ca);
        for (int i = 0; i < 200; ++i) { K k = probe(v); uint h = below(n), h2 = below(n); bool in = inside(v, k), l = live.count(k);
            check(ca.contains(k, h) == l, cat("contains(", k, ")")); check(ca.inRange(k, h2) == in, cat("inRange(", k, ")")); check(h < n && h2 < n, "hint left the store");
            check(ca.unsafe_contains(k) == l && ca.unsafe_inRange(k) == in, cat("unhinted membership of ", k)); check(hd.contains(k) == l && chd.contains(k) == l && hd.inRange(k) == in && chd.inRange(k) == in, cat("handle membership of ", k));
            dSimplex<2, double> s; s.id = k; check(ca.contains(s, h) == l && ca.inRange(s, h2) == in && ca.unsafe_contains(s) == l && ca.unsafe_inRange(s) == in, cat("membership by simplex of ", k));
            if (in) { check(&hd[k] == &ca.at(k, h) && &chd[k] == &hd[k] && &hd.at(k) == &chd.at(k) && &a.unsafe_at(k) == &hd[k], cat("accessors of ", k)); check(hd[k].id == (l ? k : K(dSimplex<2, double>::cINF)), cat("content of ", k)); } }
        auto e = live.begin(); size_t steps = 0; for (auto it = a.begin(); it != a.end(); ++it, ++e) { check(e != live.end() && it->id == *e && (*it).id == *e, "iteration does not visit the valid simplices in order"); ++steps; } check(e == live.end(), "iteration ends early");
        e = live.begin(); for (auto it = ca.begin(); it != ca.end(); it++, ++e) check(e != live.end() && it->id == *e, "const iteration"); check(e == live.end(), "const iteration ends early");
        if (!live.empty()) { auto b = live.rbegin(); auto it = ca.end(); for (; b != live.rend(); ++b) { --it; check(it->id == *b, "backward iteration"); } }
        check(steps == live.size(), "number of visited simplices");
        // the halves of the range together visit every valid simplex once
        if (live.size() > 1) { _detail::range_type<const DS, typename DS::const_iterator> rg(ca, 1 + below(4)); std::vector<decltype(rg)> st{rg}; std::set<K> got; size_t guard = 0;
            while (!st.empty()) { auto r = st.back(); st.pop_back(); if (++guard < 4000 && r.is_divisible()) { auto r2 = decltype(rg)(r, tbb::split()); st.push_back(r2); st.push_back(r); continue; } for (auto it = r.begin(); it != r.end(); ++it) check(got.insert(it->id).second, cat("simplex ", it->id, " is visited by two parts of the split range")); }
            check(got == live, "the parts of the split range miss a simplex"); }
    }
}
int main(int c, char **v) {
    init(c, v, "random sets of disjoint ranges in random order of addition and merging, moved stores, contents written through random hints; all identifiers, neighbours of the ranges and far identifiers probed with every hint; forward, backward and split iteration over live and deleted simplices");
    VF_GUARD_BEGIN
    stores(thorough() ? 6000 : 400); simplices(thorough() ? 6000 : 400);
    VF_GUARD_END
    return done();
}
