// Points, triangulations, block stores and records written to a real archive and read back, into fresh and into used objects.
#include "exactgeo.h"
#include "Partitioner.h"
#include "utils/Serialization.hxx"
#include <sstream>
template <class T> static std::string dump(T &o) { std::ostringstream s(std::ios::binary); { boost::archive::binary_oarchive a(s); a << o; } return s.str(); }
template <class T> static void undump(const std::string &b, T &o) { std::istringstream s(b, std::ios::binary); boost::archive::binary_iarchive a(s); a >> o; }
static double coord() { switch (below(6)) { case 0: return 0; case 1: return -0.0; case 2: return 1e308 * (unit() - 0.5); case 3: return 5e-324 * below(9); default: return unit() * 200 - 100; } }
template <unsigned D> static dPoint<D, double> rpt() { dPoint<D, double> p; for (unsigned d = 0; d < D; ++d) p.coords[d] = coord(); return p; }
template <unsigned D> static bool eqp(const dPoint<D, double> &a, const dPoint<D, double> &b) { return memcmp(a.coords.data(), b.coords.data(), sizeof a.coords) == 0; }
template <unsigned D> static void fillp(dPoints<D, double> &p, int n) {
    p.resize(0); for (int i = 0; i < n; ++i) p.emplace_back(rpt<D>());
    p.offset(below(3) ? 0 : below(1000000)); for (unsigned k = 0; k < dPoint<D, double>::nINF; ++k) p[dPoint<D, double>::cINF | k] = rpt<D>();
}
template <unsigned D> static void samep(const dPoints<D, double> &a, const dPoints<D, double> &b, const char *w) {
    check(a.finite_size() == b.finite_size() && a.size() == b.size() && a.offset() == b.offset(), std::string(w) + ": number of points or first identifier");
    for (size_t i = 0; i < a.finite_size(); ++i) check(eqp(a[a.offset() + i], b[a.offset() + i]), cat(w, ": point ", i));
    for (unsigned k = 0; k < dPoint<D, double>::nINF; ++k) check(eqp(a[dPoint<D, double>::cINF | k], b[dPoint<D, double>::cINF | k]), cat(w, ": point at infinity ", k));
}
template <unsigned D> static void points(int R) {
    for (int q = 0; q < R; ++q) {
        int n = below(q % 5 ? 6 : 300); begin(cat("dPoints<", D, "> with ", n, " points")); dPoints<D, double> p, o; fillp(p, n); std::string b = dump(p); dPoints<D, double> t; undump(b, t); samep(p, t, "fresh target");
        fillp(o, below(9)); undump(b, o); samep(p, o, "used target"); check(dump(o) == b, "written again");
        if (q % 8 == 0) { storeObject(p, "points.bin"); auto l = loadObject<dPoints<D, double>>("points.bin"); samep(p, l, "storeObject / loadObject"); storeObject(o, "points.bin"); auto m = loadObject<dPoints<D, double>>("points.bin"); samep(p, m, "overwritten file"); }
    }
}
struct Range { tIdType lo, hi; };
static std::vector<Range> ranges(size_t n) { std::vector<Range> v; tIdType at = below(3) ? below(5) : (tIdType(1) << (20 + below(30))) + below(9); for (size_t i = 0; i < n; ++i) { tIdType w = 1 + below(below(4) ? 4 : 40); v.push_back({at, at + w}); at += w + (below(2) ? 1 + below(50) : 0); } for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[below(i)]); return v; }
static std::string show(const std::vector<Range> &v) { std::string s; for (auto &r : v) s += cat("[", r.lo, ",", r.hi, ")"); return s; }
template <unsigned D> static void fills(dSimplices<D, double> &s, const std::vector<Range> &v) {
    typedef dSimplex<D, double> S;
    for (auto &r : v) for (tIdType k = r.lo; k < r.hi; ++k) { S &x = s.unsafe_at(k); x.id = below(4) ? k : S::cINF; for (auto &u : x.vertices) u = below(3) ? below(100) : dPoint<D, double>::cINF | below(D); for (auto &u : x.neighbors) u = below(3) ? below(1000) : S::cINF; x.vFingerprint = rnd(); x.mark = rnd(); }
    s.convexHull.clear(); for (int i = below(7); i > 0; --i) s.convexHull.push_back(rnd());
}
template <unsigned D> static void sames(dSimplices<D, double> &a, dSimplices<D, double> &b, const std::vector<Range> &v, const char *w) {
    check(a.lowerBound() == b.lowerBound() && a.upperBound() == b.upperBound() && a.exact_size() == b.exact_size(), std::string(w) + ": ranges"); check(a.convexHull == b.convexHull, std::string(w) + ": convex hull");
    for (auto &r : v) { for (tIdType k = r.lo; k < r.hi; ++k) { uint h = below(v.size()); check(b.inRange(k, h), cat(w, ": identifier ", k)); auto &x = a.unsafe_at(k), &y = b.unsafe_at(k), &z = b.at(k, h);
            check(&y == &z && x.id == y.id && x.vertices == y.vertices && x.neighbors == y.neighbors && x.vFingerprint == y.vFingerprint && x.mark == y.mark, cat(w, ": simplex ", k)); }
        for (tIdType k : {r.lo - 1, r.hi}) if (k + 1) { bool in = false; for (auto &o : v) in |= o.lo <= k && k < o.hi; uint h = below(v.size()), g = 0; check(a.inRange(k, h) == in && b.inRange(k, g) == in, cat(w, ": range of identifier ", k)); } }
    auto i = a.begin(); for (auto j = b.begin(); j != b.end(); ++i, ++j) { check(i != a.end() && (*i).id == (*j).id, std::string(w) + ": iteration"); } check(i == a.end(), std::string(w) + ": iteration ends early");
}
template <unsigned D> static void make(dSimplices<D, double> &s, const std::vector<Range> &v) { dSimplices<D, double> t(v[0].lo, v[0].hi, 3); for (size_t i = 1; i < v.size(); ++i) t.addBlock(v[i].lo, v[i].hi); fills(t, v); s = std::move(t); }
template <unsigned D> static void simplices(int R) {
    for (int q = 0; q < R; ++q) {
        auto v = ranges(1 + below(6)), w = ranges(1 + below(8)); begin(cat("dSimplices<", D, "> ranges ", show(v), ", used target ", show(w)));
        dSimplices<D, double> s, t, u; make(s, v); std::string b = dump(s); undump(b, t); sames(s, t, v, "fresh target");
        make(u, w); for (auto &r : w) (void)u.unsafe_contains(r.lo); undump(b, u); uint zero = 0; for (auto &r : v) check(u.inRange(r.lo, zero), "lookup"); sames(s, u, v, "used target");
        if (q % 8 == 0) { storeObject(s, "simplices.bin"); auto l = loadObject<dSimplices<D, double>>("simplices.bin"); sames(s, l, v, "storeObject / loadObject"); }
    }
}
template <class T, class E> static void record(const char *n, T &x, T &y, E eq) { begin(n); std::string b = dump(x); undump(b, y); check(eq(x, y), "record is restored"); check(dump(x) == b, "writing changed the record"); }
template <unsigned D> static void records(int R) {
    auto vec = [] { dVector<D, double> v; for (auto &c : v) c = coord(); return v; }; auto eqv = [](const dVector<D, double> &a, const dVector<D, double> &b) { return memcmp(a.data(), b.data(), sizeof a) == 0; };
    for (int q = 0; q < R; ++q) {
        dBox<D, double> b, b2; b.low = vec(); b.high = vec(); b2.low = vec(); b2.high = vec(); record("dBox", b, b2, [&](auto &x, auto &y) { return eqv(x.low, y.low) && eqv(x.high, y.high); });
        dSphere<D, double> s, s2; s.center = vec(); s.radius = coord(); s2.center = vec(); s2.radius = coord(); record("dSphere", s, s2, [&](auto &x, auto &y) { return eqv(x.center, y.center) && memcmp(&x.radius, &y.radius, 8) == 0; });
        dPointStats<D, double> t, t2; t.min = vec(); t.mid = vec(); t.max = vec(); record("dPointStats", t, t2, [&](auto &x, auto &y) { return eqv(x.min, y.min) && eqv(x.mid, y.mid) && eqv(x.max, y.max); });
        dPoint<D, double> p = rpt<D>(), p2 = rpt<D>(); record("dPoint", p, p2, [&](auto &x, auto &y) { return eqp(x, y); });
    }
}
int main(int argc, char **argv) {
    init(argc, argv, "distinct object written and read");
    VF_GUARD_BEGIN
    int f = thorough() ? 20 : 1;
    points<2>(150 * f); points<3>(150 * f); simplices<2>(200 * f); simplices<3>(200 * f); records<2>(50 * f); records<3>(50 * f);
    VF_GUARD_END
    return done();
}
