#include "exactgeo.h"
#include "Partitioner.h"
#include <tbb/global_control.h>
#include <fstream>
template <unsigned D> void judge(const dVector<D, double> &mn, const dVector<D, double> &mx, const dVector<D, double> *md, const std::vector<dPoint<D, double>> &ref, const char *what) {
    for (unsigned d = 0; d < D; ++d) {
        double lo = ref[0].coords[d], hi = lo;
        for (auto &p : ref) { if (p.coords[d] < lo) lo = p.coords[d]; if (p.coords[d] > hi) hi = p.coords[d]; }
        check(mn[d] == lo, cat(what, ": min of dimension ", d, " is ", mn[d], ", smallest coordinate ", lo)); check(mx[d] == hi, cat(what, ": max of dimension ", d, " is ", mx[d], ", largest coordinate ", hi));
        if (md) { Q m = (Q(lo) + Q(hi)) / 2, e = Q((*md)[d]) - m, t = Q(std::max(std::abs(lo), std::abs(hi))) / Q(2251799813685248.0) + Q(5e-324); check(abs(e) <= t, cat(what, ": mid of dimension ", d, " is ", (*md)[d], ", exact ", m.get_d())); }
    }
}
double coord(int mode) {
    switch (mode) {
    case 0: return double(int(below(7)) - 3);
    case 1: return -1 - unit();                        // all negative
    case 2: return 1 + unit();                         // all positive
    case 3: return (below(2) ? -1 : 1) * std::ldexp(1 + unit(), int(below(2040)) - 1020);
    case 4: return (below(2) ? -1 : 1) * 5e-324 * double(below(5));
    default: return unit() * 2 - 1;
    }
}
template <unsigned D> void one(size_t n, int mode, int threads) {
    tbb::global_control g(tbb::global_control::max_allowed_parallelism, threads);
    dPoints<D, double> pts; std::vector<dPoint<D, double>> ref; size_t off = below(3) ? 0 : below(1000);
    // index 0 is the reserved entry; with an offset the identifiers start later
    std::ostringstream o; o << "D=" << D << " n=" << n << " mode=" << mode << " threads=" << threads << " offset=" << off << " seed-state=" << state();
    pts.offset(off);
    for (size_t i = 0; i < n; ++i) { dPoint<D, double> p; for (unsigned d = 0; d < D; ++d) p.coords[d] = coord(mode); pts.emplace_back(p); ref.push_back(p); if (n <= 6) o << " " << shw<D>(p); }
    begin(o.str());
    auto s = getPointStats(pts, pts); judge<D>(s.min, s.max, &s.mid, ref, "getPointStats of all points");
    auto q = getPointStatsSeq(off + 1, off + 1 + n, pts); judge<D>(q.min, q.max, &q.mid, ref, "getPointStatsSeq of all points");
    Point_Ids ids(below(2) ? n : 1); std::vector<dPoint<D, double>> sub; bool infs = below(2);
    for (size_t i = 0; i < n; ++i) if (n < 3 || below(3)) { ids.insert(off + 1 + i); sub.push_back(ref[i]); }
    if (sub.empty()) return;
    if (infs) for (tIdType k = dPoint<D, double>::cINF; k != 0; ++k) ids.insert(k);
    current() += cat(" subset of ", sub.size(), infs ? " with infinite points" : "");
    auto t = getPointStats(ids, pts); judge<D>(t.min, t.max, &t.mid, sub, "getPointStats of a set of points");
    auto u = getPointStatsSeq(ids.begin(), ids.end(), pts); judge<D>(u.min, u.max, &u.mid, sub, "getPointStatsSeq of a set of points");
}
template <unsigned D> void file(size_t n, int mode) {
    char dir[] = "/tmp/c19XXXXXX"; if (!mkdtemp(dir)) return;
    std::string f = std::string(dir) + "/p"; std::vector<dPoint<D, double>> ref; dPoints<D, double> pts;
    { std::ofstream o(f); o.precision(17); for (size_t i = 0; i < n; ++i) { dPoint<D, double> p; for (unsigned d = 0; d < D; ++d) { p.coords[d] = coord(mode); o << (d ? " " : "") << p.coords[d]; } o << "\n"; ref.push_back(p); } }
    begin(cat("loadFromFile D=", D, " n=", n, " mode=", mode, " seed-state=", state()));
    size_t before = pts.finite_size(); dBox<D, double> b;
    try { b = pts.loadFromFile(f); } catch (...) { unlink(f.c_str()); rmdir(dir); throw; }
    unlink(f.c_str()); rmdir(dir);
    check(pts.finite_size() == before + n, "number of points read");
    for (size_t i = 0; i < n; ++i) check(pts[before + i].coords == ref[i].coords, cat("point ", i, " read back"));
    judge<D>(b.low, b.high, nullptr, ref, "box of loadFromFile");
}
int main(int c, char **v) {
    init(c, v, "random point sets of up to 60000 points with coordinates of all signs and magnitudes, all points and random subsets with and without infinite points, 1 to 8 threads; text files of points");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 20000 : 1200); ++i) { size_t n = i % 60 == 0 ? 20000 + below(40000) : i % 7 == 0 ? 1 + below(4000) : 1 + below(12); one<2>(n, i % 6, 1 + below(8)); one<3>(n, (i / 6) % 6, 1 + below(8)); }
    for (int i = 0; i < (thorough() ? 2000 : 200); ++i) { int m = i % 5 == 4 ? 5 : i % 5; if (m == 4) m = 0; file<2>(1 + below(20), m); file<3>(1 + below(20), m); }
    VF_GUARD_END
    return done();
}
