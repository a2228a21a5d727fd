#include "partgeo.h"
#include <tbb/global_control.h>
#include <cfloat>
double coord(int mode) {
    switch (mode) {
    case 0: return double(int(below(4)) - 2);
    case 1: return -1 - unit();
    case 2: return 1 + unit();
    case 3: return (below(2) ? -1 : 1) * std::ldexp(1 + unit(), int(below(2000)) - 1000);
    case 4: return (below(2) ? -1 : 1) * 5e-324 * double(below(5));
    case 5: return 1;                                  // all coincide
    case 6: return 0.5 + 1e-16 * double(below(4));
    default: return unit() * 2 - 1;
    }
}
template <unsigned D> void one(size_t n, int mode, int threads, char type) {
    tbb::global_control g(tbb::global_control::max_allowed_parallelism, threads);
    dPoints<D, double> pts; size_t off = below(3) ? 0 : below(1000); bool ign = below(2), infs = below(3) == 0, sub = below(2); std::string prov = std::string(1 + below(7), '0');
    std::ostringstream o; o << "D=" << D << " strategy '" << type << "' n=" << n << " mode=" << mode << " threads=" << threads << " offset=" << off << (ign ? " ignore infinite" : "") << " provenance length " << prov.size() << " seed-state=" << state();
    pts.offset(off);
    // every axis may have its own distribution
    for (size_t i = 0; i < n; ++i) { dPoint<D, double> p; for (unsigned d = 0; d < D; ++d) p.coords[d] = coord((mode + (mode == 7 ? d * 3 : 0)) % 8); pts.emplace_back(p); if (n <= 6) o << " " << shw<D>(p); }
    Point_Ids ids(below(2) ? n : 1); std::vector<tIdType> given; std::vector<char> isin(n, 0);
    for (size_t i = 0; i < n; ++i) if (!sub || n < 3 || below(3)) { ids.insert(off + 1 + i); given.push_back(off + 1 + i); isin[i] = 1; }
    if (given.empty()) return;
    if (infs) for (tIdType k = dPoint<D, double>::cINF; k != 0; ++k) if (below(3)) ids.insert(k);
    o << " given " << given.size() << (infs ? " with infinite points" : ""); begin(o.str());
    auto P = Partitioner<D, double>::make(type); auto st = getPointStats(ids, pts);
    auto r = below(2) ? P->partition(st, ids, pts, prov, ign) : P->partition(ids, pts, prov, ign);
    check(r.size() == (type == 'd' ? 1u << D : 2u), cat("number of partitions is ", r.size()));
    for (tIdType id : given) {
        int hits = 0; const auto &c = pts[id].coords; size_t where = 0;
        for (size_t j = 0; j < r.size(); ++j) if (r[j].points.contains(id)) {
            ++hits; where = j; check(r[j].contains(id), "Partition::contains of a member");
            for (unsigned d = 0; d < D; ++d) check(r[j].bounds.low[d] <= c[d] && c[d] <= r[j].bounds.high[d], cat("point ", id, " lies outside the bounds of its partition ", j));
        }
        check(hits == 1, cat("point ", id, " is in ", hits, " partitions")); if (hits == 1) check(r.partition(id) == where, cat("partition(", id, ")"));
    }
    size_t fin = 0, ninf = 0; for (tIdType k = dPoint<D, double>::cINF; k != 0; ++k) ++ninf;
    for (size_t j = 0; j < r.size(); ++j) {
        check(r[j].id == j, cat("number of partition ", j)); size_t f = 0, q = 0;
        for (auto id : r[j].points) {
            if (!dPoint<D, double>::isFinite(id)) { ++q; continue; }
            ++f; check(id > off && id <= off + n && isin[id - off - 1], cat("partition ", j, " holds ", id, ", which was not given"));
        }
        fin += f; check(r[j].points.size() == f + q, cat("size of partition ", j));
        for (tIdType k = dPoint<D, double>::cINF; k != 0; ++k) check(r[j].points.contains(k) == !ign, cat("infinite point ", k - dPoint<D, double>::cINF, " in partition ", j, " although ignored=", ign));
        check(q == (ign ? 0 : ninf), cat("infinite points in partition ", j)); check(!r[j].points.contains(off + n + 1), "unknown point");
        // simplices are contained iff all (or, partially, some) vertices are
        for (int t = 0; t < 4; ++t) {
            dSimplex<D, double> s; int in = 0; for (unsigned i = 0; i <= D; ++i) { s.vertices[i] = given[below(given.size())]; }
            std::sort(s.vertices.begin(), s.vertices.end()); for (unsigned i = 0; i <= D; ++i) in += r[j].points.contains(s.vertices[i]);
            check(r[j].contains(s) == (in == int(D + 1)), "complete containment of a simplex"); check(r[j].contains(s, true) == (in > 0), "partial containment of a simplex");
        }
    }
    check(fin == given.size(), "number of finite points in all partitions");
    bool thrown = false; try { r.partition(off + n + 1); } catch (std::out_of_range &) { thrown = true; } check(thrown, "partition() of an unknown point throws out_of_range");
}
int main(int c, char **v) {
    init(c, v, "all strategies of Partitioner.h in 2 and 3 dimensions, random point sets of up to 40000 points (spread, coinciding, nearly coinciding, denormal, huge), all points and subsets, with and without infinite points, 1 to 8 threads");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 20000 : 1500); ++i) {
        size_t n = i % 100 == 0 ? 20000 + below(20000) : i % 9 == 0 ? 1 + below(3000) : i % 4 == 0 ? size_t(1) << below(9) : 1 + below(12);
        one<2>(n, below(8), 1 + below(8), "dce01"[i % 5]); one<3>(n, below(8), 1 + below(8), "dce012"[i % 6]);
    }
    VF_GUARD_END
    return done();
}
