// Grid cells of random point sets inserted into the box tree in random order (with repetitions, copies and moves on the way);
// every query is compared with a scan over the inserted cells.
#include "common.h"
#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <set>
#include <algorithm>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/version.h"
const char GIT_COMMIT[] = "driver";
extern "C" { size_t getPeakRSS() { return 0; } size_t getCurrentRSS() { return 0; } }
#include "load_balancing/BoxUtils.h"
#include "load_balancing/GridIntersectionChecker.h"
using namespace vf;
template <unsigned D> static std::string show(const std::array<long, D> &c) { std::string s = "("; for (unsigned d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string(c[d]); return s + ")"; }
static double real(double lo, double hi) { return lo + (hi - lo) * (below(1u << 30) / double(1u << 30)); }
template <unsigned D> static void run() {
    typedef std::array<long, D> Cell; static const double W[] = {1, 0.5, 0.1, 0.3, 2.7, 1e-3, 100, 1.0 / 3};
    double w = W[below(8)]; int span = below(4) ? 1 + below(6) : 1 + below(40); long org = below(2) ? 0 : (long)below(60) - 30;
    LoadBalancing::Grid<D, double> grid(w); int np = below(3) ? 1 + below(12) : 1 + below(80); std::vector<dVector<D, double>> pts; dBox<D, double> b;
    for (int i = 0; i < np; ++i) {
        dVector<D, double> p; for (unsigned d = 0; d < D; ++d) p[d] = below(3) ? (org + real(0, span)) * w : double(org + (long)below(span + 1)) * w;
        if (!i) b.low = b.high = p; for (unsigned d = 0; d < D; ++d) { b.low[d] = std::min(b.low[d], p[d]); b.high[d] = std::max(b.high[d], p[d]); }
        pts.push_back(p);
    }
    std::ostringstream head; head.precision(17); head << "D=" << D << " width=" << w << " bounds="; for (unsigned d = 0; d < D; ++d) head << "[" << b.low[d] << "," << b.high[d] << "]";
    std::string desc = head.str() + " cells="; begin(desc, false, 20); AABBTree<D, double> t(b, w); std::vector<Cell> in; std::set<Cell> distinct;
    auto query = [&](const AABBTree<D, double> &t, LoadBalancing::GridIntersectionChecker<D, double> *g) {
        dSphere<D, double> s; for (unsigned d = 0; d < D; ++d) s.center[d] = (org + (below(3) ? real(-1, span + 1) : (double)((long)below(span + 3) - 1))) * w;
        s.radius = below(5) ? real(0, below(3) ? 1.5 : span) * w : below(4) * w;
        std::ostringstream q; q.precision(17); q << desc << " ball="; for (auto x : s.center) q << x << " "; q << "r=" << s.radius; begin(q.str(), in.size() > 1, 20);
        std::set<Cell> want; for (auto &c : distinct) if (grid.boundsOf(c).intersects(s)) want.insert(c);
        check(t.intersects(s) == !want.empty(), want.empty() ? "an intersection is reported although no inserted cell meets the ball" : "no intersection is reported although the ball meets cell " + show<D>(*want.begin()));
        auto l = t.intersectingCells(s); std::set<Cell> got(l.begin(), l.end()); check(got == want, "the reported cells are not the inserted cells that meet the ball");
        if (g) { dSimplex<D, double> x; check(g->intersects(s, x) == !want.empty(), "answer of the partition's checker"); auto h = g->copy(); check(h->intersects(s, x) == !want.empty(), "answer of the copied checker"); }
    };
    for (auto &p : pts) {
        Cell c = grid.indexAt(p); if (below(6) == 0 && !in.empty()) c = in[below(in.size())];
        desc += show<D>(c); begin(desc, in.size() > 0, 20);
        check(t.insert(grid.boundsOf(c)), "the cell " + show<D>(c) + " of a point inside the bounds is refused"); in.push_back(c); distinct.insert(c);
        if (below(4) == 0) query(t, nullptr);
        if (below(30) == 0) { AABBTree<D, double> u(t); for (int i = 0; i < 3; ++i) query(u, nullptr); AABBTree<D, double> m(std::move(u)); for (int i = 0; i < 3; ++i) query(m, nullptr); t = std::move(m); }
        if (below(8) == 0) { // a box elsewhere is refused and changes nothing
            Cell f = c; f[below(D)] += (below(2) ? 1 : -1) * 1000; check(!t.insert(grid.boundsOf(f)), "a cell outside the bounds is accepted"); }
    }
    std::random_shuffle(in.begin(), in.end(), [](long n) { return (long)below(n); });
    LoadBalancing::GridIntersectionChecker<D, double> g(b, grid, in.begin(), in.end());
    check(std::vector<Cell>(g.cellsBegin(), g.cellsEnd()) == in, "cells of the checker");
    for (int i = 0; i < 25; ++i) query(t, &g);
}
int main(int argc, char **argv) {
    init(argc, argv, "cells of up to 80 random points, spans up to 40 cells, 8 cell widths, points on and off grid lines, random insertion order with repetitions; random balls");
    VF_GUARD_BEGIN
    long N = thorough() ? 20000 : 1500;
    for (long q = 0; q < N; ++q) { run<2>(); run<3>(); }
    VF_GUARD_END
    return done();
}
