#include "common.h"
#include <climits>
#include <random>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "load_balancing/Grid.h"
using namespace vf; using namespace LoadBalancing;
typedef long long ll;
ll fdiv(ll a, ll b) { ll q = a / b; return (a % b && (a < 0) != (b < 0)) ? q - 1 : q; }
// integer data (scaled by a power of two): every operation of the code is exact or rounds away from no cell bound
template <uint D> void one(ll R) {
    ll w = 1 + ll(below(below(2) ? 8 : 1000)); int k = int(below(41)) - 20; double S = std::ldexp(1, k); ll p[D], cell[D], c[D];
    std::ostringstream o; o << "D=" << D << " width " << w << "*2^" << k << " point";
    for (uint d = 0; d < D; ++d) { p[d] = ll(below(2 * R + 1)) - R; if (below(3) == 0) p[d] = (ll(below(21)) - 10) * w; cell[d] = ll(below(41)) - 20; c[d] = cell[d] * w + ll(below(4 * w + 1)) - 2 * w; o << " " << p[d]; }
    ll rad = ll(below(3 * w + 1)); o << " cell"; for (uint d = 0; d < D; ++d) o << " " << cell[d]; o << " ball"; for (uint d = 0; d < D; ++d) o << " " << c[d]; o << " radius " << rad; begin(o.str());
    Grid<D, double> g(w * S); check(g.cellWidth() == w * S, "cellWidth");
    dVector<D, double> v; dIndex<D, int64_t> x; for (uint d = 0; d < D; ++d) { v[d] = p[d] * S; x[d] = cell[d]; }
    auto i = g.indexAt(v); auto b = g.boundsOf(i); auto q = g.boundsOf(x); auto m = g.centerOf(x); dSphere<D, double> s; ll dist = 0;
    for (uint d = 0; d < D; ++d) {
        check(i[d] == fdiv(p[d], w), cat("indexAt: dimension ", d, " gives ", i[d], ", expected ", fdiv(p[d], w))); check(b.low[d] <= v[d] && v[d] < b.high[d], cat("the point lies outside the bounds of its cell in dimension ", d));
        check(q.low[d] == double(cell[d] * w) * S && q.high[d] == double((cell[d] + 1) * w) * S, cat("boundsOf: dimension ", d, " gives ", q.low[d], " ", q.high[d])); check(m[d] == (double(cell[d] * w) + w / 2.0) * S, "centerOf");
        check(g.indexAt(m)[d] == cell[d], "the centre of a cell lies in the cell");
        s.center[d] = c[d] * S; ll e = std::max<ll>({cell[d] * w - c[d], c[d] - (cell[d] + 1) * w, 0}); dist += e * e;
    }
    s.radius = rad * S; check(intersectsWith<D, double, int64_t>(g, s, x) == (dist <= rad * rad), cat("intersectsWith: squared distance ", dist, ", squared radius ", rad * rad));
}
int main(int c, char **v) {
    init(c, v, "random grids with widths n*2^k, points and balls with coordinates m*2^k (cell corners and touching balls included), 2 and 3 dimensions");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 5000000 : 100000); ++i) { ll R = i % 3 == 0 ? 20 : i % 3 == 1 ? 1000 : 1000000000; one<2>(R); one<3>(R); }
    VF_GUARD_END
    return done();
}
