#include "common.h"
#include <climits>
#include <random>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "load_balancing/BoxUtils.h"
using namespace vf; using namespace LoadBalancing;
typedef long long ll;
// integer data: every operation of the code is exact
template <uint D> std::string sh(const dBox<D, double> &b) { std::ostringstream o; for (uint d = 0; d < D; ++d) o << "[" << b.low[d] << "," << b.high[d] << "]"; return o.str(); }
template <uint D> void one(int R) {
    ll lo[D], hi[D], p[D]; uint dim = below(D);
    for (uint d = 0; d < D; ++d) { lo[d] = ll(below(2 * R + 1)) - R; hi[d] = lo[d] + ll(below(R + 1)); p[d] = ll(below(4 * R + 1)) - 2 * R; switch (below(5)) { case 0: p[d] = lo[d]; break; case 1: p[d] = hi[d]; break; case 2: p[d] = lo[d] + ll(below(hi[d] - lo[d] + 1)); break; default:; } }
    ll s = lo[dim] + ll(below(hi[dim] - lo[dim] + 1)); if (below(4) == 0) s = below(2) ? lo[dim] : hi[dim];
    dBox<D, double> b; dVector<D, double> v; for (uint d = 0; d < D; ++d) { b.low[d] = lo[d]; b.high[d] = hi[d]; v[d] = p[d]; }
    std::ostringstream o; o << "D=" << D << " box " << sh<D>(b) << " point"; for (uint d = 0; d < D; ++d) o << " " << p[d]; o << " plane " << dim << ":" << s; begin(o.str());
    auto r = splitBox<D, double>(b, dim, double(s)); auto &L = std::get<0>(r), &H = std::get<1>(r);
    for (uint d = 0; d < D; ++d) {
        check(L.low[d] == lo[d] && H.high[d] == hi[d] && L.high[d] == (d == dim ? s : hi[d]) && H.low[d] == (d == dim ? s : lo[d]), "splitBox: halves " + sh<D>(L) + " and " + sh<D>(H));
    }
    auto e = b; enlargeBoxAroundVector<D, double>(e, v);
    for (uint d = 0; d < D; ++d) check(e.low[d] == std::min(lo[d], p[d]) && e.high[d] == std::max(hi[d], p[d]), "enlargeBoxAroundVector: " + sh<D>(e));
    auto t = vecToBox<D, double>(v, b); bool in = true; ll best = -1;
    for (uint d = 0; d < D; ++d) { ll x = std::max<ll>({lo[d] - p[d], p[d] - hi[d], 0}); check(t[d] == x, "vecToBox component"); in &= x == 0; }
    auto w = vecToBoxBoundary<D, double>(v, b);
    for (uint d = 0; d < D; ++d) { ll n = std::min(p[d] - lo[d], hi[d] - p[d]); if (best < 0 || n < best) best = n; }
    if (!in) { for (uint d = 0; d < D; ++d) check(w[d] == t[d], "vecToBoxBoundary of a point outside"); }
    else { int nz = 0; double sum = 0; for (uint d = 0; d < D; ++d) { nz += w[d] != 0; sum += w[d]; } check(nz <= 1 && sum == -double(best), cat("vecToBoxBoundary of a point inside: ", sum, ", distance to the nearest face ", best)); }
    std::vector<dVector<D, double>> pts; size_t n = 1 + below(below(4) ? 6 : 60); ll ml[D], mh[D];
    for (size_t i = 0; i < n; ++i) { dVector<D, double> x; for (uint d = 0; d < D; ++d) { ll k = ll(below(2 * R + 1)) - R - (below(3) ? 0 : R); x[d] = k; if (!i || k < ml[d]) ml[d] = k; if (!i || k > mh[d]) mh[d] = k; } pts.push_back(x); }
    auto m = makeBoundingBox(pts.begin(), pts.end());
    for (uint d = 0; d < D; ++d) check(m.low[d] == ml[d] && m.high[d] == mh[d], cat("makeBoundingBox of ", n, " points: ", sh<D>(m), " dimension ", d, " expected ", ml[d], " ", mh[d]));
}
int main(int c, char **v) {
    init(c, v, "random boxes, planes, points and point sets with integer coordinates in 2 and 3 dimensions (degenerate boxes and points on faces included)");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 3000000 : 60000); ++i) { int R = i % 3 == 0 ? 2 : i % 3 == 1 ? 10 : 1000; one<2>(R); one<3>(R); }
    VF_GUARD_END
    return done();
}
