#include "common.h"
#include "Geometry.h"
using namespace vf;
typedef long long ll;
template <uint D, class P> void one(int R) {
    // integer data: every operation of the code is exact
    ll lo[D], hi[D], c[D], bl[D], bh[D], r = ll(below(R + 1));
    std::ostringstream o; o << "D=" << D << " box/center/box2/radius";
    for (uint d = 0; d < D; ++d) {
        lo[d] = ll(below(2 * R + 1)) - R; hi[d] = lo[d] + ll(below(R + 1)); c[d] = ll(below(4 * R + 1)) - 2 * R;
        switch (below(6)) { case 0: c[d] = lo[d]; break; case 1: c[d] = hi[d]; break; case 2: c[d] = hi[d] + r; break; case 3: c[d] = lo[d] - r; break; case 4: c[d] = lo[d] + r; break; default:; }
        bl[d] = lo[d] + ll(below(5)) - 1; bh[d] = std::max(bl[d], hi[d] - ll(below(5)) + 1);
        o << " [" << lo[d] << "," << hi[d] << "] " << c[d] << " [" << bl[d] << "," << bh[d] << "]";
    }
    if (below(4) == 0) { // pythagorean distances hit the boundary exactly
        ll k = 1 + below(3); r = 5 * k; for (uint d = 0; d < D; ++d) c[d] = d == 0 ? hi[0] + 3 * k : d == 1 ? lo[1] - 4 * k : lo[d]; o << " pyth";
        for (uint d = 0; d < D; ++d) o << " " << c[d];
        if (below(2)) r -= 1;
    }
    o << " r=" << r;
    begin(o.str());
    dBox<D, P> b, b2; dVector<D, P> p; dSphere<D, P> s;
    for (uint d = 0; d < D; ++d) { b.low[d] = lo[d]; b.high[d] = hi[d]; p[d] = c[d]; s.center[d] = c[d]; b2.low[d] = bl[d]; b2.high[d] = bh[d]; }
    s.radius = r;
    bool in = true, in2 = true, ins = true; ll dist = 0;
    for (uint d = 0; d < D; ++d) {
        in &= lo[d] <= c[d] && c[d] <= hi[d]; in2 &= lo[d] <= bl[d] && bh[d] <= hi[d];
        ins &= c[d] - lo[d] >= r && hi[d] - c[d] >= r;
        ll e = std::max<ll>({lo[d] - c[d], c[d] - hi[d], 0}); dist += e * e;
    }
    const auto &cb = b;
    check(cb.contains(p) == in, "contains(point)");
    check(cb.contains(b2) == in2, "contains(box)");
    check(cb.contains(s) == (in && ins), "contains(sphere)");
    check(cb.intersects(s) == (dist <= r * r), "intersects(sphere)");
}
int main(int c, char **v) {
    init(c, v, "random boxes, boxes, points and balls with small integer coordinates, biased to faces, corners and tangency, in 2 and 3 dimensions, float and double");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 2000000 : 60000); ++i) { int R = i % 3 ? 6 : 1000; one<2, double>(R); one<3, double>(R); one<2, float>(6); one<3, float>(6); }
    VF_GUARD_END
    return done();
}
