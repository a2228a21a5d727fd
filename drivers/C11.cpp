#include "common.h"
#include <map>
#include "Geometry.h"
using namespace vf;
template <uint D, class V> void one(bool pts) {
    typedef dPoint<D, double> P; const tIdType cI = ~tIdType(0) - ((tIdType(1) << D) - 1);
    std::unique_ptr<V> v(new V()); if (!pts) v->resize(0);
    tIdType off = below(3) ? 0 : 1 + below(1000); v->offset(off);
    std::map<tIdType, std::array<double, D>> m; tIdType n = v->finite_size(); for (tIdType i = 0; i < n; ++i) m[off + i] = std::array<double, D>{};
    std::string trace = cat("D=", D, " offset=", off, pts ? " dPoints" : "");
    if (pts) { begin(trace); check(n == 1, "initial size"); for (uint d = 0; d < D; ++d) check(v->at(off).coords[d] == 0, "reserved entry"); }
    for (uint k = 0; k < (1u << D); ++k) for (uint d = 0; d < D; ++d) { double x = double(rnd() % 1000); (*v)[cI + k].coords[d] = x; m[cI + k][d] = x; }
    auto rp = [&] { P p; for (uint d = 0; d < D; ++d) p.coords[d] = double(rnd() % 100000); return p; };
    for (int k = 0; k < 12; ++k) {
        switch (below(5)) {
            case 0: { P p = rp(); v->emplace_back(p); m[off + n] = p.coords; ++n; trace += " push"; break; }
            case 1: { tIdType s = below(20); if (s < n) s = n; v->resize(s); for (tIdType i = n; i < s; ++i) { P p = rp(); v->at(off + i) = p; m[off + i] = p.coords; } n = s; trace += cat(" resize ", s); break; }
            case 2: { tIdType s = off + below(20); v->reserveUpToIdx(s); tIdType w = v->finite_size(); begin(trace + cat(" reserveUpToIdx ", s)); check(w >= n && w >= s - off, "reserveUpToIdx"); for (tIdType i = n; i < w; ++i) { P p = rp(); v->at(off + i) = p; m[off + i] = p.coords; } n = w; break; }
            case 3: { if (!n) break; tIdType i = off + below(n); P p = rp(); (*v)[i] = p; m[i] = p.coords; trace += cat(" set ", i); break; }
            default: { tIdType i = cI + below(1u << D); P p = rp(); v->at(i) = p; m[i] = p.coords; trace += cat(" set inf ", i - cI); }
        }
        begin(trace); const V &c = *v;
        check(v->finite_size() == n, cat("finite_size ", v->finite_size(), " expected ", n)); check(v->size() == n + (1u << D), "size"); check(v->offset() == off, "offset");
        for (auto &e : m) check(c.at(e.first).coords == e.second && c[e.first].coords == e.second && v->at(e.first).coords == e.second && (*v)[e.first].coords == e.second && &c[e.first] == &v->at(e.first), cat("content of ", e.first));
        for (int j = 0; j < 12; ++j) {
            tIdType i = j < 6 ? off - 2 + below(n + 4) : j < 9 ? cI - 2 + below((1u << D) + 2) : (tIdType(1) << below(64)) + below(3);
            bool e = m.count(i) && !(pts && i == off);
            check(P::isFinite(i) == (i < cI), cat("isFinite ", i)); if (i >= cI) check(P::infIndex(i) == i - cI, "infIndex");
            check(c.contains(i) == e, cat("contains ", i));
        }
    }
}
int main(int c, char **v) {
    init(c, v, "histories of growing and writing point containers with identifier offsets, compared with a map");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 200000 : 6000); ++i) { one<2, dPoints<2, double>>(true); one<3, dPoints<3, double>>(true); one<2, VectorAdapter2<dPoint<2, double>>>(false); one<3, VectorAdapter2<dPoint<3, double>>>(false); }
    VF_GUARD_END
    return done();
}
