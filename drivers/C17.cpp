#include "exactgeo.h"
template <unsigned D> void simplex(int R) {
    for (int q = 0; q < R; ++q) {
        int low = D == 2 ? 200 : 155, e = below(3) ? 0 : below(3) == 0 ? -low + int(below(20)) : int(below(low + 30)) - low; /* the predicates neither underflow nor overflow here */ double sc = std::ldexp(1.0, e); int mode = below(3); bool moderate = e > -40 && e < 20;
        std::vector<dPoint<D, double>> pts(1 + D + 1); for (auto &p : pts) p = pt<D>(sc, mode); 
        std::vector<V> s; for (unsigned i = 0; i <= D; ++i) s.push_back(ex(pts[i + 1].coords.data(), D));
        Q O = orientq(s); if (O == 0) continue;
        dPoint<D, double> p = below(8) == 0 ? pts[1 + below(D + 1)] : pt<D>(sc, mode);
        // points on the boundary: midpoints and the other corners of a box
        if (below(6) == 0) { auto &a = pts[1 + below(D + 1)], &b = pts[1 + below(D + 1)]; for (unsigned i = 0; i < D; ++i) p.coords[i] = (a.coords[i] + b.coords[i]) / 2; }
        if (below(8) == 0) for (unsigned i = 0; i < D; ++i) p.coords[i] = pts[1 + below(D + 1)].coords[i];
        V pe = ex(p.coords.data(), D); Q I = insphereq(s, pe); bool in = sgn(O) * sgn(I) >= 0; auto l = baryq(s, pe); bool inside = true, clear = true; for (auto &x : l) { inside = inside && x >= 0; clear = clear && (x > Q(1, 1000000) || x < Q(-1, 1000000)); }
        // integer coordinates and a volume that is a power of two: the floating-point barycentric coordinates are exact
        double vo = std::abs(O.get_d()); bool exact = mode == 0 && e == 0 && std::exp2(std::round(std::log2(vo))) == vo; for (unsigned i = 0; i < D && exact; ++i) exact = p.coords[i] == std::floor(p.coords[i]);
        // well shaped enough for the floating-point barycentric coordinates
        Q m = 0; for (unsigned i = 1; i <= D; ++i) { Q d = dotq(s[i] - s[0], s[i] - s[0]); if (d > m) m = d; } double shape = std::abs(O.get_d()) / std::pow(std::sqrt(m.get_d()), D);
        std::string ds = cat("D=", D, " p=", shw<D>(p)); for (unsigned i = 1; i <= D + 1; ++i) ds += cat(" s", i - 1, "=", shw<D>(pts[i]));
        begin(ds); std::vector<unsigned> perm; for (unsigned i = 1; i <= D + 1; ++i) perm.push_back(i);
        do { 
            dSimplex<D, double> sx; for (unsigned i = 0; i <= D; ++i) sx.vertices[i] = perm[i];
            std::string o; for (auto x : perm) o += cat(x - 1, " ");
            check(sx.inSphere(p, pts) == in, cat("inSphere is ", !in, " for vertex order ", o));
            if constexpr (D == 2) check(GeometryCore<2, double>::inSphere(p, pts[perm[0]], pts[perm[1]], pts[perm[2]]) == in, "GeometryCore::inSphere"); else check(GeometryCore<3, double>::inSphere(p, pts[perm[0]], pts[perm[1]], pts[perm[2]], pts[perm[3]]) == in, "GeometryCore::inSphere");
            if (exact || (moderate && clear && shape > 1e-2)) { check(sx.inSimplex(p, pts) == inside, cat("inSimplex is ", !inside, " for vertex order ", o)); if constexpr (D == 2) check(GeometryCore<2, double>::inSimplex(p, pts[perm[0]], pts[perm[1]], pts[perm[2]]) == inside, "GeometryCore::inSimplex"); else check(GeometryCore<3, double>::inSimplex(p, pts[perm[0]], pts[perm[1]], pts[perm[2]], pts[perm[3]]) == inside, "GeometryCore::inSimplex"); }
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
}
int main(int c, char **v) {
    init(c, v, "random non-degenerate triangles and tetrahedra at scales 2^-200 to 2^29 with query points inside, outside, on the sphere and on vertices, all vertex orders, against exact rational arithmetic");
    VF_GUARD_BEGIN
    int R = thorough() ? 60000 : 4000; simplex<2>(R); simplex<3>(R);
    VF_GUARD_END
    return done();
}
