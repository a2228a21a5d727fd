#include "exactgeo.h"
template <unsigned D> void spheres(int R) {
    for (int q = 0; q < R; ++q) {
        int e = below(3) ? 0 : int(below(60)) - 30; double sc = std::ldexp(1.0, e); int mode = below(3); double off = below(3) ? 0 : sc * (double(below(7)) - 3);
        std::vector<dPoint<D, double>> pts(D + 2); for (auto &p : pts) { p = pt<D>(sc, mode); for (unsigned i = 0; i < D; ++i) p.coords[i] += off; }
        std::vector<V> s; for (unsigned i = 0; i <= D; ++i) s.push_back(ex(pts[i + 1].coords.data(), D));
        Q m = 0; for (unsigned i = 0; i <= D; ++i) for (unsigned j = 0; j < i; ++j) { Q d = dotq(s[i] - s[j], s[i] - s[j]); if (d > m) m = d; }
        Q O = orientq(s); if (O == 0 || std::abs(O.get_d()) / std::pow(std::sqrt(m.get_d()), D) < 2e-2) continue;
        std::string ds = cat("D=", D); for (unsigned i = 1; i <= D + 1; ++i) ds += cat(" s", i - 1, "=", shw<D>(pts[i]));
        begin(ds); V c = centerq(s); double rad = std::sqrt(Q(dotq(c - s[0], c - s[0])).get_d());
        std::vector<unsigned> perm; for (unsigned i = 1; i <= D + 1; ++i) perm.push_back(i);
        do {
            dSimplex<D, double> sx; for (unsigned i = 0; i <= D; ++i) sx.vertices[i] = perm[i];
            for (int k = 0; k < 2; ++k) { dSphere<D, double> b; if (k == 0) b = sx.circumsphere(pts); else { if constexpr (D == 2) b = GeometryCore<2, double>::circumsphere(pts[perm[0]], pts[perm[1]], pts[perm[2]]); else b = GeometryCore<3, double>::circumsphere(pts[perm[0]], pts[perm[1]], pts[perm[2]], pts[perm[3]]); }
                double tol = 1e-7 * (rad + sc + std::abs(off)); std::string o; for (auto x : perm) o += cat(x - 1, " ");
                for (unsigned i = 0; i < D; ++i) check(std::abs(b.center[i] - c[i].get_d()) <= tol, cat("coordinate ", i, " of the center is ", b.center[i], ", exact ", c[i].get_d(), ", vertex order ", o));
                check(std::abs(b.radius - rad) <= tol, cat("radius ", b.radius, ", exact ", rad, ", vertex order ", o)); }
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
}
int main(int c, char **v) {
    init(c, v, "random well-shaped triangles and tetrahedra, all vertex orders, center and radius against exact rational arithmetic within relative 1e-7");
    VF_GUARD_BEGIN
    int R = thorough() ? 60000 : 4000; spheres<2>(R); spheres<3>(R);
    VF_GUARD_END
    return done();
}
