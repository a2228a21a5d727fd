// Verification and cross check of triangulations against the definitions, evaluated by brute force.
#include "exactgeo.h"
#include "utils/ASSERT.h"
#include <algorithm>
#include <map>
static const tIdType NOID = ~tIdType(0);
template <unsigned D> struct W { // a store of cells together with what it holds
    typedef dSimplex<D, double> Sx;
    tIdType lo = 0, hi = 0; std::vector<tIdType> cuts; std::map<tIdType, Sx> all; std::vector<tIdType> hull;
    bool live(tIdType i) const { auto it = all.find(i); return it != all.end() && it->second.id != NOID; }
    std::vector<Sx> cells() const { std::vector<Sx> r; for (auto &e : all) if (e.second.id != NOID) r.push_back(e.second); return r; }
    dSimplices<D, double> make() const {
        dSimplices<D, double> s(lo, cuts.empty() ? hi : cuts[0], hull.size());
        for (size_t i = 0; i < cuts.size(); ++i) s.addBlock(cuts[i], i + 1 < cuts.size() ? cuts[i + 1] : hi);
        for (auto &e : all) s.unsafe_at(e.first) = e.second;
        s.convexHull.assign(hull.begin(), hull.end()); return s;
    }
    std::string str() const {
        std::string o = cat("[", lo, ",", hi, ")"); for (auto c : cuts) o += cat("|", c);
        int n = 0; for (auto &e : all) { if (++n > 40) { o += " ..."; break; } o += cat(" ", e.first, e.second.id == NOID ? "(dead)" : "", ":"); for (auto v : e.second.vertices) o += (dPoint<D, double>::isFinite(v) ? cat(v, ",") : cat("inf", v - dPoint<D, double>::cINF, ",")); o += "/"; for (auto x : e.second.neighbors) o += x == NOID ? std::string("-,") : cat(x, ","); }
        o += " hull"; for (auto h : hull) o += cat(" ", h); return o;
    }
    void place(size_t n, tIdType base) { lo = base; hi = base + n; cuts.clear(); if (n > 2 && below(2)) { std::set<tIdType> c; for (int i = 1 + below(3); i > 0; --i) c.insert(lo + 1 + below(n - 1)); cuts.assign(c.begin(), c.end()); } }
};
template <unsigned D> int shared(const dSimplex<D, double> &a, const dSimplex<D, double> &b) { int n = 0; for (auto x : a.vertices) for (auto y : b.vertices) n += x == y; return n; }
template <unsigned D> bool linked(const dSimplex<D, double> &a, tIdType i) { return std::find(a.neighbors.begin(), a.neighbors.end(), i) != a.neighbors.end(); }
template <unsigned D> tIdType vertex(int np) { return below(5) ? 1 + below(np) : dPoint<D, double>::cINF + below(1u << D); }
template <unsigned D> void verts(dSimplex<D, double> &s, int np) { std::set<tIdType> v; while (v.size() < D + 1) v.insert(vertex<D>(np)); std::copy(v.begin(), v.end(), s.vertices.begin()); s.genFingerprint(); }
template <unsigned D> W<D> world(int np, size_t n, tIdType base) {
    W<D> w; w.place(n, base);
    for (tIdType i = w.lo; i < w.hi; ++i) { dSimplex<D, double> s; s.id = below(6) ? i : NOID; verts<D>(s, np); for (auto &x : s.neighbors) x = below(3) ? w.lo + below(n) : NOID; w.all[i] = s; }
    return w;
}
typedef std::vector<std::string> Rep;
template <unsigned D> std::string key(const dSimplex<D, double> &s) { std::string o = cat(s.id, ":"); for (auto v : s.vertices) o += cat(v, ","); return o; }
template <unsigned D, class C> std::multiset<std::string> keys(const C &c) { std::multiset<std::string> r; for (auto &s : c) r.insert(key<D>(s)); return r; }
template <unsigned D> void cross(int R) {
    for (int q = 0; q < R; ++q) {
        int np = D + 2 + below(below(3) ? 4 : 12); size_t n = 1 + (q % 50 == 49 ? below(3000) : below(12)); bool big = n > 200; if (big) np = 60;
        W<D> A = world<D>(np, n, below(3) ? below(4) : 1000 + below(50)), B;
        // the other store: copies of the same cells at other places, some changed
        { tIdType base = below(3) ? A.lo : below(2000); size_t m = n + (below(3) ? 0 : below(3)); B.place(m, base); std::vector<tIdType> at; for (tIdType i = B.lo; i < B.hi; ++i) at.push_back(i); if (below(2)) for (size_t i = m - 1; i > 0; --i) std::swap(at[i], at[below(i + 1)]);
          std::map<tIdType, tIdType> mp; size_t k = 0; for (auto &e : A.all) mp[e.first] = at[k++];
          int change = below(3) ? big ? 400 : 8 : 1000000;
          for (auto &e : A.all) { auto s = e.second; if (s.id != NOID) s.id = mp[e.first]; for (auto &x : s.neighbors) if (x != NOID) x = mp[x];
              if (below(change) == 0) switch (below(3)) { case 0: verts<D>(s, np); break; case 1: s.id = s.id == NOID ? mp[e.first] : NOID; break; default: s.neighbors[below(D + 1)] = below(2) ? NOID : B.lo + below(m); }
              B.all[mp[e.first]] = s; }
          for (; k < m; ++k) { dSimplex<D, double> s; s.id = below(2) ? at[k] : NOID; verts<D>(s, np); for (auto &x : s.neighbors) x = NOID; B.all[at[k]] = s; } }
        // own cells are pairwise different (otherwise it is open which of them is compared)
        { std::set<std::array<tIdType, D + 1>> seen; for (auto &e : A.all) if (e.second.id != NOID && !seen.insert(e.second.vertices).second) e.second.id = NOID; }
        begin(cat("cross check D=", D, " own ", A.str(), " other ", B.str()));
        auto a = A.make(), b = B.make(); auto r = a.crossCheck(b);
        std::map<std::array<tIdType, D + 1>, const dSimplex<D, double> *> own; std::set<std::array<tIdType, D + 1>> oth; auto ca = A.cells(), cb = B.cells(); for (auto &s : ca) own[s.vertices] = &s; for (auto &s : cb) oth.insert(s.vertices);
        std::vector<dSimplex<D, double>> miss, inv; for (auto &s : cb) if (!own.count(s.vertices)) miss.push_back(s); for (auto &s : ca) if (!oth.count(s.vertices)) inv.push_back(s);
        bool ok = ca.size() == cb.size() && miss.empty() && inv.empty();
        for (auto &s : cb) if (own.count(s.vertices)) for (auto x : s.neighbors) if (x != NOID) { bool f = false; for (auto y : own[s.vertices]->neighbors) f = f || (y != NOID && A.all[y].vertices == B.all[x].vertices); ok = ok && f; }
        check(keys<D>(r.missing) == keys<D>(miss), cat(r.missing.size(), " cells reported missing, ", miss.size(), " are"));
        check(keys<D>(r.invalid) == keys<D>(inv), cat(r.invalid.size(), " cells reported superfluous, ", inv.size(), " are"));
        check(r.valid == ok, cat("cross check valid is ", r.valid));
    }
}
template <unsigned D> struct Pts { dPoints<D, double> p; int n; };
template <unsigned D> V coord(const dPoints<D, double> &p, tIdType i) { return ex(p[i].coords.data(), D); }
template <unsigned D> bool ball(const dSimplex<D, double> &s, tIdType v, const dPoints<D, double> &p) { std::vector<V> c; for (auto x : s.vertices) c.push_back(coord<D>(p, x)); return sgn(orientq(c)) * sgn(insphereq(c, coord<D>(p, v))) >= 0; }
template <unsigned D> bool flat(const dSimplex<D, double> &s, const dPoints<D, double> &p) { std::vector<V> c; for (auto x : s.vertices) c.push_back(coord<D>(p, x)); return orientq(c) == 0; }
// Delaunay triangulation by definition; empty when the points are not in general position
template <unsigned D> std::vector<dSimplex<D, double>> delaunay(const std::vector<tIdType> &ids, const dPoints<D, double> &p) {
    std::vector<dSimplex<D, double>> r; std::vector<int> pick(ids.size(), 0); std::fill(pick.begin(), pick.begin() + D + 1, 1);
    do { dSimplex<D, double> s; int k = 0; for (size_t i = 0; i < ids.size(); ++i) if (pick[i]) s.vertices[k++] = ids[i]; if (flat<D>(s, p)) return {}; bool e = true; for (auto v : ids) if (e && std::find(s.vertices.begin(), s.vertices.end(), v) == s.vertices.end()) { std::vector<V> c; for (auto x : s.vertices) c.push_back(coord<D>(p, x)); int g = sgn(orientq(c)) * sgn(insphereq(c, coord<D>(p, v))); if (g == 0) return {}; e = g < 0; } if (e) { s.genFingerprint(); r.push_back(s); } } while (std::prev_permutation(pick.begin(), pick.end()));
    return r;
}
template <unsigned D> void verification(int R) {
    int good = 0;
    for (int q = 0; q < R; ++q) {
        int np = 2 + below(D == 2 ? 6 : 4); dPoints<D, double> p; for (int i = 0; i < np; ++i) p.emplace_back(pt<D>(100, 1 + below(2)));
        bool withInf = below(3); if (!withInf && np < int(D) + 1) np += 0; 
        for (unsigned i = 0; i < (1u << D); ++i) { dPoint<D, double> x; for (unsigned d = 0; d < D; ++d) x.coords[d] = (i & (1 << d) ? 1 : -1) * (1000 + 40 * unit()); p[dPoint<D, double>::cINF + i] = x; }
        std::vector<tIdType> ids; for (int i = 1; i <= np; ++i) ids.push_back(i); if (withInf) for (unsigned i = 0; i < (1u << D); ++i) ids.push_back(dPoint<D, double>::cINF + i);
        if (ids.size() < D + 1) continue;
        auto t = delaunay<D>(ids, p); if (t.empty()) continue; size_t n = t.size() + below(3);
        W<D> w; w.place(n, below(3) ? below(4) : 1000 + below(50)); std::vector<tIdType> at; for (tIdType i = w.lo; i < w.hi; ++i) at.push_back(i); for (size_t i = n - 1; i > 0; --i) std::swap(at[i], at[below(i + 1)]);
        for (size_t i = 0; i < t.size(); ++i) { t[i].id = at[i]; for (auto &x : t[i].neighbors) x = NOID; }
        for (auto &a : t) for (unsigned d = 0; d <= D; ++d) for (auto &b : t) if (a.id != b.id && shared<D>(a, b) == int(D) && std::find(b.vertices.begin(), b.vertices.end(), a.vertices[d]) == b.vertices.end()) a.neighbors[d] = b.id;
        for (size_t i = t.size(); i < n; ++i) { dSimplex<D, double> s = t[below(t.size())]; s.id = NOID; w.all[at[i]] = s; }
        for (auto &s : t) { w.all[s.id] = s; if (!s.isFinite()) w.hull.push_back(s.id); }
        std::string what = "unchanged"; auto some = [&]() -> dSimplex<D, double> & { return w.all[at[below(t.size())]]; };
        auto change = [&]() { switch (below(9)) {
            case 0: { auto &s = some(); auto &x = s.neighbors[below(D + 1)]; x = below(3) == 0 ? NOID : below(8) ? w.lo + below(n) : below(3000); what = "one link"; break; }
            case 1: { auto &s = some(); tIdType v = ids[below(ids.size())]; if (!linked<D>(s, NOID) && false) break; auto c = s.vertices; c[below(D + 1)] = v; std::sort(c.begin(), c.end()); if (std::adjacent_find(c.begin(), c.end()) != c.end()) break; s.vertices = c; s.genFingerprint(); what = "one vertex"; break; }
            case 2: { auto &s = some(); s.id = NOID; what = "cell removed"; break; }
            case 3: if (!w.hull.empty()) { w.hull.erase(w.hull.begin() + below(w.hull.size())); what = "hull cell missing"; } break;
            case 4: { w.hull.push_back(w.lo + below(n)); what = "hull cell added"; break; }
            case 5: { auto &a = some(), &b = some(); if (a.id == NOID || b.id == NOID) break; a.vertices = b.vertices; a.neighbors = b.neighbors; a.genFingerprint(); what = "duplicate"; break; }
            case 6: { auto &a = some(); for (auto &x : a.neighbors) if (x == NOID) { x = w.lo + below(n); what = "extra link"; break; } break; }
            case 7: { p.emplace_back(pt<D>(100, 1)); ++np; what = "unused point"; break; }
            default: { tIdType v = 1 + below(np); p[v] = pt<D>(100, 1); what = "point moved"; } } };
        for (int k = below(3); k > 0; --k) change();
        bool deg = false; for (auto &s : w.cells()) deg = deg || flat<D>(s, p); if (deg) continue;
        auto c = w.cells(); std::set<tIdType> used; for (auto &s : c) used.insert(s.vertices.begin(), s.vertices.end());
        bool points = true, hull = true, dup = true, nb = true, inc = true;
        for (tIdType i = 1; i <= tIdType(np); ++i) points = points && used.count(i);
        for (auto &s : c) hull = hull && (s.isFinite() || std::find(w.hull.begin(), w.hull.end(), s.id) != w.hull.end()); for (auto h : w.hull) hull = hull && !w.all[h].isFinite();
        for (auto &a : c) for (auto &b : c) if (a.id != b.id) { dup = dup && a.vertices != b.vertices; bool s = shared<D>(a, b) == int(D); nb = nb && linked<D>(a, b.id) == s && linked<D>(b, a.id) == s; }
        for (auto &a : c) for (auto x : a.neighbors) if (x != NOID && !w.live(x)) nb = false; else if (x != NOID) { nb = nb && w.live(x) && x != a.id; auto &o = w.all[x]; for (auto v : o.vertices) if (dPoint<D, double>::isFinite(v) && std::find(a.vertices.begin(), a.vertices.end(), v) == a.vertices.end()) inc = inc && !ball<D>(a, v, p); }
        bool ok = points && hull && dup && nb && inc;
        std::string ds = cat("verification D=", D, " (", what, withInf ? ", with infinite points" : "", ") ", w.str()); for (int i = 1; i <= np; ++i) ds += cat(" ", i, "=", shw<D>(p[i])); begin(ds);
        auto s = w.make();
        try {
            auto r = s.verify(p); good += ok;
            check(r.valid == ok, cat("verification valid is ", r.valid, "; points ", points, " hull ", hull, " different ", dup, " links ", nb, " empty circumspheres ", inc));
            check(r.duplicates.empty() == dup, cat(r.duplicates.size(), " duplicates reported"));
            check(r.wrongNeighbors.empty() == nb || !dup, cat(r.wrongNeighbors.size(), " wrong neighbours reported"));
            check(r.inCircle.empty() == inc, cat(r.inCircle.size(), " circles reported"));
        } catch (const AssertionException &) { check(!dup, "assertion failed"); }
    }
    check(good > R / 20, "too few valid triangulations tried");
}
int main(int c, char **v) {
    init(c, v, "stores of cells in several blocks with free cells; cross checks of a store with a changed copy and verifications of Delaunay triangulations (built by definition, exact arithmetic) with random damage, against the definitions");
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    VF_GUARD_BEGIN
    int R = thorough() ? 20000 : 600; cross<2>(R); cross<3>(R); verification<2>(R); verification<3>(R / 3);
    VF_GUARD_END
    return done();
}
