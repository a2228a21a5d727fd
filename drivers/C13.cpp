#include "simplex.h"
template <uint D> void one() {
    auto a = rsimplex<D>(), b = rsimplex<D>();
    if (below(3) == 0) { std::set<tIdType> s(a.vertices.begin(), a.vertices.end()); auto it = s.begin(); std::advance(it, below(D + 1)); s.erase(it); while (s.size() < D + 1) s.insert(rid<D>()); std::copy(s.begin(), s.end(), b.vertices.begin()); }
    if (below(2)) b.neighbors = a.neighbors;
    if (below(3) == 0) b.neighbors[below(D + 1)] ^= below(2);
    begin(str(a) + " | " + str(b));
    std::set<tIdType> A(a.vertices.begin(), a.vertices.end()), B(b.vertices.begin(), b.vertices.end()); uint n = 0; for (auto x : A) n += B.count(x);
    check(a.countSharedVertices(b) == n, cat("countSharedVertices ", a.countSharedVertices(b)));
    if (n <= D) check(a.isNeighbor(b) == (n == D), "isNeighbor"); else { b.id = a.id; check(!a.isNeighbor(b), "isNeighbor of itself"); }
    bool fin = true; for (auto x : A) fin &= x < ~tIdType(0) - ((1u << D) - 1);
    check(a.isFinite() == fin, "isFinite");
    check(a.equalNeighbors(b) == (a.neighbors == b.neighbors), "equalNeighbors");
    for (int k = 0; k < 6; ++k) { tIdType x = k < int(D + 1) ? b.vertices[k] : rid<D>(); check(a.contains(x) == (A.count(x) > 0), cat("contains ", x)); }
    Id_Vector l; for (size_t k = below(5); k--;) l.push_back(below(2) ? a.vertices[below(D + 1)] : rid<D>());
    bool al = true, an = false; for (auto x : l) { al &= A.count(x) > 0; an |= A.count(x) > 0; }
    check(a.containsAll(l) == al, "containsAll"); check(a.containsAny(l) == an, "containsAny");
}
int main(int c, char **v) {
    init(c, v, "random pairs of simplices with small, huge and infinite vertex identifiers, many shared vertices");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 2000000 : 100000); ++i) { one<2>(); one<3>(); }
    VF_GUARD_END
    return done();
}
