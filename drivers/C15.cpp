#include "simplex.h"
template <uint D> void one() {
    auto a = rsimplex<D>(), b = rsimplex<D>();
    if (below(2)) b.vertices = a.vertices;
    if (below(4) == 0) { b.vertices = a.vertices; b.vertices[D] += 1; if (b.vertices[D] == 0) b.vertices = a.vertices; }
    a.genFingerprint(); b.genFingerprint();
    begin(str(a) + " | " + str(b));
    bool sv = a.vertices == b.vertices;
    check(a.equalVertices(b) == sv, "equalVertices");
    check((a == b) == (b == a), "asymmetric");
    if (a.id != NOID && b.id != NOID) check((a == b) == (a.id == b.id), "operator== on identifiers");
    if ((a.id == NOID) != (b.id == NOID)) check((a == b) == sv, "operator== on vertices");
    check((a < b) == (a.id < b.id), "operator<");
    check((a == b.id) == (a.id == b.id), "operator==(id)");
}
// colliding fingerprints: different vertex sets with the same fingerprint
template <uint D> void collide() {
    for (tIdType hi = 1; hi < 40; ++hi) { auto a = rsimplex<D>(); a.vertices[D] &= 0xffff; std::sort(a.vertices.begin(), a.vertices.end()); auto b = a; b.vertices[D] += hi << 32; a.id = 7; b.id = NOID; a.genFingerprint(); b.genFingerprint();
        begin(str(a) + " | " + str(b)); check(a.fingerprint() == b.fingerprint() ? (a == b) == (a.vertices == b.vertices) : true, "equal fingerprints, different vertices"); }
}
int main(int c, char **v) {
    init(c, v, "random pairs of simplices with and without identifier, equal, nearly equal and fingerprint-colliding vertices");
    VF_GUARD_BEGIN
    collide<2>(); collide<3>();
    for (int i = 0; i < (thorough() ? 3000000 : 150000); ++i) { one<2>(); one<3>(); }
    VF_GUARD_END
    return done();
}
