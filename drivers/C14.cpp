#include "simplex.h"
template <uint D> void one() {
    auto a = rsimplex<D>();
    begin(str(a));
    auto fp = a.genFingerprint(); check(fp == a.fingerprint(), "fingerprint");
    for (int k = 0; k < 4; ++k) {
        auto b = rsimplex<D>(); b.vertices = a.vertices; for (uint i = D; i > 0; --i) std::swap(b.vertices[i], b.vertices[below(i + 1)]);
        check(b.genFingerprint() == fp, "fingerprint depends on more than the vertex set");
    }
    for (uint i = 0; i < D + 1; ++i) {
        check(a.faceFingerprint(i) != 0, "face fingerprint is zero");
        for (uint j = 0; j < D + 1; ++j) {
            auto b = rsimplex<D>(); std::vector<tIdType> f; for (uint k = 0; k < D + 1; ++k) if (k != i) f.push_back(a.vertices[k]);
            for (uint k = f.size() - 1; k > 0; --k) std::swap(f[k], f[below(k + 1)]);
            tIdType o = rid<D>(); if (std::find(f.begin(), f.end(), o) != f.end()) continue;
            f.insert(f.begin() + j, o); std::copy(f.begin(), f.end(), b.vertices.begin());
            b.genFingerprint(); check(b.faceFingerprint(j) == a.faceFingerprint(i), cat("face fingerprints differ, faces ", i, " and ", j));
        }
    }
}
int main(int c, char **v) {
    init(c, v, "random simplices with small, huge and infinite vertex identifiers; all face pairs");
    VF_GUARD_BEGIN
    for (int i = 0; i < (thorough() ? 600000 : 40000); ++i) { one<2>(); one<3>(); }
    VF_GUARD_END
    return done();
}
