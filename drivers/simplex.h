#pragma once
#include "common.h"
#include <algorithm>
#include "Geometry.h"
using namespace vf;
static const tIdType NOID = ~tIdType(0);
template <uint D> tIdType rid() {
    switch (below(5)) {
        case 0: return 1 + below(6);
        case 1: return dPoint<D, double>::cINF + below(1u << D);
        case 2: return dPoint<D, double>::cINF - 1 - below(3);
        case 3: return (tIdType(1) << below(64)) + below(3);
        default: return 1 + below(9);
    }
}
template <uint D> std::array<tIdType, D + 1> rverts() {
    std::set<tIdType> s; while (s.size() < D + 1) s.insert(rid<D>());
    std::array<tIdType, D + 1> a; std::copy(s.begin(), s.end(), a.begin()); return a;
}
template <uint D> dSimplex<D, double> rsimplex() {
    dSimplex<D, double> s(rverts<D>()); s.id = below(4) ? below(5) : NOID; for (auto &n : s.neighbors) n = rid<D>(); s.vFingerprint = rnd(); s.mark = below(256); return s;
}
template <uint D> std::string str(const dSimplex<D, double> &s) {
    std::string o = cat("D=", D, " id=", s.id, " v="); for (auto v : s.vertices) o += cat(v, ","); o += " n="; for (auto v : s.neighbors) o += cat(v, ","); return o;
}
