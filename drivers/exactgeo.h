#pragma once
#include "common.h"
#include <climits>
#include <random>
#include <iostream>
#include <cmath>
#include <gmpxx.h>
#include "Geometry.h"
#include "utils/StringUtils.h"
extern "C" { size_t getPeakRSS() { return 0; } size_t getCurrentRSS() { return 0; } }
#include "utils/version.h"
const char GIT_COMMIT[] = "driver";
using namespace vf;
typedef mpq_class Q; typedef std::vector<Q> V;
inline V ex(const double *p, int D) { V v; for (int i = 0; i < D; ++i) v.push_back(Q(p[i])); return v; }
inline V operator-(const V &a, const V &b) { V r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] - b[i]); return r; }
inline Q dotq(const V &a, const V &b) { Q s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline Q detq(std::vector<V> m) { // Gauss elimination over the rationals
    Q d = 1; size_t n = m.size();
    for (size_t c = 0; c < n; ++c) { size_t r = c; while (r < n && m[r][c] == 0) ++r; if (r == n) return 0; if (r != c) { std::swap(m[r], m[c]); d = -d; } d *= m[c][c];
        for (size_t k = c + 1; k < n; ++k) { Q f = m[k][c] / m[c][c]; for (size_t j = c; j < n; ++j) m[k][j] -= f * m[c][j]; } }
    return d;
}
inline Q orientq(const std::vector<V> &s) { std::vector<V> m; for (size_t i = 0; i + 1 < s.size(); ++i) m.push_back(s[i] - s.back()); return detq(m); }
inline Q insphereq(const std::vector<V> &s, const V &p) { std::vector<V> m; for (auto &x : s) { V v = x - p; v.push_back(dotq(v, v)); m.push_back(v); } return detq(m); }
inline std::vector<Q> baryq(const std::vector<V> &s, const V &p) { std::vector<V> m; for (size_t i = 1; i < s.size(); ++i) m.push_back(s[i] - s[0]); Q d = detq(m); std::vector<Q> l(1, Q(1)); for (size_t i = 1; i < s.size(); ++i) { auto k = m; k[i - 1] = p - s[0]; Q x = detq(k) / d; l.push_back(x); l[0] -= x; } return l; }
inline V centerq(const std::vector<V> &s) { std::vector<V> m; std::vector<Q> b; for (size_t i = 1; i < s.size(); ++i) { m.push_back(s[i] - s[0]); b.push_back(dotq(m.back(), m.back()) / 2); } Q d = detq(m); V c; size_t D = s[0].size(); for (size_t j = 0; j < D; ++j) { auto k = m; for (size_t i = 0; i < D; ++i) k[i][j] = b[i]; c.push_back(detq(k) / d + s[0][j]); } return c; }
inline int sgn3(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
template <unsigned D> dPoint<D, double> pt(double scale, int mode) { dPoint<D, double> p; for (unsigned i = 0; i < D; ++i) { double c = mode == 0 ? double(int(below(9)) - 4) : mode == 1 ? unit() : unit() * 2 - 1; p.coords[i] = c * scale; } return p; }
template <unsigned D> std::string shw(const dPoint<D, double> &p) { std::string s = "("; for (unsigned i = 0; i < D; ++i) s += cat(i ? "," : "", p.coords[i]); return s + ")"; }
// printing of points and simplices (only used in log messages) needs a header that is not installed here
template <uint D, typename P> std::ostream &operator<<(std::ostream &o, const dPoint<D, P> &) { return o << "point"; }
template <uint D, typename P> std::ostream &operator<<(std::ostream &o, const dSimplex<D, P> &) { return o << "simplex"; }
#define VF_PRINT(D, P) template std::ostream &operator<<(std::ostream &, const dPoint<D, P> &); template std::ostream &operator<<(std::ostream &, const dSimplex<D, P> &);
VF_PRINT(2, float) VF_PRINT(3, float) VF_PRINT(2, double) VF_PRINT(3, double)
