#include "common.h"
#include <climits>
#include <iostream>
#include "datastructures/Bit_Set.hxx"
using namespace vf;
typedef std::set<uint64_t> Set;
static const uint64_t T32 = uint64_t(1) << 32;
static uint64_t lo(uint64_t x) { return x / 32 * 32; }
static uint64_t hi(uint64_t x) { return (x + 31) / 32 * 32; }
template <class B> void same(const B &b, const Set &m, uint64_t L, uint64_t U) {
    check(b.ones() == m.size() && b.size() == m.size(), cat("count ", b.ones(), " expected ", m.size()));
    check(b.empty() == m.empty() && b.zero() == m.empty() && b.zeros() == U - L - m.size() && b.one() == (m.size() == U - L), "zero / one / zeros");
    check(b.lowerBound() == L && b.upperBound() == U, "bounds");
    for (uint64_t i = L > 40 ? L - 40 : 0; i < U + 40 && i < T32; ++i) check(b.contains(i) == (m.count(i) > 0) && b.isSet(i) == (m.count(i) > 0) && b.count(i) == m.count(i), cat("contains ", i));
}
template <class B> void ops(B &b, Set &m, uint64_t L, uint64_t U, std::string &t, int n) {
    for (int k = 0; k < n && L < U; ++k) {
        uint64_t i = L + below(U - L); if (below(4) == 0) i = L + below(2) * (U - L - 1);
        bool e = m.count(i), r;
        switch (below(4)) {
            case 0: t += cat(" -", i); begin(t); r = b.erase(i); check(r == e, "erase result"); m.erase(i); break;
            default: t += cat(" +", i); begin(t); r = b.insert(i); check(r == !e, "insert result"); m.insert(i);
        }
        same(b, m, L, U);
    }
}
static void range(uint64_t &a, uint64_t &b) { a = below(3) ? below(200) : below(8) ? 0 : T32 - 300 + below(100); b = a + below(below(3) ? 130 : 40); }
int main(int c, char **v) {
    init(c, v, "histories of insert, erase, merge, filter, mergeFilter, copy, resize and batchSet over small and high identifier ranges, compared with std::set");
    VF_GUARD_BEGIN
    for (int k = 0; k < (thorough() ? 40000 : 1500); ++k) {
        uint64_t a1, b1, a2, b2, a3, b3; range(a1, b1); range(a2, b2); range(a3, b3); if (a1 > 1000 || a2 > 1000 || a3 > 1000) { a2 = a1 + below(64); b2 = a2 + below(64); a3 = a1 + below(64); b3 = a3 + below(64); }
        std::string t = cat("Bit_Set [", a1, ",", b1, ")");
        { Concurrent_Bit_Set s(a1, b1); Set m; std::string u = "Concurrent_" + t; ops(s, m, lo(a1), hi(b1), u, 12); }
        Bit_Set x(a1, b1), y(a2, b2), z(a3, b3); Set mx, my, mz; uint64_t L = lo(a1), U = hi(b1), L2 = lo(a2), U2 = hi(b2);
        begin(t); same(x, mx, L, U); ops(x, mx, L, U, t, 10 + 30 * (k % 20 == 0));
        t += cat(" | other [", a2, ",", b2, ")"); ops(y, my, L2, U2, t, 10); t += cat(" | third [", a3, ",", b3, ")"); ops(z, mz, lo(a3), hi(b3), t, 10);
        if (below(2) && L < U) { uint64_t f = L + below(U - L), e = f + 1 + below(U - f); Bit_Set w(a1, b1); std::string u = cat("Bit_Set [", a1, ",", b1, ") batchSet ", f, " ", e); begin(u); w.batchSet(f, e); Set mw; for (uint64_t i = f; i < e; ++i) mw.insert(i); same(w, mw, L, U); if (below(2)) { x = std::move(w); mx = mw; t += " = " + u; } }
        switch (below(5)) {
            case 0: t += " merge"; begin(t); x.merge(std::move(y)); mx.insert(my.begin(), my.end()); L = std::min(L, L2); U = std::max(U, U2); same(x, mx, L, U); ops(x, mx, L, U, t, 4); break;
            case 1: t += " filter"; begin(t); x.filter(y); for (auto i : my) mx.erase(i); same(x, mx, L, U); break;
            case 2: t += " mergeFilter"; begin(t); x.mergeFilter(std::move(y), z); mx.insert(my.begin(), my.end()); for (auto i : mz) mx.erase(i); L = std::min(L, L2); U = std::max(U, U2); same(x, mx, L, U); break;
            case 3: t += " copy"; begin(t); x.copy(y); mx = my; L = L2; U = U2; same(x, mx, L, U); ops(x, mx, L, U, t, 4); break;
            default: { uint64_t nl = below(2) ? a2 : a1, nu = std::max(b2, nl); t += cat(" resize ", nl, " ", nu); begin(t); x.resize(nl, nu); L = std::min(L, lo(nl)); U = std::max(U, hi(nu)); same(x, mx, L, U); ops(x, mx, L, U, t, 6); }
        }
        { t += " move"; begin(t); Bit_Set w(std::move(x)); same(w, mx, L, U); }
    }
    VF_GUARD_END
    return done();
}
