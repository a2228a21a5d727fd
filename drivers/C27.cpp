// Histories of drawing and returning identifiers, one thread and several, against a table of identifiers in use; the
// identifier sets built from point containers against the container itself.
#include "common.h"
#include "Geometry.h"
#include "exactgeo.h"
#include "utils/IndexHandler.h"
#include "utils/MakeIds.h"
#include <set>
#include <thread>
#include <memory>
using namespace vf;
template <class H> static void history(const std::string &what, unsigned start, bool given) {
    std::unique_ptr<H> h(given ? new H(start) : new H()); if (!given) start = 0;
    std::set<unsigned long> live, dead; std::string d = what + " from " + std::to_string(start) + ":"; int n = below(80); bool on = true; unsigned long hi = start;
    for (int i = 0; i < n; ++i) {
        unsigned r = below(20);
        if (r < 10 || live.empty()) {
            d += " get"; begin(d, i > 0); unsigned long x = h->getId();
            check(!live.count(x), "identifier " + std::to_string(x) + " is handed out while in use"); check(x >= start, "identifier below the start of the dispenser");
            check(x < hi + 1 && (x == hi || dead.count(x)), "identifier " + std::to_string(x) + " was neither returned nor the next new one"); check(on || x == hi || dead.count(x), "reused");
            dead.erase(x); if (x == hi) ++hi; live.insert(x);
        } else if (r < 19) {
            auto p = live.begin(); std::advance(p, below(live.size())); unsigned long x = *p; d += " release(" + std::to_string(x) + ")"; begin(d);
            h->releaseId(x); live.erase(p); if (on) dead.insert(x);
        } else if (!below(4)) { d += " disable"; begin(d); h->disable(); on = false; }
        unsigned long m = h->maxId(); check(live.empty() || *live.rbegin() < m, "maxId " + std::to_string(m) + " is not above every identifier in use");
    }
}
static void parallel(unsigned T, unsigned k) {
    _detail::Concurrent_IndexHandler h(3); const unsigned long CAP = (unsigned long)T * k + 10; std::unique_ptr<std::atomic<int>[]> own(new std::atomic<int>[CAP]()); std::atomic<long> bad(-1); std::atomic<int> go(0);
    std::vector<std::thread> th; unsigned long seed = below(1u << 30);
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] {
        std::vector<unsigned long> mine; unsigned long x = seed * 7919 + t * 104729 + 1; ++go; while (go < (int)T) ;
        for (unsigned i = 0; i < k; ++i) {
            x = x * 6364136223846793005ul + 1442695040888963407ul;
            if (mine.empty() || (x >> 60) < 10) { unsigned long a = h.getId(); if (a < 3 || a >= CAP || own[a].exchange(1)) { bad = a; return; } mine.push_back(a); if (h.maxId() <= a) { bad = a; return; } }
            else { unsigned long j = (x >> 20) % mine.size(), a = mine[j]; mine[j] = mine.back(); mine.pop_back(); own[a] = 0; h.releaseId(a); }
        }
    });
    for (auto &t : th) t.join();
    begin("threads=" + std::to_string(T) + " operations=" + std::to_string(k) + " seed=" + std::to_string(seed), T > 1);
    check(bad < 0, "identifier " + std::to_string((long)bad) + " is handed out while in use or outside the range");
}
template <unsigned D> static void points(unsigned n, unsigned long off) {
    typedef dPoint<D, double> P; dPoints<D, double> pts;
    for (unsigned i = 1; i <= n; ++i) { P p; for (unsigned d = 0; d < D; ++d) p.coords[d] = i + d * 0.5; pts.emplace_back(p); }
    pts.offset(off);
    begin("makePointIds<" + std::to_string(D) + "> of " + std::to_string(n) + " points with offset " + std::to_string(off), n > 0);
    auto s = makePointIds(pts); std::set<unsigned long> got; unsigned long cnt = 0;
    for (auto it = s.begin(); it != s.end(); ++it) { ++cnt; got.insert(*it); }
    check(cnt == got.size(), "an identifier occurs twice"); check(got.size() == n + P::nINF, std::to_string(got.size()) + " identifiers, the smallest " + std::to_string(*got.begin()) + ", the largest " + std::to_string(*got.rbegin()));
    for (unsigned long i = 1; i <= n; ++i) check(got.count(off + i) && s.count(off + i), "point " + std::to_string(off + i) + " is missing");
    for (unsigned i = 0; i < P::nINF; ++i) check(got.count(P::cINF + i), "infinite point " + std::to_string(i) + " is missing");
}
int main(int argc, char **argv) {
    init(argc, argv, "histories of up to 80 requests, returns and disabling; up to 8 threads of up to 4000 operations; point containers of up to 300 points");
    VF_GUARD_BEGIN
    long N = thorough() ? 20000 : 2000;
    for (long q = 0; q < N; ++q) { unsigned st = below(3) ? below(20) : below(1u << 30); bool g = below(4); history<_detail::IndexHandler>("IndexHandler", st, g); history<_detail::Concurrent_IndexHandler>("Concurrent_IndexHandler", st, g); }
    for (long q = 0; q < (thorough() ? 600 : 60); ++q) parallel(1 + below(8), 100 + below(4000));
    for (long q = 0; q < N / 10; ++q) { unsigned n = below(4) ? below(20) : below(300); unsigned long o = below(2) ? 0 : below(1u << 20); points<2>(n, o); points<3>(n, o); }
    VF_GUARD_END
    return done();
}
