// Every generator for random numbers of points, boxes and seeds: number and identifiers of the points, containment, all set.
#include "common.h"
#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <cmath>
#include <limits>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/version.h"
const char GIT_COMMIT[] = "driver";
extern "C" { size_t getPeakRSS() { return 0; } size_t getCurrentRSS() { return 0; } }
#include "load_balancing/VectorOperations.h"
#include "load_balancing/BoxUtils.h"
#include "utils/Generator.h"
#include "load_balancing/UnboundBubbleGenerator.h"
#include "load_balancing/PatchBubbleGenerator.h"
#include "load_balancing/MaliciousBubbleGenerator.h"
using namespace vf;
// every slot starts as not-a-number, so that a slot that is never written shows
template <class G, unsigned D> struct Probe : G { using G::G;
    void fill(dPoints<D, double> &p, unsigned long n, const dBox<D, double> &b, tGenerator &g) const { this->_gen(p, n, b, g); } };
template <unsigned D> static double eps(const dBox<D, double> &b) { double m = 0; for (unsigned d = 0; d < D; ++d) m = std::max(m, std::abs(b.low[d]) + std::abs(b.high[d])); return m * 1e-14; }
template <unsigned D> static void inside(const dPoints<D, double> &p, unsigned long n, const dBox<D, double> &b, const char *how) {
    check(p.finite_size() == n + 1 && p.offset() == 0, std::string(how) + ": container of " + std::to_string(p.finite_size()) + " slots"); double e = eps(b);
    for (unsigned long i = 1; i <= n; ++i) { check(p.contains(i), "point is not contained"); for (unsigned d = 0; d < D; ++d) { double x = p[i].coords[d];
        check(!(x != x), std::string(how) + ": point " + std::to_string(i) + " is never set"); check(b.low[d] - e <= x && x <= b.high[d] + e, std::string(how) + ": point " + std::to_string(i) + " lies outside: " + cat(x)); } }
    check(!p.contains(n + 1) && !p.contains(0), "container holds more points");
}
template <class G, unsigned D, class... A> static void probe(unsigned long n, const dBox<D, double> &b, unsigned seed, A... a) {
    Probe<G, D> g(a...); dPoints<D, double> p; p.reserveUpToIdx(n + 1); for (unsigned long i = 0; i <= n; ++i) p[i].coords.fill(std::nan("")); tGenerator r(seed); g.fill(p, n, b, r); inside<D>(p, n, b, "distribution");
    for (unsigned d = 0; d < D; ++d) check(p[0].coords[d] != p[0].coords[d], "the reserved slot 0 is written");
}
template <unsigned D> static void run() {
    unsigned long n = below(3) ? below(40) : below(600); dBox<D, double> b; bool thin = !below(6);
    for (unsigned d = 0; d < D; ++d) { double x = (unit() - 0.5) * (below(2) ? 10 : 1e4), y = (thin ? 1e-6 : 1) * (0.01 + unit()) * (below(2) ? 1 : 1e3); if (!below(4)) x = 0; b.low[d] = x; b.high[d] = x + y; }
    unsigned seed = below(1u << 30), nb = 2 + below(8); std::string where = " D=" + std::to_string(D) + " n=" + std::to_string(n) + " seed=" + std::to_string(seed); for (unsigned d = 0; d < D; ++d) where += cat(" [", b.low[d], ",", b.high[d], "]");
    const char L[] = {'u', 'n', 'b', 'e', 'l', 'x', 0};
    for (char c : L) { begin(std::string("distribution ") + (c ? std::string(1, c) : "0") + where, n > 0, 20); auto g = GeneratorFactory<D, double>::make(c); tGenerator r(seed); auto p = g->generate(n, b, r); inside<D>(p, n, b, "generate"); }
    begin("uniform" + where, n > 0, 20); probe<UniformPointGenerator<D, double>, D>(n, b, seed);
    begin("normal" + where, n > 0, 20); probe<NormalPointGenerator<D, double>, D>(n, b, seed);
    begin("bubble" + where, n > 0, 20); probe<BubblePointGenerator<D, double>, D>(n, b, seed);
    begin("ellipsoid" + where, n > 0, 20); probe<EllipsoidPointGenerator<D, double>, D>(n, b, seed);
    begin("skew lines" + where, n > 0, 20); probe<SkewLinePointGenerator<D, double>, D>(n, b, seed);
    double r = 1e300; for (unsigned d = 0; d < D; ++d) r = std::min(r, (b.high[d] - b.low[d]) / 2 * unit());
    where += " bubbles=" + std::to_string(nb);
    begin("unbound bubbles r=" + cat(r) + where, n > 0, 20); probe<LoadBalancing::UnboundBubbleGenerator<D, double>, D>(n, b, seed, nb, r);
    begin("patch bubbles" + where, n > 0, 20); probe<LoadBalancing::PatchBubbleGenerator<D, double>, D>(n, b, seed, nb);
    begin("malicious bubbles" + where, n > 0, 20); probe<LoadBalancing::MaliciousBubbleGenerator<D, double>, D>(n, b, seed, nb);
}
int main(int argc, char **argv) {
    init(argc, argv, "all generators, up to 600 points, random boxes (thin ones included), seeds and numbers of bubbles");
    VF_GUARD_BEGIN
    long N = thorough() ? 6000 : 600;
    for (long q = 0; q < N; ++q) { run<2>(); run<3>(); }
    VF_GUARD_END
    return done();
}
