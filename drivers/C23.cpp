// Averages of measurement lists against exact 128-bit arithmetic.
#include "common.h"
#include "utils/Timings.h"
#include <map>
#include <stdexcept>
extern const char GIT_COMMIT[] = "driver";
using namespace vf;
int main(int argc, char **argv) {
    init(argc, argv, "measurement lists of 1 to 300 entries over several names, small, huge and mixed values whose sum fits 64 bits");
    VF_GUARD_BEGIN
    long N = thorough() ? 40000 : 4000;
    for (long q = 0; q < N; ++q) {
        ExperimentRun r; std::map<std::string, std::vector<unsigned long>> m; int names = 1 + below(3), tot = 1 + below(below(20) ? 12 : 300);
        std::string h;
        int mode = below(5); unsigned __int128 sum[3] = {0, 0, 0};
        for (int i = 0; i < tot; ++i) {
            int w = below(names); unsigned long x;
            switch (mode) { case 0: x = below(10); break; case 1: x = below(1ul << 32); break; case 2: x = (~0ul) / tot - below(3); break; case 3: x = i == tot / 2 ? (1ul << 63) + below(100) : below(50); break; default: x = i; }
            if (sum[w] + x > (unsigned __int128)~0ul) x = 0;
            sum[w] += x; std::string n(1, 'a' + w); if (w == 2) n = "";
            if (below(4)) r.addMeasurement(n, x); else { ExperimentRunAccessor::getInstance().setRun(&r); ExperimentRunAccessor::getInstance().addMeasurement(n, x); ExperimentRunAccessor::getInstance().setRun(nullptr); }
            m[n].push_back(x); if (h.size() < 3000) h += n + ":" + std::to_string(x) + " ";
        }
        begin(h, tot > 1);
        for (auto &x : m) {
            unsigned __int128 s = 0; for (auto v : x.second) s += v;
            check(r.avgMeasurement(x.first) == (unsigned long)(s / x.second.size()), "average of " + x.first + " is " + std::to_string(r.avgMeasurement(x.first)) + ", expected " + std::to_string((unsigned long)(s / x.second.size())));
            check(r.measurements(x.first).size() == x.second.size(), "number of measurements");
        }
        check(r.measurements().size() == m.size(), "averaging added names");
        bool thrown = false; try { r.avgMeasurement("missing"); } catch (const std::out_of_range &) { thrown = true; }
        check(thrown, "average of a name without measurements is reported"); check(r.measurements().size() == m.size(), "averaging added names");
    }
    VF_GUARD_END
    return done();
}
