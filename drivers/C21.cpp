// Records written to text and read back; the text itself against its definition.
#include "common.h"
#include "utils/Timings.h"
#include <map>
#include <sstream>
extern const char GIT_COMMIT[] = "driver";
using namespace vf;
typedef std::map<std::string, std::string> Traits;
static bool ign(const std::string &k) { for (auto x : {"git-rev", "start-time", "end-time", "run-number", "host"}) if (k == x) return true; return false; }
static bool okname(const std::string &s) { return (s + ": ").find(": ") == s.size(); }
static bool okvalue(const std::string &s) { return (s + "   ").find("   ") == s.size(); }
static std::string word(int max) {
    static const char A[] = "abz01:. -_\t\n,"; std::string s; int k = below(max + 1); for (int i = 0; i < k; ++i) s += A[below(13)]; return s;
}
int main(int argc, char **argv) {
    init(argc, argv, "records with up to 8 traits whose names and values do not contain the separators (empty and one-character ones included), with and without counters and measurements");
    VF_GUARD_BEGIN
    long N = thorough() ? 100000 : 12000;
    for (long q = 0; q < N; ++q) {
        ExperimentRun r; Traits t = r.traits(); int k = below(9), style = below(3); std::string desc;
        for (int i = 0; i < k; ++i) {
            std::string n, v; static const char *X[] = {"host", "git-rev", "start-time", "end-time", "run-number", "a", "zz"};
            do n = below(5) ? word(style ? 6 : 2) : std::string(X[below(7)]); while (!okname(n));
            do v = word(style == 2 ? 12 : 2); while (!okvalue(v));
            if (below(2)) { r.addTrait(n, v); t.emplace(n, v); } else { r.updateTrait(n, v); t[n] = v; }
        }
        for (auto &x : t) desc += "[" + x.first + "=" + x.second + "]";
        begin(desc, k > 0, 20);
        std::string e; for (auto &x : t) e += (e.empty() ? "" : "   ") + x.first + ": " + x.second;
        if (below(2)) r.incCounter("cnt", 3);
        check(r.str() == e, "text of the record: '" + r.str() + "'");
        std::ostringstream os; os << r; check(os.str() == e, "streamed record");
        ExperimentRun b(r.str()); Traits x = ExperimentRun().traits(); for (auto &y : t) if (!ign(y.first)) x[y.first] = y.second;
        check(b.traits() == x, "record read back from '" + e + "' gives '" + b.str() + "'");
        check(r == b && b == r, "record read back does not compare equal");
        check(ExperimentRun(b.str()) == b, "second round trip");
        // other separators
        { bool ok = true; for (auto &y : t) ok = ok && y.first.find_first_of("|=") == std::string::npos; std::string f; for (auto &y : t) f += (f.empty() ? "" : "|") + y.first + "=" + y.second; if (ok) { check(r.str("|", "=") == f, "text with other separators"); check(ExperimentRun(f, "|", "=") == r, "reading with other separators"); } }
        if (below(2)) {
            unsigned long a = below(1000), c = below(1000); r.addMeasurement("m1", a); r.addMeasurement("m1", c);
            check(r.str("   ", ": ", true) == e + "   m1: " + std::to_string((a + c) / 2), "text with measurements: '" + r.str("   ", ": ", true) + "'");
            check(r.str() == e, "text without measurements");
            // in any order
            std::map<std::string, unsigned long> m; m["m1"] = (a + c) / 2; int more = below(5);
            for (int i = 0; i < more; ++i) { std::string n = "m" + std::to_string(i + 2); r.addMeasurement(n, m[n] = below(1000)); }
            std::string got = r.str("   ", ": ", true); bool ok = got.compare(0, e.size(), e) == 0; std::string rest = ok ? got.substr(e.size()) : "";
            for (auto &y : m) { std::string f = "   " + y.first + ": " + std::to_string(y.second); auto p = (rest + "   ").find(f + "   "); if (p == std::string::npos) ok = false; else rest.erase(p, f.size()); }
            check(ok && rest.empty(), "text with " + std::to_string(more + 1) + " measurements: '" + got + "'");
        }
    }
    VF_GUARD_END
    return done();
}
