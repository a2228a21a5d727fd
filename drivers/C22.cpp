// Histories of trait, counter and measurement updates against plain maps; comparisons of pairs of records.
#include "common.h"
#include "utils/Timings.h"
#include "utils/version.h"
#include <map>
#include <sstream>
#include <stdexcept>
extern const char GIT_COMMIT[] = "driver";
using namespace vf;
typedef std::map<std::string, std::string> Traits;
static const std::vector<std::string> IGN = {"git-rev", "start-time", "end-time", "run-number", "host"};
static bool ign(const std::string &k) { for (auto &x : IGN) if (x == k) return true; return false; }
struct Model { Traits t; std::map<std::string, unsigned long> c; std::map<std::string, std::vector<unsigned long>> m; };
static std::string name() { static const char *N[] = {"a", "b", "alg", "n", "", "host", "git-rev", "start-time", "end-time", "run-number", "hos", "host ", "zz", "nP", "Host"}; return N[below(15)]; }
static std::string value() { static const char *V[] = {"", "1", "x", "a b", "0.5", "-3", "longer value: with separator   inside"}; return V[below(7)]; }
static std::string show(const Model &m) { std::ostringstream s; for (auto &x : m.t) s << '[' << x.first << "=" << x.second << ']'; for (auto &x : m.c) s << '{' << x.first << "=" << x.second << '}'; return s.str(); }
template <class T> static std::string txt(const T &v) { std::ostringstream s; s << v; return s.str(); }
static std::string step(ExperimentRun &r, Model &m) {
    std::string k = name(), v = value(); unsigned long x = below(4) ? below(1000) : ~0ul - below(3);
    switch (below(10)) {
    case 0: r.addTrait(k, v); m.t.emplace(k, v); return "addTrait(" + k + "," + v + ");";
    case 1: r.updateTrait(k, v); m.t[k] = v; return "updateTrait(" + k + "," + v + ");";
    case 2: r.addTrait(k, x); m.t.emplace(k, txt(x)); return "addTrait(" + k + "," + txt(x) + ");";
    case 3: r.updateTrait(k, x); m.t[k] = txt(x); return "updateTrait(" + k + "," + txt(x) + ");";
    case 4: r.incCounter(k); m.c[k] += 1; return "incCounter(" + k + ");";
    case 5: r.incCounter(k, x); m.c[k] += x; return "incCounter(" + k + "," + txt(x) + ");";
    case 6: r.addMeasurement(k, x); m.m[k].push_back(x); return "addMeasurement(" + k + "," + txt(x) + ");";
    case 7: { double d = (double)below(100) / 8; r.addTrait(k, d); m.t.emplace(k, txt(d)); return "addTrait(" + k + "," + txt(d) + ");"; }
    case 8: { ExperimentRunAccessor::getInstance().setRun(&r); ExperimentRunAccessor::getInstance().incCounter(k, x); m.c[k] += x; ExperimentRunAccessor::getInstance().setRun(nullptr); ExperimentRunAccessor::getInstance().incCounter(k, x); return "profiler.incCounter(" + k + "," + txt(x) + ");"; }
    default: { ExperimentRunAccessor::getInstance().setRun(&r); ExperimentRunAccessor::getInstance().addMeasurement(k, x); m.m[k].push_back(x); ExperimentRunAccessor::getInstance().setRun(nullptr); ExperimentRunAccessor::getInstance().addMeasurement(k, x); return "profiler.addMeasurement(" + k + "," + txt(x) + ");"; }
    }
}
static void agree(const ExperimentRun &r, const Model &m) {
    check(r.traits() == m.t, "recorded traits, expected " + show(m));
    std::map<std::string, unsigned long> c; for (auto &x : r.counters()) c[x.first] = x.second;
    check(c == m.c, "recorded counters, expected " + show(m));
    for (auto &x : m.c) check(r.counter(x.first) == x.second, "counter " + x.first);
    check(r.measurements().size() == m.m.size(), "number of measurement names");
    for (auto &x : m.m) { auto &l = r.measurements(x.first); check(std::vector<unsigned long>(l.begin(), l.end()) == x.second, "measurements of " + x.first); }
    for (int i = 0; i < 15; ++i) {
        std::string k = name(); bool h = m.t.count(k);
        check(r.hasTrait(k) == h, "hasTrait(" + k + ")");
        try { check(r.getTrait(k) == (h ? m.t.at(k) : ""), "getTrait(" + k + ")"); check(h, "getTrait of an absent trait returns"); } catch (const std::out_of_range &) { check(!h, "getTrait of a recorded trait throws"); }
        if (h) { std::istringstream s(m.t.at(k)); long v = 0; if (s >> v) check(r.getTrait<long>(k) == v, "getTrait<long>(" + k + ")"); }
        try { r.counter(k); check(m.c.count(k), "counter of an absent name returns"); } catch (const std::out_of_range &) { check(!m.c.count(k), "counter throws"); }
    }
}
static bool equal(const Model &a, const Model &b) {
    Traits x, y; for (auto &t : a.t) if (!ign(t.first)) x.insert(t); for (auto &t : b.t) if (!ign(t.first)) y.insert(t);
    return x == y;
}
static ExperimentRun build(Model &m, const std::vector<std::pair<std::string, std::string>> &l) {
    ExperimentRun r; m.t = r.traits(); for (auto &x : l) { r.updateTrait(x.first, x.second); m.t[x.first] = x.second; } return r;
}
int main(int argc, char **argv) {
    init(argc, argv, "histories of up to 40 updates over 15 names; pairs of records built by random histories and by one-trait edits");
    VF_GUARD_BEGIN
    long N = thorough() ? 20000 : 1200;
    { begin("default record"); ExperimentRun r; check(r.traits().size() == 2 && r.getTrait("git-rev") == "driver" && r.hasTrait("host"), "a new record holds host and revision"); check(r.counters().empty() && r.measurements().empty(), "a new record has no counters or measurements"); }
    for (long q = 0; q < N; ++q) {
        ExperimentRun r; Model m; m.t = r.traits(); std::string h; int k = below(40);
        for (int i = 0; i < k; ++i) { h += step(r, m); begin(h, i > 0); if (i == k - 1 || !below(8)) agree(r, m); }
        if (!h.empty()) agree(r, m);
    }
    for (long q = 0; q < N * 8; ++q) {
        std::vector<std::pair<std::string, std::string>> a, b; int k = below(6);
        for (int i = 0; i < k; ++i) a.emplace_back(name(), value());
        b = a; int e = below(4);
        for (int i = 0; i < e; ++i) {
            int w = below(3);
            if (w == 0 && !b.empty()) b.erase(b.begin() + below(b.size()));
            else if (w == 1) b.insert(b.begin() + below(b.size() + 1), {name(), value()});
            else if (!b.empty()) b[below(b.size())].second = value();
        }
        Model ma, mb; ExperimentRun ra = build(ma, a), rb = build(mb, b);
        if (below(2)) { ra.incCounter("c"); rb.addMeasurement("m", 1); }
        begin("compare " + show(ma) + " with " + show(mb), e > 0);
        bool x = equal(ma, mb);
        check((ra == rb) == x, "a == b"); check((rb == ra) == x, "b == a"); check(ra == ra, "a == a");
        check(ra.traits() == ma.t && rb.traits() == mb.t, "comparison changed a record");
    }
    VF_GUARD_END
    return done();
}
