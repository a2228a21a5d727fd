// Histories of log calls, level changes, indentation changes and prints against a plain list of entries.
#include "common.h"
#include "Logger.h"
#include <list>
#include <thread>
using namespace vf;
typedef Logger::Verbosity V;
struct Entry { int level; std::string text; };
static std::vector<Entry> model; static std::string live, recent; static std::ostringstream captured;
static void op(const std::string &s) { recent += s + ";"; if (recent.size() > 700) recent = "..." + recent.substr(recent.size() - 500); begin(recent, true); }
static std::string word() { static const char *W[] = {"", "x", "a b", "tab\there", "line\n", "end", "zero\tzero", "long text that goes on for a while and on"}; return W[below(8)]; }
static std::string num(long x) { return std::to_string(x); }
static int absl(int l) { return l < 0 ? -l : l; }
static void entry(int level, const std::string &t, unsigned depth) {
    std::string s = std::string(depth, '\t') + t;
    if ((int)LOGGER.getLogLevel() <= -1) live += s; else model.push_back({level, s});
}
static std::string expected(int level) { std::string s; if (level != 0) for (auto &e : model) if (e.level <= level) s += e.text; return s; }
static void printed(int level) {
    std::ostringstream o; o << "before:"; op("printLog(" + num(level) + ")");
    std::ostream &r = LOGGER.printLog(o, (V)level);
    check(&r == &o, "printLog returns another stream"); check(o.str() == "before:" + expected(level), "printed text, expected " + esc(expected(level)).substr(0, 300) + " but got " + esc(o.str()).substr(0, 300));
}
static unsigned depth = 0;
template <class C> static void container(const C &c, int level, const std::string &pre, const std::string &sep, bool defaults) {
    op("logContainer(" + num(c.size()) + " elements," + num(level) + "," + pre + "," + sep + ")");
    std::string t = defaults ? "" : (pre != "" ? pre + sep : ""); bool first = true; std::string s = defaults ? " " : sep;
    for (auto &x : c) { std::ostringstream o; o << x; t += (first ? "" : s) + o.str(); first = false; }
    if (absl((int)LOGGER.getLogLevel()) >= level) entry(level, t + "\n", depth);
    if (defaults) LOGGER.logContainer(c, (V)level); else LOGGER.logContainer(c, (V)level, pre, sep);
}
static void step() {
    int lv = (int)LOGGER.getLogLevel();
    switch (below(14)) {
    case 0: { int l = (int)below(7) - 3; op("setLogLevel(" + num(l) + ")"); LOGGER.setLogLevel((V)l); check((int)LOGGER.getLogLevel() == l, "log level"); break; }
    case 1: op("incIndent()"); LOGGER.incIndent(); ++depth; break;
    case 2: if (depth) { op("decIndent()"); LOGGER.decIndent(); --depth; } break;
    case 3: { depth = below(4) ? below(4) : below(300); op("setIndent(" + num(depth) + ")"); LOGGER.setIndent(depth); break; }
    case 4: { std::string w = word(); op("LOG(" + w + ")"); if (absl(lv) >= 1) entry(1, w, depth); LOG(w); break; }
    case 5: { std::string w = word(); op("VLOG(" + w + ")"); if (absl(lv) >= 2) entry(2, w + "7", depth); VLOG(w << 7); break; }
    case 6: { std::string w = word(); op("PLOG(" + w + ")");
#ifndef NDEBUG
              if (absl(lv) >= 3) entry(3, w, depth);
#endif
              PLOG(w); break; }
    case 7: op("INDENT"); INDENT if (absl(lv) >= 1) ++depth; break;
    case 8: if (depth) { op("DEDENT"); DEDENT if (absl(lv) >= 1) --depth; } break;
    case 9: { std::vector<unsigned long> c; int n = below(5); while (n--) c.push_back(below(100)); container(c, (int)below(4), word(), below(2) ? ", " : "", !below(3)); break; }
    case 10: { std::list<std::string> c; int n = below(4); while (n--) c.push_back(word()); container(c, (int)below(4), word(), below(2) ? "|" : " ", !below(3)); break; }
    case 11: { std::string w = word(); op("other thread logs"); std::thread([&] { check(LOGGER.getIndent() == 0, "a new thread starts without indentation"); LOGGER.incIndent(); entry(2, w, 1); LOGGER.addLogEntry(V::VERBOSE) << w; }).join(); break; }
    default: { int l = (int)below(7) - 3; std::string w = word(), x = word(); op("addLogEntry(" + num(l) + ") << " + w + " << " + x); entry(l, w + x, depth); LOGGER.addLogEntry((V)l) << w << x; }
    }
    check(LOGGER.getIndent() == depth, "indentation depth, expected " + num(depth)); check(LOGGER.indent() == std::string(depth, '\t'), "indentation text");
}
int main(int argc, char **argv) {
    init(argc, argv, "at least one call");
    VF_GUARD_BEGIN
    std::streambuf *old = std::cout.rdbuf(captured.rdbuf());
    struct Restore { std::streambuf *b; ~Restore() { std::cout.rdbuf(b); } } restore{old};
    op("fresh log"); check(LOGGER.getIndent() == 0 && (int)LOGGER.getLogLevel() == 1, "initial state"); check(&LOGGER == &Logger::getInstance(), "one log");
    for (int l = -3; l <= 3; ++l) printed(l);
    long N = thorough() ? 20000 : 3000;
    for (long i = 0; i < N; ++i) {
        step(); check(captured.str() == live, "text on the standard output, expected " + esc(live).substr(0, 300));
        if (live.size() > 3000) { captured.str(""); live.clear(); }
        if (!below(i < 300 ? 3 : 40)) { printed((int)below(7) - 3); std::ostringstream o; o << LOGGER; check(o.str() == expected((int)LOGGER.getLogLevel()), "operator<<"); std::ostringstream p; LOGGER.printLog(p); check(p.str() == o.str(), "printLog()"); }
    }
    for (int l = -3; l <= 3; ++l) printed(l);
    VF_GUARD_END
    return done();
}
