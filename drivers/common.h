// Shared by the bounded drivers: deterministic random numbers, failure reporting, run statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <csignal>
namespace vf {
inline uint64_t &state() { static uint64_t s = 88172645463325252ull; return s; }
inline void seed(uint64_t s) { state() = s * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; }
inline uint64_t rnd() { // splitmix64
    uint64_t z = (state() += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline double unit() { return double(rnd() >> 11) / 9007199254740992.0; }
struct Stats { unsigned long long evaluations = 0, nontrivial = 0; std::set<uint64_t> seen; std::vector<std::string> samples; std::string rule; };
inline Stats &stats() { static Stats s; return s; }
inline std::string &current() { static std::string s; return s; }
inline bool &thorough() { static bool t = false; return t; }
inline void onalarm(int) {
    // the case in progress did not return: non-termination of the code under test
    const char *m = "FAIL: the call does not return, case: "; 
    (void)!write(1, m, strlen(m)); (void)!write(1, current().c_str(), current().size()); (void)!write(1, "\n", 1); _exit(1);
}
inline void init(int argc, char **argv, const char *rule) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    seed(argc > 1 ? strtoull(argv[1], nullptr, 10) : 1);
    thorough() = argc > 2 && std::string(argv[2]) == "thorough";
    stats().rule = rule;
    signal(SIGALRM, onalarm);
}
// begin of one case; desc is printed when it fails
inline void begin(const std::string &desc, bool nontrivial = true, unsigned limit = 60) {
    current() = desc; alarm(limit);
    auto &s = stats(); ++s.evaluations;
    if (nontrivial && s.seen.size() < 2000000 && s.seen.insert(std::hash<std::string>()(desc)).second) {
        ++s.nontrivial;
        if (s.samples.size() < 3 || (s.samples.size() < 6 && s.evaluations % 997 == 0)) s.samples.push_back(desc.substr(0, 300));
    }
}
// (an exact match, so that std::begin is not preferred for a std::string variable)
inline void begin(std::string &desc, bool nontrivial = true, unsigned limit = 60) { begin(const_cast<const std::string &>(desc), nontrivial, limit); }
[[noreturn]] inline void fail(const std::string &why) {
    printf("FAIL: %s | case: %s\n", why.c_str(), current().substr(0, 4000).c_str()); fflush(stdout); _exit(1);
}
inline void check(bool ok, const std::string &why) { if (!ok) fail(why); }
inline std::string esc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
inline int done() {
    alarm(0);
    auto &s = stats();
    printf("INFO {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"rule\": \"%s\", \"samples\": [", s.evaluations, s.nontrivial, esc(s.rule).c_str());
    for (size_t i = 0; i < s.samples.size(); ++i) printf("%s\"%s\"", i ? ", " : "", esc(s.samples[i]).c_str());
    printf("]}\n"); fflush(stdout);
    return 0;
}
template <class... A> std::string cat(const A &...a) { std::ostringstream o; o.precision(17); ((o << a), ...); return o.str(); }
}
#define VF_GUARD_BEGIN try {
#define VF_GUARD_END } catch (const std::exception &e) { vf::fail(std::string("unexpected exception: ") + e.what()); } catch (...) { vf::fail("unexpected exception"); }
