#include "common.h"
#include <regex>
#include "utils/StringUtils.h"
using namespace vf;
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool oint(const std::string &s) {
    size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t d = 0; while (i < s.size() && dig(s[i])) ++i, ++d;
    return d && i == s.size();
}
static bool oflt(const std::string &s) {
    size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t d = 0; while (i < s.size() && dig(s[i])) ++i, ++d;
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dig(s[i])) ++i, ++d; }
    if (!d) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        size_t e = 0; while (i < s.size() && dig(s[i])) ++i, ++e;
        if (!e) return false;
    }
    return i == s.size();
}
static void one(const std::string &s) {
    begin("string \"" + esc(s) + "\"");
    check(is_int(s) == oint(s), cat("is_int returns ", is_int(s)));
    check(is_float(s) == oflt(s), cat("is_float returns ", is_float(s)));
}
int main(int c, char **v) {
    init(c, v, "every string of length at most 2 over all bytes, all strings of length at most 3 (thorough: 5) over '0 7 + - . e E |', random strings of up to 300 characters over number and other characters");
    VF_GUARD_BEGIN
    one("");
    for (int a = 0; a < 256; ++a) one(std::string(1, char(a)));
    for (int a = 0; a < 256; ++a) for (const char *p : {"0", "1", "9", ".", "+", "-", "e", "E", "1.", ".1", "1e", "12"}) { one(std::string(1, char(a)) + p); one(p + std::string(1, char(a))); one(std::string(p) + char(a) + "5"); one("-3" + std::string(1, char(a)) + p); }
    const std::string A = "07+-.eE|"; unsigned L = thorough() ? 5 : 3;
    std::vector<std::string> cur{""};
    for (unsigned l = 0; l < L; ++l) { std::vector<std::string> nx; for (auto &s : cur) for (char ch : A) nx.push_back(s + ch); for (auto &s : nx) one(s); cur = nx; }
    for (int i = 0; i < (thorough() ? 20000 : 1500); ++i) {
        std::string s; auto digs = [&](size_t m) { size_t n = below(m); while (n--) s += char('0' + below(10)); };
        if (below(2)) s += "+-"[below(2)];
        digs(i % 10 == 0 ? 200 : 6); if (below(2)) s += '.'; digs(i % 10 == 1 ? 200 : 4);
        if (below(2)) { s += "eE"[below(2)]; if (below(2)) s += "+-"[below(2)]; digs(i % 10 == 2 ? 100 : 4); }
        if (below(3) == 0 && s.size()) { size_t k = below(s.size()); s[k] = char(below(256)); }
        if (below(6) == 0) s.insert(below(s.size() + 1), 1, "+-.e 0|(\n"[below(9)]);
        one(s);
    }
    VF_GUARD_END
    return done();
}
