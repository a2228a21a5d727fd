#include "common.h"
#include <list>
#include "utils/Misc.h"
using namespace vf;
int main(int c, char **v) {
    init(c, v, "all strings over {a, b, delimiter} up to length 8 and random longer byte strings, both modes, non-empty previous result");
    VF_GUARD_BEGIN
    auto one = [](const std::string &s, char d) {
        begin(cat("delimiter ", int(d), " input '", s, "'"));
        std::vector<std::string> all, some; std::string cur;
        for (char x : s) if (x == d) { all.push_back(cur); cur.clear(); } else cur += x;
        all.push_back(cur); for (auto &x : all) if (!x.empty()) some.push_back(x);
        std::vector<std::string> r(below(4), "junk");
        auto &q = split(r, s, d); check(&q == &r, "result reference"); check(r == all, "fields"); std::string j; for (size_t i = 0; i < r.size(); ++i) j += (i ? std::string(1, d) : "") + r[i];
        check(j == s, "joined fields"); split(r, s, d, split::empties_ok); check(r == all, "fields, explicit mode"); split(r, s, d, split::no_empties); check(r == some, "fields without empty ones");
    };
    const char al[] = "ab,";
    std::function<void(std::string)> rec = [&](std::string s) { one(s, ','); if (s.size() < (thorough() ? 11u : 8u)) for (int i = 0; i < 3; ++i) rec(s + al[i]); };
    rec("");
    for (int k = 0; k < (thorough() ? 200000 : 10000); ++k) { std::string s; char d = char(below(256)); for (size_t n = below(k % 50 ? 40 : 5000); n--;) s += below(4) ? char(below(256)) : d; one(s, d); }
    VF_GUARD_END
    return done();
}
