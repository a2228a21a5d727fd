#include "common.h"
#include "utils/CSV.h"
using namespace vf;
static std::string rs() { static const char *s[] = {"", "a", "name", "x y", " ", "Z "}; if (below(2)) return s[below(6)]; std::string o; for (size_t n = below(9); n--;) o += char(32 + below(95)); return o; }
template <class... T> void one(const T &... a) {
    std::vector<std::string> f; auto add = [&](const auto &x) { std::ostringstream s; s << x; f.push_back(s.str()); };
    (add(a), ...);
    std::string e; for (size_t i = 0; i < f.size(); ++i) e += (i ? " " : "") + f[i];
    begin(cat(f.size(), " fields '", e, "'")); std::string r = CSV::csv(a...); check(r == e, "csv gave '" + r + "'");
}
int main(int c, char **v) {
    init(c, v, "0 to 9 random fields of mixed types (empty fields, fields with spaces, numbers)");
    VF_GUARD_BEGIN
    for (int k = 0; k < (thorough() ? 400000 : 20000); ++k) {
        one(); one(rs()); one(rs(), rs()); one(int(rnd()), rs(), double(rnd()) / 1e5); one(rs(), rs(), rs(), rs()); one(rs(), (unsigned long)rnd(), 'c', true, (long double)unit() * 1e9L); one(rs(), rs(), rs(), rs(), unsigned(rnd()), rs(), -1, rs(), rs()); one((const char *)"lit", 'x', 0);
    }
    VF_GUARD_END
    return done();
}
