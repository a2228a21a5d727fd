#include "lp.h"
typedef std::map<K, uint64_t> M; typedef LP_Map<K, uint64_t> S; typedef LP_Set<K, true> F;
static std::string t;
static uint64_t value() { switch (below(4)) { case 0: return 0; case 1: return rnd(); default: return 1 + below(50); } }
static void same(const S &s, const M &m, int range) {
    check(s.size() == m.size(), cat("size ", s.size(), " expected ", m.size())); check(s.empty() == m.empty(), "empty"); check(s.size() < s.capacity(), "no free slot left");
    for (auto &e : m) { check(s.contains(e.first) && s.count(e.first) == 1, cat("lost ", e.first)); check(s.get(e.first) == e.second, cat("value of ", e.first, " is ", s.get(e.first), " expected ", e.second)); }
    for (int i = 0; i < 24; ++i) { K k = key(range); bool in = m.count(k) > 0; check(s.contains(k) == in && s.count(k) == (in ? 1u : 0u), cat("contains ", k)); if (!in) check(s.get(k) == 0, cat("get of the absent ", k)); }
    std::multimap<K, uint64_t> seen; for (const auto &e : s) seen.emplace(e.first, e.second);
    check(seen.size() == m.size() && M(seen.begin(), seen.end()) == m, "iteration");
    std::multimap<K, uint64_t> seen2; for (auto i = s.begin(); i != s.end(); i++) seen2.emplace((*i).first, (*i).second); check(seen2 == seen, "iteration with ++(int)");
}
static void fill(S &s, M &m, int n, int range) {
    for (int i = 0; i < n; ++i) { K k = key(range); uint64_t v = value(); bool e = !m.count(k); t += cat(" +", k, ":", v); begin(t); bool r = below(2) ? s.insert(k, v) : s.insert(std::make_pair(k, v)); m[k] = v; check(r == e, cat("insert ", k, " returns ", r)); }
}
int main(int c, char **v) {
    init(c, v, "histories of construction, insert, overwrite, merge (plain and filtered), move and rehash of maps with arbitrary hash multipliers, compared with std::map");
    VF_GUARD_BEGIN
    for (int k = 0; k < (thorough() ? 60000 : 3000); ++k) {
        int range = below(2) ? 12 : 300; auto h = hasher(); size_t n0 = below(40); t = cat("size ", n0, " a ", h.a, " |"); begin(t);
        S s(n0, h); M m; same(s, m, range); fill(s, m, below(8) ? below(40) : below(600), range); same(s, m, range);
        auto h2 = hasher(); size_t n2 = below(40); t += cat(" other ", n2, " a ", h2.a); S o(n2, h2); M mo; fill(o, mo, below(30), range);
        F f(1 + below(8), hasher()); std::set<K> mf; t += " filter:"; for (int i = below(20); i > 0; --i) { K x = key(range); t += cat(" ", x); f.insert(x); mf.insert(x); } begin(t);
        for (int step = 0; step < 3; ++step) {
            switch (below(7)) {
                case 6: t += " assign other"; begin(t); s = std::move(o); m = mo; o = S(n2, h2); mo.clear(); break;
                case 0: t += " merge"; begin(t); s.merge(std::move(o)); for (auto &e : mo) m[e.first] = e.second; o = S(n2, h2); mo.clear(); break;
                case 1: { t += " merge-filter"; begin(t); s.merge(std::move(o), f); for (auto &e : mo) m[e.first] = e.second; for (K x : mf) m.erase(x); o = S(n2, h2); mo.clear(); break; }
                case 2: { size_t n = std::max<size_t>(m.size() + 1, below(100)); t += cat(" rehash ", n); begin(t); s.rehash(n); break; }
                case 3: { size_t n = std::max<size_t>(m.size() + 1, below(100)); t += cat(" rehash-filter ", n); begin(t); s.rehash(n, f); for (K x : mf) m.erase(x); break; }
                default: { t += " move"; begin(t); S d(std::move(s)); same(d, m, range); s = std::move(d); }
            }
            same(s, m, range); fill(s, m, below(10), range); same(s, m, range);
        }
    }
    VF_GUARD_END
    return done();
}
