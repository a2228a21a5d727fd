#include "lp.h"
typedef std::multiset<std::pair<K, uint64_t>> M; typedef LP_MultiMap<K, uint64_t> S; typedef LP_Set<K, true> F;
static std::string t;
static uint64_t value() { switch (below(4)) { case 0: return 0; case 1: return rnd(); default: return 1 + below(5); } }
static std::multiset<uint64_t> of(const M &m, K k) { std::multiset<uint64_t> r; for (auto &e : m) if (e.first == k) r.insert(e.second); return r; }
static void one(const S &s, const M &m, K k) {
    auto e = of(m, k); std::multiset<uint64_t> g; auto r = s.get(k); size_t n = 0;
    for (auto i = r.first; i != r.second; ++i) { auto x = *i; check(x.first == k, cat("entry of key ", x.first, " in the range of ", k)); g.insert(x.second); check(++n <= m.size(), "endless range"); }
    check(g == e, cat("get ", k, ": ", g.size(), " values, expected ", e.size()));
    check(s.contains(k) == !e.empty() && (s.count(k) > 0) == !e.empty(), cat("contains ", k));
}
static void same(const S &s, const M &m, int range) {
    check(s.size() == m.size(), cat("size ", s.size(), " expected ", m.size())); check(s.empty() == m.empty(), "empty"); check(s.size() < s.capacity(), "no free slot left");
    std::set<K> ks; for (auto &e : m) ks.insert(e.first); for (K k : ks) one(s, m, k); for (int i = 0; i < 16; ++i) one(s, m, key(range));
    M seen; for (const auto &e : s) seen.emplace(e.first, e.second); check(seen == m, "iteration");
}
static void fill(S &s, M &m, int n, int range) {
    for (int i = 0; i < n; ++i) { K k = key(range); uint64_t v = value(); t += cat(" +", k, ":", v); begin(t); bool r = below(2) ? s.insert(k, v) : s.insert(std::make_pair(k, v)); m.emplace(k, v); check(r, cat("insert ", k, " returns false")); }
}
static void drop(M &m, const std::set<K> &f) { M r; for (auto &e : m) if (!f.count(e.first)) r.insert(e); m = r; }
int main(int c, char **v) {
    init(c, v, "histories of construction, insert, merge (plain and filtered), move and rehash of multimaps with arbitrary hash multipliers, compared with std::multiset of pairs");
    VF_GUARD_BEGIN
    for (int k = 0; k < (thorough() ? 40000 : 2000); ++k) {
        int range = below(2) ? 6 : 100; auto h = hasher(); size_t n0 = below(40); t = cat("size ", n0, " a ", h.a, " |"); begin(t);
        S s(n0, h); M m; same(s, m, range); fill(s, m, below(8) ? below(40) : below(200), range); same(s, m, range);
        auto h2 = hasher(); size_t n2 = below(40); t += cat(" other ", n2, " a ", h2.a); S o(n2, h2); M mo; fill(o, mo, below(30), range);
        F f(1 + below(8), hasher()); std::set<K> mf; t += " filter:"; for (int i = below(10); i > 0; --i) { K x = key(range); t += cat(" ", x); f.insert(x); mf.insert(x); } begin(t);
        for (int step = 0; step < 3; ++step) {
            switch (below(7)) {
                case 6: t += " assign other"; begin(t); s = std::move(o); m = mo; o = S(n2, h2); mo.clear(); break;
                case 0: t += " merge"; begin(t); s.merge(std::move(o)); for (auto &e : mo) m.insert(e); o = S(n2, h2); mo.clear(); break;
                case 1: t += " merge-filter"; begin(t); s.merge(std::move(o), f); for (auto &e : mo) m.insert(e); drop(m, mf); o = S(n2, h2); mo.clear(); break;
                case 2: { size_t n = std::max<size_t>(m.size() + 1, below(100)); t += cat(" rehash ", n); begin(t); s.rehash(n); break; }
                case 3: { size_t n = std::max<size_t>(m.size() + 1, below(100)); t += cat(" rehash-filter ", n); begin(t); s.rehash(n, f); drop(m, mf); break; }
                default: { t += " move"; begin(t); S d(std::move(s)); same(d, m, range); s = std::move(d); }
            }
            same(s, m, range); fill(s, m, below(10), range); same(s, m, range);
        }
    }
    VF_GUARD_END
    return done();
}
