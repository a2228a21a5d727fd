#include "lp.h"
typedef std::set<K> M;
static std::string t;
template <class S> void same(const S &s, const M &m, int range) {
    check(s.size() == m.size(), cat("size ", s.size(), " expected ", m.size())); check(s.empty() == m.empty(), "empty"); check(s.size() < s.capacity(), "no free slot left");
    for (K k : m) check(s.contains(k) && s.count(k) == 1, cat("lost ", k));
    for (int i = 0; i < 24; ++i) { K k = key(range); check(s.contains(k) == (m.count(k) > 0) && s.count(k) == m.count(k), cat("contains ", k)); }
    std::multiset<K> seen; for (const auto &k : s) seen.insert(k);
    check(seen.size() == m.size() && M(seen.begin(), seen.end()) == m, "iteration");
    std::multiset<K> seen2; auto e = s.end(); for (auto i = s.begin(); i != e; i++) seen2.insert(*i);
    check(seen2 == seen, "iteration with ++(int)");
    { std::multiset<K> p; std::vector<decltype(s.range())> st; st.push_back(s.range()); int n = 0;
      for (auto i = st[0].begin(); i != st[0].end(); ++i) p.insert(*i); check(p == seen, "range"); (void)n; }
}
template <class S> void fill(S &s, M &m, int n, int range, bool grow) {
    for (int i = 0; i < n; ++i) {
        if (!grow && m.size() + 2 > s.capacity()) return;
        K k = key(range); bool e = !m.count(k); t += cat(" +", k); begin(t); bool r = s.insert(k); m.insert(k); check(r == e, cat("insert ", k, " returns ", r));
    }
}
typedef LP_Set<K, true> F;
template <bool G> void run() {
    typedef LP_Set<K, G> S; int range = below(2) ? 12 : 300; auto h = hasher(); size_t n0 = below(G ? 40 : 200);
    t = cat(G ? "growing" : "fixed", " size ", n0, " a ", h.a, " |"); begin(t);
    S s(n0, h); M m; same(s, m, range); fill(s, m, below(8) ? below(40) : below(600), range, G); same(s, m, range);
    F f(1 + below(8), hasher()); M mf; t += " filter:"; fill(f, mf, below(30), range, true); begin(t);
    auto h2 = hasher(); size_t n2 = below(G ? 40 : 200); t += cat(" other ", n2, " a ", h2.a); S o(n2, h2); M mo; fill(o, mo, below(30), range, G); 
    for (int step = 0; step < 3; ++step) {
        switch (below(9)) {
            case 8: { t += " assign other"; begin(t); s = std::move(o); m = mo; o = S(n2, h2); mo.clear(); break; }
            case 0: { t += " merge"; begin(t); s.merge(std::move(o)); m.insert(mo.begin(), mo.end()); o = S(n2, h2); mo.clear(); break; }
            case 1: { t += " merge-filter"; begin(t); s.merge(std::move(o), f); m.insert(mo.begin(), mo.end()); for (K k : mf) m.erase(k); o = S(n2, h2); mo.clear(); break; }
            case 2: { t += " merge-filter-cmp"; begin(t); s.merge(std::move(o), f, true); m.insert(mo.begin(), mo.end()); M r; for (K k : m) if (mf.count(k)) r.insert(k); m = r; o = S(n2, h2); mo.clear(); break; }
            case 3: t += " filter"; begin(t); s.filter(f); for (K k : mf) m.erase(k); break;
            case 4: { t += " copy"; begin(t); S c = s.copy(); same(c, m, range); M mc = m; fill(c, mc, 3, range, G); same(c, mc, range); if (below(2)) { s = std::move(c); m = mc; } break; }
            case 5: { t += " copy-construct/move"; begin(t); S c(s); same(c, m, range); S d(std::move(c)); same(d, m, range); s = std::move(d); break; }
            case 6: { size_t n = std::max<size_t>(m.size() + 1, below(100)); t += cat(" rehash ", n); begin(t); s.rehash(n); break; }
            default: { t += " =="; begin(t); F g(1 + below(50), hasher()); for (K k : m) if (below(20)) g.insert(k); if (!below(10)) g.insert(key(range)); M mg; for (K k : g) mg.insert(k); check((s == g) == (mg == m), "operator=="); }
        }
        same(s, m, range); fill(s, m, below(10), range, G); same(s, m, range);
    }
}
int main(int c, char **v) {
    init(c, v, "histories of construction, insert, merge (plain, filtered, inverted filter), filter, copy, move, rehash and comparison of growing and fixed sets with arbitrary hash multipliers, compared with std::set");
    VF_GUARD_BEGIN
    for (int k = 0; k < (thorough() ? 60000 : 3000); ++k) { if (k % 2) run<true>(); else run<false>(); }
    VF_GUARD_END
    return done();
}
