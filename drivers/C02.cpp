#include "common.h"
#include <array>
#include <algorithm>
#include <memory>
#include "utils/StaticSort.h"
using namespace vf;
struct It { int64_t key; uint32_t tag; bool operator<(const It &o) const { return key < o.key; } bool operator>(const It &o) const { return key > o.key; } bool operator<=(const It &o) const { return key <= o.key; } bool operator>=(const It &o) const { return key >= o.key; } bool operator==(const It &o) const { return key == o.key; } bool operator!=(const It &o) const { return key != o.key; } };
template <class T> T val(uint64_t mode, size_t i, size_t N) {
    switch (mode) { case 0: return T(rnd() % (2 * N + 1)); case 1: return T(N - i); case 2: return T(i); case 3: return T(rnd() % 3); case 4: return T(7); default: return T(rnd()); }
}
template <size_t N> void one(uint64_t mode) {
    begin(cat("static_insertion_sort N=", N, " mode=", mode, " state=", state()));
    auto a = std::make_unique<std::array<It, N>>(); auto d = std::make_unique<std::array<uint32_t, N>>();
    for (size_t i = 0; i < N; ++i) { (*a)[i] = {int64_t(val<int32_t>(mode, i, N)), uint32_t(i)}; (*d)[i] = i; }
    auto b = std::make_unique<std::array<It, N>>(*a);
    auto o = *a;
    static_insertion_sort(*b);
    static_insertion_sort_with_data(*a, *d);
    for (auto *p : {a.get(), b.get()}) {
        std::vector<bool> seen(N, false);
        for (size_t i = 0; i < N; ++i) {
            if (i) check(!((*p)[i] < (*p)[i - 1]), cat("not sorted at ", i));
            auto t = (*p)[i].tag; check(t < N && !seen[t], "not a permutation"); seen[t] = true;
            check((*p)[i].key == o[t].key, "key changed");
        }
    }
    for (size_t i = 0; i < N; ++i) check((*d)[i] == (*a)[i].tag, cat("data not moved with its key at ", i));
}
template <class T, size_t N> void plain() {
    begin(cat("plain type N=", N, " state=", state()));
    std::array<T, N> a; for (auto &x : a) x = T(rnd() % 50) - T(20);
    auto e = a; std::sort(e.begin(), e.end()); static_insertion_sort(a); check(a == e, "differs from std::sort");
}
template <size_t N> void all(int reps) { for (int r = 0; r < reps; ++r) for (int m = 0; m < 6; ++m) one<N>(m); }
int main(int c, char **v) {
    init(c, v, "sizes 0..8, 17, 33, 300 with six key patterns (random, reversed, sorted, few values, constant, full range), plus one size above 2^15; every case checks order, permutation and attached data");
    VF_GUARD_BEGIN
    int R = thorough() ? 4000 : 300;
    all<0>(2); all<1>(20); all<2>(R); all<3>(R); all<4>(R); all<5>(R); all<6>(R); all<8>(R); all<17>(R); all<33>(R / 2); all<300>(4);
    for (int i = 0; i < R; ++i) { plain<unsigned, 3>(); plain<unsigned, 4>(); plain<double, 4>(); plain<int, 5>(); plain<unsigned long, 7>(); }
    one<33000>(2); one<33000>(0 + (thorough() ? 1 : 2)); one<40000>(0 + 2);
    { // nearly sorted large array: the insertion point moves only a little
        constexpr size_t N = 60000; begin("N=60000 nearly sorted");
        static std::array<It, N> a; static std::array<uint32_t, N> d;
        for (size_t i = 0; i < N; ++i) { a[i] = {int64_t(i ^ 3), uint32_t(i)}; d[i] = i; }
        static_insertion_sort_with_data(a, d);
        for (size_t i = 0; i < N; ++i) check(a[i].key == int64_t(i) && d[i] == a[i].tag && a[i].tag == (i ^ 3), "nearly sorted array");
    }
    VF_GUARD_END
    return done();
}
