#include "common.h"
#include <sstream>
#include "utils/Misc.h"
using namespace vf;
template <class T> void one(T x) {
    constexpr unsigned W = sizeof(T) * 8;
    begin(cat("width=", W, " x=", (unsigned long long)x));
    unsigned pc = 0, hi = 0; for (unsigned i = 0; i < W; ++i) if ((x >> i) & 1) { ++pc; hi = i; }
    check((isPow2<T>(x) != 0) == (pc == 1), "isPow2");
    T np = 0; if (x != 0 && x <= T(T(1) << (W - 1))) { np = 1; while (np < x) np = T(np << 1); }
    check(nextPow2<T>(x) == np, cat("nextPow2 gives ", (unsigned long long)nextPow2<T>(x)));
    check(popcount<T>(x) == T(pc), "popcount");
    if (x) {
        check(log2<T>(x) == T(hi), "log2");
        for (unsigned k = 1; k < W; ++k) { T n = T(T(1) << k); check(logN<T>(x, n) == T(hi / k), cat("logN base ", (unsigned long long)n)); }
    }
    T ns[] = {1, 2, 3, 4, 5, 7, 8, 16, 64, T(rnd()), x, T(x / 2 + 1)};
    for (T n : ns) if (n) check((isPowN<T>(x, n) != 0) == (x != 0 && x / n * n == x), cat("isPowN n=", (unsigned long long)n));
}
template <class T> void all() {
    constexpr unsigned W = sizeof(T) * 8;
    if (W <= 16) for (unsigned v = 0; v <= T(~T(0)); ++v) { one<T>(T(v)); }
    else {
        for (unsigned i = 0; i < W; ++i) for (int d = -3; d <= 3; ++d) { one<T>(T((T(1) << i) + d)); one<T>(T(~(T(1) << i) + d)); one<T>(T((~T(0) >> i) + d)); }
        for (unsigned i = 0; i < W; ++i) for (unsigned j = 0; j <= i; ++j) one<T>(T((T(1) << i) | (T(1) << j)));
        for (int i = 0; i < (thorough() ? 400000 : 20000); ++i) one<T>(T(rnd() >> below(W)));
    }
}
int main(int c, char **v) {
    init(c, v, "every 8- and 16-bit word; for 32 and 64 bits all words within 3 of a power of two or its complement, all two-bit words, and random words of every length");
    VF_GUARD_BEGIN
    all<uint8_t>(); all<uint16_t>(); all<uint32_t>(); all<uint64_t>();
    VF_GUARD_END
    return done();
}
