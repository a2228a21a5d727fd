#include "common.h"
#include <map>
#include <stdexcept>
#include "datastructures/BlockedArray.hxx"
using namespace vf;
template <class A> void cells(A &a, size_t cap, std::map<size_t, uint64_t> &ref) {
    const A &ca = a;
    for (auto &kv : ref) { check(a[kv.first] == kv.second && ca[kv.first] == kv.second && a.at(kv.first) == kv.second && ca.at(kv.first) == kv.second, cat("index ", kv.first, " lost its value")); check(&a[kv.first] == &ca[kv.first] && &a[kv.first] == &a.at(kv.first) && &a[kv.first] == &ca.at(kv.first), "accessors disagree"); }
    for (size_t i : {cap, cap + 1, cap + 511, cap * 2 + 5, size_t(-1)}) {
        if (i < cap) continue;
        bool t = false; try { (void)a.at(i); } catch (const std::out_of_range &) { t = true; } check(t, cat("at(", i, ") does not throw, capacity ", cap));
        t = false; try { (void)ca.at(i); } catch (const std::out_of_range &) { t = true; } check(t, cat("const at(", i, ") does not throw, capacity ", cap));
    }
}
template <class A, size_t BS> void run(const char *nm, int rounds) {
    for (int r = 0; r < rounds; ++r) {
        size_t c0 = below(5 * BS + 2);
        begin(cat(nm, " BS=", BS, " initial=", c0, " state=", state()));
        A a(c0); std::map<size_t, uint64_t> ref;
        size_t cap = (c0 + BS - 1) / BS * BS;
        int moved = 0; std::unique_ptr<A> alt;
        for (int k = 0; k < 60; ++k) {
            A &x = alt ? *alt : a;
            if (cap && below(4)) { size_t i = below(3) ? below(cap) : cap - 1 - below(std::min<size_t>(cap, 3)); uint64_t v = rnd(); if (below(2)) x[i] = v; else x.at(i) = v; ref[i] = v; }
            else if (below(3)) { size_t c = below(12 * BS + 2); x.reserve(c); cap = std::max(cap, (c + BS - 1) / BS * BS); }
            else if (!moved && below(2)) { alt = std::make_unique<A>(std::move(a)); moved = 1; }
        }
        cells(alt ? *alt : a, cap, ref);
        // every cell below the capacity is usable and distinct
        A &x = alt ? *alt : a;
        for (size_t i = 0; i < cap; ++i) x[i] = i * 3 + 1;
        for (size_t i = 0; i < cap; ++i) check(x.at(i) == i * 3 + 1, cat("cells of two indices coincide at ", i));
    }
}
int main(int c, char **v) {
    init(c, v, "random histories of construction, growth, move, element and checked writes for block sizes 1, 2, 7, 64, 512; afterwards all cells below and indices at and beyond the capacity");
    VF_GUARD_BEGIN
    int R = thorough() ? 3000 : 200;
    run<BlockedArray<uint64_t, 1>, 1>("BlockedArray", R); run<BlockedArray<uint64_t, 2>, 2>("BlockedArray", R); run<BlockedArray<uint64_t, 7>, 7>("BlockedArray", R); run<BlockedArray<uint64_t, 64>, 64>("BlockedArray", R); run<BlockedArray<uint64_t>, 512>("BlockedArray", R);
    run<Concurrent_BlockedArray<uint64_t, 1>, 1>("Concurrent_BlockedArray", R); run<Concurrent_BlockedArray<uint64_t, 2>, 2>("Concurrent_BlockedArray", R); run<Concurrent_BlockedArray<uint64_t, 7>, 7>("Concurrent_BlockedArray", R); run<Concurrent_BlockedArray<uint64_t>, 512>("Concurrent_BlockedArray", R);
    VF_GUARD_END
    return done();
}
