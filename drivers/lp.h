#pragma once
#include "common.h"
#include <climits>
#include <map>
#include <random>
#include <sstream>
#include <iostream>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
extern "C" { size_t getPeakRSS() { return 0; } size_t getCurrentRSS() { return 0; } }
using namespace vf;
typedef uint64_t K;
inline Hasher<K> hasher() { // any multiplier, with those that cluster preferred
    Hasher<K> h; switch (below(7)) { case 0: h.a = 0; break; case 1: h.a = 1; break; case 2: h.a = ~K(0); break; case 3: h.a = K(1) << below(64); break; case 4: h.a = below(64); break; default: h.a = rnd(); } return h;
}
inline K key(int range) { switch (below(8)) { case 0: return ~K(0) - below(4); case 1: return K(1) << below(64); case 2: return 16 * (1 + below(8)); default: return 1 + below(range); } }
