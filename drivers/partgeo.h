#pragma once
#include "exactgeo.h"
#include "Partitioner.h"
// printing (only used in log messages) needs a header that is not installed here
template <uint D, typename P> std::ostream &operator<<(std::ostream &o, const dPointStats<D, P> &) { return o << "stats"; }
template <std::size_t D, typename P> std::ostream &operator<<(std::ostream &o, const std::array<P, D> &) { return o << "vector"; }
#define VF_PRINTS(D, P) template std::ostream &operator<<(std::ostream &, const dPointStats<D, P> &); template std::ostream &operator<<(std::ostream &, const std::array<P, D> &);
VF_PRINTS(2, float) VF_PRINTS(3, float) VF_PRINTS(2, double) VF_PRINTS(3, double)
