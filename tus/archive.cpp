#include <cstdint>
#include <string>
#include <stdexcept>
#include <climits>
#include <random>
#include <sstream>
#include <iostream>
#include "Geometry.h"
#include "Partitioner.h"
#include "utils/Serialization.hxx"
// archives: only their interface; the verifier models what is written and read
struct OutArchive { template <class T> OutArchive &operator<<(const T &); template <class T> OutArchive &operator&(const T &); };
struct InArchive { template <class T> InArchive &operator>>(T &&); template <class T> InArchive &operator&(T &&); };
typedef std::uint64_t U;
template void _detail::Block<U, U>::save<OutArchive>(OutArchive &, const unsigned int) const;
template void _detail::Block<U, U>::load<InArchive>(InArchive &, const unsigned int);
template void BlockedArray2<U, U>::save<OutArchive>(OutArchive &, const unsigned int) const;
template void BlockedArray2<U, U>::load<InArchive>(InArchive &, const unsigned int);
#define EACH(T) template void boost::serialization::serialize<OutArchive>(OutArchive &, T &, const unsigned int); template void boost::serialization::serialize<InArchive>(InArchive &, T &, const unsigned int);
#define DIM(D) \
    template void VectorAdapter2<dPoint<D, double>>::serialize<OutArchive>(OutArchive &, const unsigned int); \
    template void VectorAdapter2<dPoint<D, double>>::serialize<InArchive>(InArchive &, const unsigned int); \
    template void dSimplices<D, double>::serialize<OutArchive>(OutArchive &, const unsigned int); \
    template void dSimplices<D, double>::serialize<InArchive>(InArchive &, const unsigned int); \
    typedef dPoint<D, double> P##D; typedef dPoints<D, double> Ps##D; typedef dSimplex<D, double> S##D; typedef dBox<D, double> B##D; typedef dSphere<D, double> O##D; typedef dPointStats<D, double> T##D; \
    EACH(P##D) EACH(Ps##D) EACH(S##D) EACH(B##D) EACH(O##D) EACH(T##D)
DIM(2) DIM(3)
