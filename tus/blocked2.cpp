#include <cstdint>
#include <string>
#include <stdexcept>
#include <climits>
#include <random>
#include <sstream>
#include <iostream>
#include "Geometry.h"
template class BlockedArray2<std::uint64_t, std::uint64_t>;
template class _detail::Block<std::uint64_t, std::uint64_t>;
template struct _detail::block_iterator<BlockedArray2<std::uint64_t, std::uint64_t>, std::uint64_t>;
template struct _detail::block_iterator<const BlockedArray2<std::uint64_t, std::uint64_t>, std::uint64_t>;
template class dSimplices<2, double>;
template class BlockedArray2Handle<dSimplices<2, double>, tIdType>;
template class BlockedArray2Handle<const dSimplices<2, double>, tIdType>;
template struct _detail::filtered_block_iterator<dSimplices<2, double>, dSimplex<2, double>>;
template struct _detail::filtered_block_iterator<const dSimplices<2, double>, dSimplex<2, double>>;
