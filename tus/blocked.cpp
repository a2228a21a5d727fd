#include <cstdint>
#include <string>
#include <stdexcept>
#include "datastructures/BlockedArray.hxx"
template class BlockedArray<std::uint64_t, 512>;
template class BlockedArray<std::uint64_t, 1>;
template class BlockedArray<std::uint64_t, 7>;
template class Concurrent_BlockedArray<std::uint64_t, 512>;
template class Concurrent_BlockedArray<std::uint64_t, 1>;
template class Concurrent_BlockedArray<std::uint64_t, 7>;
