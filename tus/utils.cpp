#include <sstream>
#include <string>
#include <vector>
#include <cstdint>
#include "utils/StaticSort.h"
#include "utils/Misc.h"
#include "utils/StringUtils.h"
struct VfItem { std::uint64_t key; std::uint64_t tag; bool operator<(const VfItem &o) const { return key < o.key; } bool operator>(const VfItem &o) const { return key > o.key; } bool operator<=(const VfItem &o) const { return key <= o.key; } bool operator>=(const VfItem &o) const { return key >= o.key; } bool operator==(const VfItem &o) const { return key == o.key; } bool operator!=(const VfItem &o) const { return key != o.key; } };
struct VfData { std::uint64_t tag; };
template void static_insertion_sort<VfItem, 5>(std::array<VfItem, 5> &);
template void static_insertion_sort_with_data<VfItem, VfData, 5>(std::array<VfItem, 5> &, std::array<VfData, 5> &);
#define INST(T) template T isPow2<T>(const T); template T isPowN<T>(const T, const T); template T nextPow2<T>(const T); template T log2<T>(const T); template T logN<T>(const T, const T); template T popcount<T>(const T);
INST(std::uint8_t)
INST(std::uint16_t)
INST(std::uint32_t)
INST(std::uint64_t)
template std::vector<std::string> &split<std::vector<std::string>>(std::vector<std::string> &, const std::string &, char, split::empties_t);
