#include <cstdint>
#include <climits>
#include <random>
#include <sstream>
#include <iostream>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
template class LP_Set<std::uint64_t, true>;
template class LP_Set<std::uint64_t, false>;
#define SETI(G) \
template void LP_Set<std::uint64_t, G>::merge(LP_Set<std::uint64_t, G> &&); \
template void LP_Set<std::uint64_t, G>::rehash(std::size_t, const LP_Set<std::uint64_t, true> &, const bool); \
template void LP_Set<std::uint64_t, G>::filter(const LP_Set<std::uint64_t, true> &); \
template void LP_Set<std::uint64_t, G>::merge(LP_Set<std::uint64_t, G> &&, const LP_Set<std::uint64_t, true> &, const bool); \
template bool LP_Set<std::uint64_t, G>::operator==(const LP_Set<std::uint64_t, true> &) const; \
template LP_Set<std::uint64_t, G>::LP_Set(LP_Set<std::uint64_t, G> &&); \
template LP_Set<std::uint64_t, G> &LP_Set<std::uint64_t, G>::operator=(LP_Set<std::uint64_t, G> &&);
SETI(true)
SETI(false)
template class LP_Map<std::uint64_t, std::uint64_t>;
template void LP_Map<std::uint64_t, std::uint64_t>::rehash(std::size_t, const LP_Set<std::uint64_t, true> &);
template void LP_Map<std::uint64_t, std::uint64_t>::merge(LP_Map<std::uint64_t, std::uint64_t> &&, const LP_Set<std::uint64_t, true> &);
template class LP_MultiMap<std::uint64_t, std::uint64_t>;
template void LP_MultiMap<std::uint64_t, std::uint64_t>::rehash(std::size_t, const LP_Set<std::uint64_t, true> &);
template void LP_MultiMap<std::uint64_t, std::uint64_t>::merge(LP_MultiMap<std::uint64_t, std::uint64_t> &&, const LP_Set<std::uint64_t, true> &);
template struct _detail::iterator<const LP_Set<std::uint64_t, true>, std::uint64_t>;
template struct _detail::iterator<const LP_Set<std::uint64_t, false>, std::uint64_t>;
template struct _detail::iterator<const LP_Map<std::uint64_t, std::uint64_t>, std::pair<const std::uint64_t, std::uint64_t>>;
template struct _detail::iterator<const LP_MultiMap<std::uint64_t, std::uint64_t>, std::pair<const std::uint64_t, std::uint64_t>>;
using FI = _detail::filtered_iterator<const LP_MultiMap<std::uint64_t, std::uint64_t>, std::uint64_t, std::uint64_t>;
template FI::filtered_iterator(const LP_MultiMap<std::uint64_t, std::uint64_t> &, std::size_t, std::size_t, const std::uint64_t &);
template FI::filtered_iterator(const FI &);
template FI &FI::operator++();
template bool FI::operator==(const FI &) const;
template bool FI::operator!=(const FI &) const;
template auto FI::operator*() const;
template class _detail::range_type<const LP_Set<std::uint64_t, true>, LP_Set<std::uint64_t, true>::const_iterator>;
