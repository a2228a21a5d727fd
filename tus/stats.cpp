#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include "Geometry.h"
#include "Partitioner.h"
// statistics over all points, and over a set of identifiers; the identifier iterators used by the callers
#define INST(D) \
 template struct dPointStats<D, double>; template class dPoints<D, double>; \
 template dPointStats<D, double> getPointStats<D, double, dPoints<D, double>>(const dPoints<D, double> &, const dPoints<D, double> &, const bool); \
 template dPointStats<D, double> getPointStats<D, double, Point_Ids>(const Point_Ids &, const dPoints<D, double> &, const bool); \
 template dPointStats<D, double> getPointStatsSeq<D, double, std::size_t>(const std::size_t &, const std::size_t &, const dPoints<D, double> &, const bool); \
 template dPointStats<D, double> getPointStatsSeq<D, double, Point_Ids::const_iterator>(const Point_Ids::const_iterator &, const Point_Ids::const_iterator &, const dPoints<D, double> &, const bool);
INST(2)
INST(3)
template class _detail::range_type<const Point_Ids, Point_Ids::const_iterator>;
