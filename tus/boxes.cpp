#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "load_balancing/BoxUtils.h"
#include "load_balancing/Grid.h"
namespace LoadBalancing {
#define INST(D) \
 template std::tuple<dBox<D, double>, dBox<D, double>> splitBox<D, double>(const dBox<D, double> &, uint, double); \
 template void enlargeBoxAroundVector<D, double>(dBox<D, double> &, const dVector<D, double> &); \
 template dBox<D, double> makeBoundingBox<std::vector<dVector<D, double>>::iterator>(std::vector<dVector<D, double>>::iterator, std::vector<dVector<D, double>>::iterator); \
 template dVector<D, double> vecToBox<D, double>(const dVector<D, double> &, const dBox<D, double> &); \
 template dVector<D, double> vecToBoxBoundary<D, double>(const dVector<D, double> &, const dBox<D, double> &); \
 template dIndex<D, int64_t> Grid<D, double>::indexAt(const dVector<D, double> &) const; \
 template dVector<D, double> Grid<D, double>::centerOf(const dIndex<D, int64_t> &) const; \
 template dBox<D, double> Grid<D, double>::boundsOf(const dIndex<D, int64_t> &) const; \
 template double Grid<D, double>::cellWidth() const; template double Grid<D, double>::diagonalCellLength() const; template Grid<D, double>::Grid(double); \
 template bool intersectsWith<D, double, int64_t>(const Grid<D, double> &, const dSphere<D, double> &, const dIndex<D, int64_t> &);
INST(2)
INST(3)
}
