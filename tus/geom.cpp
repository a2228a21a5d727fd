#include <cstdint>
#include <string>
#include <sstream>
#include <stdexcept>
#include "Geometry.h"
#define INST(D, P) \
 template struct dBox<D, P>; template class dPoint<D, P>; template class dSimplex<D, P>; template class VectorAdapter2<dPoint<D, P>>; template class dPoints<D, P>; \
 template bool dSimplex<D, P>::containsAll(const Id_Vector &) const; template bool dSimplex<D, P>::containsAny(const Id_Vector &) const;
template void VectorAdapter2<dPoint<2, double>>::emplace_back(const dPoint<2, double> &); template void VectorAdapter2<dPoint<3, double>>::emplace_back(const dPoint<3, double> &);
INST(2, double)
INST(3, double)
