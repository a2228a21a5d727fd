#include <string>
#include <sstream>
#include <vector>
#include "lib/Geometry.cpp"
// the collection-generic members of the simplex, for a plain vector of points
#define INST(D) \
    typedef std::vector<dPoint<D, double>> PV##D; \
    template double dSimplex<D, double>::orientation(const PV##D &) const; \
    template bool dSimplex<D, double>::inSimplex(const dPoint<D, double> &, const PV##D &) const; \
    template bool dSimplex<D, double>::inSphere(const dPoint<D, double> &, const PV##D &) const; \
    template double dSimplex<D, double>::sqDistanceToFace(const uint, const dPoint<D, double> &, const PV##D &) const; \
    template dSphere<D, double> dSimplex<D, double>::circumsphere(const PV##D &) const;
INST(2)
INST(3)
