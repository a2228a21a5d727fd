#include "lib/SpatialSort.cpp"
