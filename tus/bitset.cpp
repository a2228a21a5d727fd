#include <cstdint>
#include <climits>
#include <sstream>
#include <iostream>
#include "datastructures/Bit_Set.hxx"
template void Bit_Set::merge<Bit_Set>(Bit_Set &&);
template void Bit_Set::copy<Bit_Set>(const Bit_Set &);
template void Bit_Set::filter<Bit_Set>(const Bit_Set &);
template void Bit_Set::mergeFilter<Bit_Set, Bit_Set>(Bit_Set &&, const Bit_Set &);
