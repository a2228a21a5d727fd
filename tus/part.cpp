#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include "lib/Partitioner.cpp"
#define INST(D) \
 template class Partition<D, double>; template class Partitioning<D, double>; template class dPoints<D, double>; template class Partitioner<D, double>;
INST(2)
INST(3)
