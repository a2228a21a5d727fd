#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "load_balancing/VectorOperations.h"
#include "load_balancing/BoxUtils.h"
#include "utils/Generator.h"
#include "load_balancing/UnboundBubbleGenerator.h"
#define INST(D) template class PointGenerator<D, double>; template class UniformPointGenerator<D, double>; template class NormalPointGenerator<D, double>; template class BubblePointGenerator<D, double>; \
 template class EllipsoidPointGenerator<D, double>; template class SkewLinePointGenerator<D, double>; template class LoadBalancing::UnboundBubbleGenerator<D, double>; template class GeneratorFactory<D, double>;
INST(2)
INST(3)
