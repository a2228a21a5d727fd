#include <climits>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
#include <tbb/enumerable_thread_specific.h>
#include "Geometry.h"
#include "Partitioner.h"
#include "load_balancing/BoxUtils.h"
#include "load_balancing/GridIntersectionChecker.h"
template class AABBTree<2, double>;
template class AABBTree<3, double>;
template struct TreeNode<2, double>;
template struct TreeNode<3, double>;
