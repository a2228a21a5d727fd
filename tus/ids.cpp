#include "Geometry.h"
#include "utils/IndexHandler.h"
#include "utils/MakeIds.h"
template Point_Ids makePointIds<2, double>(const dPoints<2, double> &);
template Point_Ids makePointIds<3, double>(const dPoints<3, double> &);
void use(_detail::IndexHandler &a, _detail::Concurrent_IndexHandler &b) { a.getId(); a.releaseId(1); a.maxId(); a.disable(); b.getId(); b.releaseId(1); b.maxId(); b.disable(); }
