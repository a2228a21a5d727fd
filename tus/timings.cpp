#include "utils/Timings.cpp"
template void ExperimentRun::addTrait<unsigned long>(const std::string &, const unsigned long &);
template void ExperimentRun::addTrait<double>(const std::string &, const double &);
template void ExperimentRun::updateTrait<unsigned long>(const std::string &, const unsigned long &);
inline void use(ExperimentRun &r) { (void)r.measurements("a"); (void)r.counter("a"); }
