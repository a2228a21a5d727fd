#include "utils/Logger.cpp"
template void Logger::logContainer<std::vector<unsigned long>>(const std::vector<unsigned long> &, Verbosity, const std::string &, const std::string &);
inline void use(Logger &l) { l.setIndent(l.getIndent()); l.incIndent(); l.decIndent(); l.setLogLevel(l.getLogLevel()); }
