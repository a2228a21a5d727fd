#include <sstream>
#include <string>
#include "utils/CSV.h"
#define INST(...) template std::string CSV::csv(__VA_ARGS__);
INST()
INST(const std::string &)
INST(const std::string &, const std::string &)
INST(const std::string &, const std::string &, const std::string &)
INST(const std::string &, const std::string &, const std::string &, const std::string &)
INST(const long double &, const std::string &)
INST(const int &, const double &, const std::string &, const unsigned long &, const char &, const bool &)
INST(const std::string &, const std::string &, const std::string &, const std::string &, const unsigned &, const unsigned long &, const std::string &, const long double &, const std::string &)
