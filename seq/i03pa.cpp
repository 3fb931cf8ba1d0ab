#include "seq/i03params.h"
namespace i01 { void params_a() {
    PARAM(int); PARAM(int &); PARAM(int const &); PARAM(int &&); PARAM(std::string); PARAM(std::string &); PARAM(std::string const &); PARAM(std::string &&); PARAM(E);
} }
