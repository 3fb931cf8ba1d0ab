#include "seq/i01args.h"
namespace i01 { void args_a() {
    Give<int, T_INT>::reg("int");
    Give<std::string, T_STRING>::reg("string");
    Give<double, T_DOUBLE>::reg("double");
    Give<E, T_E>::reg("enum");
} }
