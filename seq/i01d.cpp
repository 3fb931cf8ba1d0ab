#include "seq/i01args.h"
namespace i01 { void args_d() {
    Give<X*, T_XD>::reg("pointer to X of D");
    Give<X*, T_NULLX>::reg("null pointer to X");
    Give<D*, T_NULLD>::reg("null pointer to D");
    Give<int*, T_IP>::reg("pointer to int");
    Give<int const*, T_CIP>::reg("pointer to const int");
} }
