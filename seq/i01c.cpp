#include "seq/i01args.h"
namespace i01 { void args_c() {
    Give<X*, T_XP>::reg("pointer to X");
    Give<X const*, T_CXP>::reg("pointer to const X");
    Give<D*, T_DP>::reg("pointer to D");
    Give<D const*, T_CDP>::reg("pointer to const D");
} }
