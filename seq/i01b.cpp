#include "seq/i01args.h"
namespace i01 { void args_b() {
    Give<X, T_X>::reg("X");
    Give<D, T_D>::reg("D");
    Give<Y, T_Y>::reg("Y");
    Give<M, T_M>::reg("move-only");
} }
