#include "seq/i01m.h"
namespace i01 { void several_a() { row<0>(); row<1>(); } }
