#include "seq/i01m.h"
namespace i01 { void several_b() { row<2>(); row<3>(); } }
