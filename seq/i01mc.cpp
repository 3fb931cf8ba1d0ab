#include "seq/i01m.h"
namespace i01 { void several_c() { row<4>(); row<5>(); } }
