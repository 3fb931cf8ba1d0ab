#include "seq/i01m.h"
namespace i01 { void several_d() { row<6>();  } }
