#include "seq/t02.h"
namespace t02 {
Table const &intArrays() { return table(refs<cat<L0<int>, L1<int>, L2<int>, arrays<L0<int>>, arrays<L1<int>>, arrays<L2<int>>>>{}); }
}
