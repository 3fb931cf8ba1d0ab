#include "seq/t02.h"
namespace t02 {
Table const &int3() { return table(refs<cat<L0<int>, L1<int>, L2<int>, L3<int>>>{}); }
Table const &classes() { return table(refs<cat<L0<Rec>, L1<Rec>, L2<Rec>, arrays<L0<Rec>>>>{}); }
}
