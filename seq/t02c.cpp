#include "seq/t02.h"
namespace t02 {
Table const &others(int i)
{
    switch (i) {
    case 0: return table(refs<cat<L0<std::string>, L1<std::string>, arrays<L0<std::string>>>>{});
    case 1: return table(refs<cat<L1<void>, L2<void>>>{});
    case 2: return table(refs<cat<List<void (*)(int), void (*const)(int)>, typename Point<List<void (*)(int), void (*const)(int)>>::type>>{});
    case 3: return table(refs<List<int[2][3], int const[2][3], int[4][3], int const[4][3], int (*)[3], int const (*)[3], int (*const)[3], int const (*const)[3]>>{});
    case 4: return table(refs<deep<5>>{});
    default: return table(refs<cat<deep<4>, deep<12>>>{});
    }
}
}
