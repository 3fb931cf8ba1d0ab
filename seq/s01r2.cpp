// S01: a registration block per file, see s01.cpp
#include <rtti/metadefine.h>
extern int registrations[3];
RTTI_REGISTER { ++registrations[2]; }
