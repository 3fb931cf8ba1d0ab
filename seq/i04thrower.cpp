#include "seq/i04.h"
namespace i04 {
void throwerSetup() { static bool done = false; if (!done) { done = true; define<Thrower>("thrower"); } }
void thrower() { exceptions<Thrower>("thrower"); }
}
