#include "seq/i04.h"
namespace i04 {
void moveSetup() { static bool done = false; if (!done) { done = true; define<MoveBig>("move"); } }
void move() { exceptions<MoveBig>("move"); }
}
