#include "seq/i04.h"
namespace i04 {
void bigSetup() { static bool done = false; if (!done) { done = true; define<Big>("big"); } }
void big() { exceptions<Big>("big"); }
}
