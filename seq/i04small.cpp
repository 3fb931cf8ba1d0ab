#include "seq/i04.h"
namespace i04 {
void smallSetup() { static bool done = false; if (!done) { done = true; define<Small>("small"); } }
void small() { exceptions<Small>("small"); }
}
