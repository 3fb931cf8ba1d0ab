#include "seq/i01params.h"
namespace i01 { void params_c() {
    PARAM(D &&); PARAM(Other); PARAM(Other &); PARAM(Other const &); PARAM(Other &&); PARAM(M); PARAM(M &); PARAM(M const &); PARAM(M &&); PARAM(X *);
} }
