#include "seq/i01params.h"
namespace i01 { void params_b() {
    PARAM(E &); PARAM(E const &); PARAM(E &&); PARAM(X); PARAM(X &); PARAM(X const &); PARAM(X &&); PARAM(D); PARAM(D &); PARAM(D const &);
} }
