#include "seq/i01params.h"
namespace i01 { void params_d() {
    PARAM(X const *); PARAM(D *); PARAM(D const *); PARAM(Other *); PARAM(Other const *); PARAM(int *); PARAM(int const *); PARAM(X *&); PARAM(X const *&); PARAM(X *const &);
} }
