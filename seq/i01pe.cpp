#include "seq/i01params.h"
namespace i01 { void params_e() {
    PARAM(X const *const &); PARAM(X *&&); PARAM(X const *&&); PARAM(Other *&); PARAM(Other *const &); PARAM(Other const *&&); PARAM(int *&); PARAM(int *const &); PARAM(int const *const &); PARAM(int const *&);
} }
