// included first in the extracted translation units: library templates are
// instantiated in the unit, so that the verifier executes the real ones
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
