#include "macros.h"
#undef HAVE_ATTR_VECTOR_SIZE
