#ifndef VERIF_SHIM_COPYABLE_SCOPED_FUNCTION_H
#define VERIF_SHIM_COPYABLE_SCOPED_FUNCTION_H
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#endif
