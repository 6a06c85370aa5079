#ifndef VERIF_SHIM_CONC_SIMPLE_TASK
#define VERIF_SHIM_CONC_SIMPLE_TASK
#include "score/concurrency/executor.h"
#endif
