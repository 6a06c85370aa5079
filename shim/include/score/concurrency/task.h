#ifndef VERIF_SHIM_CONC_TASK
#define VERIF_SHIM_CONC_TASK
#include "score/concurrency/executor.h"
#endif
