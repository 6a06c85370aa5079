#ifndef VERIF_SHIM_CONC_TASK_RESULT
#define VERIF_SHIM_CONC_TASK_RESULT
#include "score/concurrency/executor.h"
#endif
