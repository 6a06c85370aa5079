#ifndef VERIF_SHIM_CONC_LONG_RUNNING_THREADS_CONTAINER
#define VERIF_SHIM_CONC_LONG_RUNNING_THREADS_CONTAINER
#include "score/concurrency/executor.h"
#endif
