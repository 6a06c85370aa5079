#ifndef VERIF_SHIM_CONC_THREAD_POOL
#define VERIF_SHIM_CONC_THREAD_POOL
#include "score/concurrency/executor.h"
#endif
