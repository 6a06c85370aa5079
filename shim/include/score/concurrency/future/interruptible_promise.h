#ifndef VERIF_SHIM_INTERRUPTIBLE_PROMISE_H
#define VERIF_SHIM_INTERRUPTIBLE_PROMISE_H
#include "score/concurrency/future/interruptible_future.h"
#endif
