#ifndef VERIF_SHIM_ERRNO_LOGGING_H
#define VERIF_SHIM_ERRNO_LOGGING_H
#include "score/os/errno.h"
#include "score/mw/log/logging.h"
#endif
