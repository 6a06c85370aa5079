#ifndef VERIF_SHIM_FSW_DETAILS_STANDARD_FILESYSTEM_H
#define VERIF_SHIM_FSW_DETAILS_STANDARD_FILESYSTEM_H
#include "score/filesystem/verif_fs.h"
#endif
