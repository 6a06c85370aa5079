#ifndef VERIF_SHIM_FSW_FILESYSTEM_STRUCT_H
#define VERIF_SHIM_FSW_FILESYSTEM_STRUCT_H
#include "score/filesystem/verif_fs.h"
#endif
