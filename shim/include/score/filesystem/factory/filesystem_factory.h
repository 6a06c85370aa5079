#ifndef VERIF_SHIM_FSW_FACTORY_FILESYSTEM_FACTORY_H
#define VERIF_SHIM_FSW_FACTORY_FILESYSTEM_FACTORY_H
#include "score/filesystem/verif_fs.h"
#endif
