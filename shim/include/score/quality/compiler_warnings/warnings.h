#ifndef VERIF_SHIM_WARNINGS_H
#define VERIF_SHIM_WARNINGS_H
#define DISABLE_WARNING_PUSH _Pragma("GCC diagnostic push")
#define DISABLE_WARNING_POP _Pragma("GCC diagnostic pop")
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
#define DISABLE_WARNING_UNUSED_PARAMETER
#define DISABLE_WARNING_MISSING_NORETURN
#endif
