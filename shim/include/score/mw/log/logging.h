#ifndef VERIF_SHIM_LOGGING_H
#define VERIF_SHIM_LOGGING_H
#include "score/mw/log/log_stream.h"
namespace score
{
namespace mw
{
namespace log
{
#define VERIF_SHIM_LOGF_(N)                                             \
    inline LogStream N() noexcept { return LogStream{#N, ""}; } \
    inline LogStream N(const std::string_view ctx) noexcept { return LogStream{#N, ctx}; }
VERIF_SHIM_LOGF_(LogFatal)
VERIF_SHIM_LOGF_(LogError)
VERIF_SHIM_LOGF_(LogWarn)
VERIF_SHIM_LOGF_(LogInfo)
VERIF_SHIM_LOGF_(LogDebug)
VERIF_SHIM_LOGF_(LogVerbose)
#undef VERIF_SHIM_LOGF_
}  // namespace log
}  // namespace mw
}  // namespace score
#endif
