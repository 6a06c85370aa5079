#ifndef VERIF_SHIM_LOG_RUNTIME_H
#define VERIF_SHIM_LOG_RUNTIME_H
namespace score
{
namespace mw
{
namespace log
{
inline int GetDefaultLogRecorder() { return 0; }
inline int GetFallbackLogRecorder() { return 0; }
}  // namespace log
}  // namespace mw
}  // namespace score
#endif
