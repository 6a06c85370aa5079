#ifndef VERIF_SHIM_SIGNAL_IMPL_H
#define VERIF_SHIM_SIGNAL_IMPL_H
#include "score/os/errno.h"
#include <pthread.h>
#include <signal.h>
namespace score
{
namespace os
{
class Signal
{
  public:
    virtual ~Signal() = default;
    virtual score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t& s) const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t& s) const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t how, const sigset_t& s) const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t how, const sigset_t& s, sigset_t& o) const noexcept = 0;
};
class SignalImpl : public Signal
{
  public:
    score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t& s) const noexcept override { return ::sigemptyset(&s); }
    score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t& s) const noexcept override { return ::sigaddset(&s, SIGTERM); }
    score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t how, const sigset_t& s) const noexcept override
    {
        return ::pthread_sigmask(how, &s, nullptr);
    }
    score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t how, const sigset_t& s, sigset_t& o) const noexcept override
    {
        return ::pthread_sigmask(how, &s, &o);
    }
};
}  // namespace os
}  // namespace score
#endif
