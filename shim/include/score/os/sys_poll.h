#ifndef VERIF_SHIM_SYS_POLL_H
#define VERIF_SHIM_SYS_POLL_H
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include <poll.h>
namespace score
{
namespace os
{
namespace internal
{
class SysPollImpl;
}
class SysPoll : public ObjectSeam<SysPoll, internal::SysPollImpl>
{
  public:
    virtual ~SysPoll() = default;
    static score::cpp::pmr::unique_ptr<SysPoll> Default(score::cpp::pmr::memory_resource* mr) noexcept;
    virtual score::cpp::expected<std::int32_t, Error> poll(struct pollfd* f, nfds_t n, std::int32_t t) const noexcept = 0;
};
namespace internal
{
class SysPollImpl : public SysPoll
{
  public:
    score::cpp::expected<std::int32_t, Error> poll(struct pollfd* f, nfds_t n, std::int32_t t) const noexcept override
    {
        return VerifResult<std::int32_t>(::poll(f, n, t));
    }
};
}  // namespace internal
inline score::cpp::pmr::unique_ptr<SysPoll> SysPoll::Default(score::cpp::pmr::memory_resource* mr) noexcept
{
    return score::cpp::pmr::make_unique<internal::SysPollImpl>(mr);
}
}  // namespace os
}  // namespace score
#endif
