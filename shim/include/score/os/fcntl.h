#ifndef VERIF_SHIM_FCNTL_H
#define VERIF_SHIM_FCNTL_H
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/stat.h"
#include "score/os/verif_enum.h"
#include <fcntl.h>
#include <sys/file.h>
namespace score
{
namespace os
{
namespace internal
{
class FcntlImpl;
}
class Fcntl : public ObjectSeam<Fcntl, internal::FcntlImpl>
{
  public:
    enum class Open : std::uint32_t
    {
        kUnset = 0,
        kReadOnly = 1,
        kWriteOnly = 2,
        kReadWrite = 4,
        kCreate = 8,
        kExclusive = 16,
        kCloseOnExec = 32,
        kNonBlocking = 64,
        kTruncate = 128,
        kDirectory = 256,
        kAppend = 512,
        kSynchronized = 1024,
    };
    enum class Operation : std::uint32_t
    {
        kUnset = 0,
        kLockShared = LOCK_SH,
        kLockExclusive = LOCK_EX,
        kLockNB = LOCK_NB,
        kUnLock = LOCK_UN,
    };
    virtual ~Fcntl() = default;
    virtual score::cpp::expected<std::int32_t, Error> open(const char* p, Open f) const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> open(const char* p, Open f, Stat::Mode m) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> flock(std::int32_t fd, Operation op) const noexcept = 0;
};
VERIF_SHIM_BITMASK_(Fcntl::Open)
VERIF_SHIM_BITMASK_(Fcntl::Operation)
inline int VerifOpenFlags(const Fcntl::Open f)
{
    const auto u = static_cast<std::uint32_t>(f);
    int r = 0;
    if ((u & 4U) != 0U)
    {
        r |= O_RDWR;
    }
    else if ((u & 2U) != 0U)
    {
        r |= O_WRONLY;
    }
    r |= (u & 8U) != 0U ? O_CREAT : 0;
    r |= (u & 16U) != 0U ? O_EXCL : 0;
    r |= (u & 32U) != 0U ? O_CLOEXEC : 0;
    r |= (u & 64U) != 0U ? O_NONBLOCK : 0;
    r |= (u & 128U) != 0U ? O_TRUNC : 0;
    r |= (u & 256U) != 0U ? O_DIRECTORY : 0;
    r |= (u & 512U) != 0U ? O_APPEND : 0;
    return r;
}
namespace internal
{
class FcntlImpl : public Fcntl
{
  public:
    score::cpp::expected<std::int32_t, Error> open(const char* p, Open f) const noexcept override
    {
        VERIF_SHIM_FAULT_("open", p);
        return VerifResult<std::int32_t>(::open(::verif_shim::OsControl::Get().Map(p).c_str(), VerifOpenFlags(f)));
    }
    score::cpp::expected<std::int32_t, Error> open(const char* p, Open f, Stat::Mode m) const noexcept override
    {
        VERIF_SHIM_FAULT_("open", p);
        return VerifResult<std::int32_t>(
            ::open(::verif_shim::OsControl::Get().Map(p).c_str(), VerifOpenFlags(f), ModeToInteger(m)));
    }
    score::cpp::expected_blank<Error> flock(std::int32_t fd, Operation op) const noexcept override
    {
        VERIF_SHIM_FAULT_("flock", std::to_string(fd));
        return VerifBlank(::flock(fd, static_cast<int>(op)));
    }
};
}  // namespace internal
}  // namespace os
}  // namespace score
#endif
