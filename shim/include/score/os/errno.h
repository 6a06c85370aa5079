#ifndef VERIF_SHIM_ERRNO_H
#define VERIF_SHIM_ERRNO_H
#include "score/expected.hpp"
#include "score/os/verif_os.h"
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
namespace score
{
namespace os
{
class Error
{
  public:
    enum class Code : std::int32_t
    {
        kUnexpected = -1,
        kOperationNotPermitted = EPERM,
        kNoSuchFileOrDirectory = ENOENT,
        kOperationWasInterruptedBySignal = EINTR,
        kInputOutput = EIO,
        kBadFileDescriptor = EBADF,
        kResourceTemporarilyUnavailable = EAGAIN,
        kNotEnoughSpace = ENOMEM,
        kPermissionDenied = EACCES,
        kDeviceOrResourceBusy = EBUSY,
        kObjectExists = EEXIST,
        kInvalidArgument = EINVAL,
        kNoSpaceLeft = ENOSPC,
        kWouldBlock = EWOULDBLOCK,
        kProtocolNotSupported = EPROTONOSUPPORT,
    };
    static Error createFromErrno() noexcept { return Error{errno}; }
    static Error createFromErrno(std::int32_t e) noexcept { return Error{e}; }
    static Error createFromErrnoFlockSpecific(std::int32_t e) noexcept { return Error{e}; }
    static Error createUnspecifiedError() noexcept { return Error{-1}; }
    std::string ToString() const noexcept { return std::string{std::strerror(e_)}; }
    std::int32_t GetOsDependentErrorCode() const noexcept { return e_; }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.e_ == b.e_; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return a.e_ != b.e_; }
    friend bool operator==(const Error& a, const Code c) noexcept { return a.e_ == static_cast<std::int32_t>(c); }
    friend bool operator!=(const Error& a, const Code c) noexcept { return !(a == c); }
    friend bool operator==(const Code c, const Error& a) noexcept { return a == c; }
    friend bool operator!=(const Code c, const Error& a) noexcept { return !(a == c); }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.ToString(); }

  private:
    explicit Error(std::int32_t e) noexcept : e_(e) {}
    std::int32_t e_;
};
inline score::cpp::unexpected<Error> MakeFakeError(const std::int32_t e)
{
    return score::cpp::make_unexpected(Error::createFromErrno(e));
}
#define VERIF_SHIM_FAULT_(op, arg)                                                \
    do                                                                            \
    {                                                                             \
        const int verif_e_ = ::verif_shim::OsControl::Get().Fail(op, arg);        \
        if (verif_e_ != 0)                                                        \
        {                                                                         \
            return score::cpp::make_unexpected(Error::createFromErrno(verif_e_)); \
        }                                                                         \
    } while (false)
template <typename R, typename V>
score::cpp::expected<R, Error> VerifResult(const V v)
{
    if (v == static_cast<V>(-1))
    {
        return score::cpp::make_unexpected(Error::createFromErrno());
    }
    return static_cast<R>(v);
}
inline score::cpp::expected_blank<Error> VerifBlank(const long v)
{
    if (v == -1)
    {
        return score::cpp::make_unexpected(Error::createFromErrno());
    }
    return score::cpp::blank{};
}
}  // namespace os
}  // namespace score
#endif
