#ifndef VERIF_SHIM_UNISTD_H
#define VERIF_SHIM_UNISTD_H
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include <fcntl.h>
#include <pwd.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <memory>
namespace score
{
namespace os
{
namespace internal
{
class UnistdImpl;
}
class Unistd : public ObjectSeam<Unistd, internal::UnistdImpl>
{
  public:
    virtual ~Unistd() = default;
    static std::unique_ptr<Unistd> Default() noexcept;
    static score::cpp::pmr::unique_ptr<Unistd> Default(score::cpp::pmr::memory_resource* mr) noexcept;
    virtual score::cpp::expected_blank<Error> close(const std::int32_t fd) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> unlink(const char* path) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> access(const char* path, int mode) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> pipe(std::int32_t fds[2]) const noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> read(int fd, void* b, std::size_t n) const noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> write(int fd, const void* b, std::size_t n) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> ftruncate(int fd, off_t n) const noexcept = 0;
    virtual pid_t getpid() const noexcept = 0;
    virtual uid_t getuid() const noexcept = 0;
    virtual uid_t geteuid() const noexcept = 0;
    virtual gid_t getgid() const noexcept = 0;
    virtual pid_t getppid() const noexcept = 0;
    virtual std::int64_t gettid() const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> getpwnam_r(const char* n, struct passwd* p, char* b, std::size_t bl, struct passwd** r) const
        noexcept = 0;
};
namespace internal
{
class UnistdImpl : public Unistd
{
  public:
    score::cpp::expected_blank<Error> close(const std::int32_t fd) const noexcept override
    {
        VERIF_SHIM_FAULT_("close", std::to_string(fd));
        return VerifBlank(::close(fd));
    }
    score::cpp::expected_blank<Error> unlink(const char* path) const noexcept override
    {
        VERIF_SHIM_FAULT_("unlink", path);
        return VerifBlank(::unlink(::verif_shim::OsControl::Get().Map(path).c_str()));
    }
    score::cpp::expected_blank<Error> access(const char* path, int mode) const noexcept override
    {
        return VerifBlank(::access(::verif_shim::OsControl::Get().Map(path).c_str(), mode));
    }
    score::cpp::expected_blank<Error> pipe(std::int32_t fds[2]) const noexcept override { return VerifBlank(::pipe(fds)); }
    score::cpp::expected<ssize_t, Error> read(int fd, void* b, std::size_t n) const noexcept override
    {
        return VerifResult<ssize_t>(::read(fd, b, n));
    }
    score::cpp::expected<ssize_t, Error> write(int fd, const void* b, std::size_t n) const noexcept override
    {
        return VerifResult<ssize_t>(::write(fd, b, n));
    }
    score::cpp::expected_blank<Error> ftruncate(int fd, off_t n) const noexcept override
    {
        VERIF_SHIM_FAULT_("ftruncate", std::to_string(fd));
        return VerifBlank(::ftruncate(fd, n));
    }
    pid_t getpid() const noexcept override
    {
        const int p = ::verif_shim::OsControl::Get().pid;
        return p != 0 ? p : ::getpid();
    }
    uid_t getuid() const noexcept override
    {
        const long u = ::verif_shim::OsControl::Get().uid;
        return u >= 0 ? static_cast<uid_t>(u) : ::getuid();
    }
    uid_t geteuid() const noexcept override { return getuid(); }
    gid_t getgid() const noexcept override { return ::getgid(); }
    pid_t getppid() const noexcept override { return ::getppid(); }
    std::int64_t gettid() const noexcept override { return static_cast<std::int64_t>(::syscall(SYS_gettid)); }
    score::cpp::expected<std::int32_t, Error> getpwnam_r(const char* n, struct passwd* p, char* b, std::size_t bl, struct passwd** r) const
        noexcept override
    {
        const int e = ::getpwnam_r(n, p, b, bl, r);
        if (e != 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno(e));
        }
        return 0;
    }
};
}  // namespace internal
inline std::unique_ptr<Unistd> Unistd::Default() noexcept { return std::make_unique<internal::UnistdImpl>(); }
inline score::cpp::pmr::unique_ptr<Unistd> Unistd::Default(score::cpp::pmr::memory_resource* mr) noexcept
{
    return score::cpp::pmr::make_unique<internal::UnistdImpl>(mr);
}
}  // namespace os
}  // namespace score
#endif
