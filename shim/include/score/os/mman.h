#ifndef VERIF_SHIM_MMAN_H
#define VERIF_SHIM_MMAN_H
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
#include <sys/mman.h>
#include <unistd.h>
namespace score
{
namespace os
{
namespace internal
{
class MmanImpl;
}
class Mman : public ObjectSeam<Mman, internal::MmanImpl>
{
  public:
    enum class Protection : std::uint32_t
    {
        kNone = PROT_NONE,
        kRead = PROT_READ,
        kWrite = PROT_WRITE,
        kExec = PROT_EXEC,
    };
    enum class Map : std::uint32_t
    {
        kShared = MAP_SHARED,
        kPrivate = MAP_PRIVATE,
        kFixed = MAP_FIXED,
    };
    virtual ~Mman() = default;
    virtual score::cpp::expected<void*, Error> mmap(void* a, std::size_t l, Protection p, Map f, std::int32_t fd, std::int64_t off) const
        noexcept = 0;
    virtual score::cpp::expected_blank<Error> munmap(void* a, std::size_t l) const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> shm_open(const char* p, Fcntl::Open f, Stat::Mode m) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> shm_unlink(const char* p) const noexcept = 0;
};
VERIF_SHIM_BITMASK_(Mman::Protection)
VERIF_SHIM_BITMASK_(Mman::Map)
namespace internal
{
class MmanImpl : public Mman
{
    static std::string ShmPath(const char* p)
    {
        std::string s{p};
        return ::verif_shim::OsControl::Get().Map((!s.empty() && s[0] == '/') ? "/dev/shm" + s : "/dev/shm/" + s);
    }

  public:
    score::cpp::expected<void*, Error> mmap(void* a, std::size_t l, Protection p, Map f, std::int32_t fd, std::int64_t off) const
        noexcept override
    {
        VERIF_SHIM_FAULT_("mmap", std::to_string(fd));
        void* const r = ::mmap(a, l, static_cast<int>(p), static_cast<int>(f), fd, off);
        if (r == MAP_FAILED)
        {
            return score::cpp::make_unexpected(Error::createFromErrno());
        }
        return r;
    }
    score::cpp::expected_blank<Error> munmap(void* a, std::size_t l) const noexcept override
    {
        VERIF_SHIM_FAULT_("munmap", "");
        return VerifBlank(::munmap(a, l));
    }
    score::cpp::expected<std::int32_t, Error> shm_open(const char* p, Fcntl::Open f, Stat::Mode m) const noexcept override
    {
        VERIF_SHIM_FAULT_("shm_open", p);
        return VerifResult<std::int32_t>(::open(ShmPath(p).c_str(), VerifOpenFlags(f) | O_CLOEXEC | O_NOFOLLOW, ModeToInteger(m)));
    }
    score::cpp::expected_blank<Error> shm_unlink(const char* p) const noexcept override
    {
        VERIF_SHIM_FAULT_("shm_unlink", p);
        return VerifBlank(::unlink(ShmPath(p).c_str()));
    }
};
}  // namespace internal
}  // namespace os
}  // namespace score
#endif
