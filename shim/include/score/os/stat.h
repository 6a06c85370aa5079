#ifndef VERIF_SHIM_STAT_H
#define VERIF_SHIM_STAT_H
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/verif_enum.h"
#include <sys/stat.h>
#include <sys/types.h>
namespace score
{
namespace os
{
struct StatBuffer
{
    std::int64_t st_dev{};
    std::int64_t st_ino{};
    std::int64_t st_mode{};
    std::int64_t st_nlink{};
    std::int64_t st_uid{};
    std::int64_t st_gid{};
    std::int64_t st_size{};
    std::int64_t mtime{};
};
namespace internal
{
class StatImpl;
}
class Stat : public ObjectSeam<Stat, internal::StatImpl>
{
  public:
    enum class Mode : std::uint32_t
    {
        kNone = 0,
        kReadUser = S_IRUSR,
        kWriteUser = S_IWUSR,
        kExecUser = S_IXUSR,
        kReadWriteExecUser = S_IRWXU,
        kReadGroup = S_IRGRP,
        kWriteGroup = S_IWGRP,
        kExecGroup = S_IXGRP,
        kReadWriteExecGroup = S_IRWXG,
        kReadOthers = S_IROTH,
        kWriteOthers = S_IWOTH,
        kExecOthers = S_IXOTH,
        kReadWriteExecOthers = S_IRWXO,
    };
    virtual ~Stat() = default;
    virtual score::cpp::expected_blank<Error> stat(const char* f, StatBuffer& b, bool follow = true) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> fstat(std::int32_t fd, StatBuffer& b) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> mkdir(const char* p, Mode m) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> chmod(const char* p, Mode m) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> fchmod(std::int32_t fd, Mode m) const noexcept = 0;
};
VERIF_SHIM_BITMASK_(Stat::Mode)
inline mode_t ModeToInteger(const Stat::Mode m) noexcept { return static_cast<mode_t>(m); }
inline Stat::Mode IntegerToMode(const mode_t m) noexcept { return static_cast<Stat::Mode>(m & 0777U); }
namespace internal
{
class StatImpl : public Stat
{
    static void Copy(const struct ::stat& s, StatBuffer& b)
    {
        b.st_dev = static_cast<std::int64_t>(s.st_dev);
        b.st_ino = static_cast<std::int64_t>(s.st_ino);
        b.st_mode = s.st_mode;
        b.st_nlink = static_cast<std::int64_t>(s.st_nlink);
        b.st_uid = s.st_uid;
        b.st_gid = s.st_gid;
        b.st_size = s.st_size;
        b.mtime = s.st_mtime;
    }

  public:
    score::cpp::expected_blank<Error> stat(const char* f, StatBuffer& b, bool follow = true) const noexcept override
    {
        VERIF_SHIM_FAULT_("stat", f);
        struct ::stat s
        {
        };
        const auto p = ::verif_shim::OsControl::Get().Map(f);
        const int r = follow ? ::stat(p.c_str(), &s) : ::lstat(p.c_str(), &s);
        if (r == 0)
        {
            Copy(s, b);
        }
        return VerifBlank(r);
    }
    score::cpp::expected_blank<Error> fstat(std::int32_t fd, StatBuffer& b) const noexcept override
    {
        VERIF_SHIM_FAULT_("fstat", std::to_string(fd));
        struct ::stat s
        {
        };
        const int r = ::fstat(fd, &s);
        if (r == 0)
        {
            Copy(s, b);
        }
        return VerifBlank(r);
    }
    score::cpp::expected_blank<Error> mkdir(const char* p, Mode m) const noexcept override
    {
        VERIF_SHIM_FAULT_("mkdir", p);
        return VerifBlank(::mkdir(::verif_shim::OsControl::Get().Map(p).c_str(), ModeToInteger(m)));
    }
    score::cpp::expected_blank<Error> chmod(const char* p, Mode m) const noexcept override
    {
        VERIF_SHIM_FAULT_("chmod", p);
        return VerifBlank(::chmod(::verif_shim::OsControl::Get().Map(p).c_str(), ModeToInteger(m)));
    }
    score::cpp::expected_blank<Error> fchmod(std::int32_t fd, Mode m) const noexcept override
    {
        VERIF_SHIM_FAULT_("fchmod", std::to_string(fd));
        return VerifBlank(::fchmod(fd, ModeToInteger(m)));
    }
};
}  // namespace internal
}  // namespace os
}  // namespace score
#endif
