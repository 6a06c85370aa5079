#ifndef VERIF_SHIM_FILE_STATUS_H
#define VERIF_SHIM_FILE_STATUS_H
#include "score/os/stat.h"
namespace score
{
namespace filesystem
{
enum class FileType : std::int32_t
{
    kNone,
    kNotFound,
    kRegular,
    kDirectory,
    kSymlink,
    kUnknown,
};
using Perms = score::os::Stat::Mode;
enum class PermOptions
{
    kReplace,
    kAdd,
    kRemove,
};
class FileStatus
{
  public:
    FileStatus(FileType t, Perms p) : t_(t), p_(p) {}
    explicit FileStatus(FileType t) : t_(t), p_(Perms::kNone) {}
    FileType Type() const noexcept { return t_; }
    Perms Permissions() const noexcept { return p_; }

  private:
    FileType t_;
    Perms p_;
};
}  // namespace filesystem
}  // namespace score
#endif
