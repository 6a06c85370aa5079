#ifndef VERIF_SHIM_FS_ERROR_H
#define VERIF_SHIM_FS_ERROR_H
#include "score/result/result.h"
namespace score
{
namespace filesystem
{
enum class ErrorCode : score::result::ErrorCode
{
    kNotImplemented = 1,
    kCouldNotCreateDirectory,
    kCouldNotOpenFileStream,
    kCouldNotRemoveFileOrDirectory,
    kCouldNotRetrieveStatus,
    kFileOrDirectoryDoesNotExist,
    kCouldNotSetPermissions,
    kCouldNotAllocate,
};
class ErrorDomainImpl final : public result::ErrorDomain
{
  public:
    std::string_view MessageFor(const result::ErrorCode&) const noexcept override { return "filesystem error"; }
};
inline result::Error MakeError(const ErrorCode c, const std::string_view m = "")
{
    static const ErrorDomainImpl d{};
    return {static_cast<result::ErrorCode>(c), d, m};
}
}  // namespace filesystem
}  // namespace score
#endif
