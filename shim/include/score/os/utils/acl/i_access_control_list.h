#ifndef VERIF_SHIM_I_ACCESS_CONTROL_LIST_H
#define VERIF_SHIM_I_ACCESS_CONTROL_LIST_H
#include "score/os/acl.h"
#include "score/os/errno.h"
#include <sys/types.h>
#include <vector>
namespace score
{
namespace os
{
class IAccessControlList
{
  public:
    using UserIdentifier = uid_t;
    virtual ~IAccessControlList() = default;
    virtual score::cpp::expected_blank<Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> AllowUser(const UserIdentifier, const Acl::Permission) noexcept = 0;
    virtual score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission) const noexcept = 0;
};
}  // namespace os
}  // namespace score
#endif
