#ifndef VERIF_SHIM_ACL_H
#define VERIF_SHIM_ACL_H
#include "score/os/errno.h"
#include <cstdint>
namespace score
{
namespace os
{
class Acl
{
  public:
    enum class Permission : std::int32_t
    {
        kRead = 4,
        kWrite = 2,
        kExecute = 1,
    };
    using FileDescriptor = std::int32_t;
};
}  // namespace os
}  // namespace score
#endif
