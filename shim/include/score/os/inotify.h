#ifndef VERIF_SHIM_INOTIFY_H
#define VERIF_SHIM_INOTIFY_H
#include "score/os/errno.h"
#include "score/os/verif_enum.h"
#include <sys/inotify.h>
namespace score
{
namespace os
{
class Inotify
{
  public:
    enum class EventMask : std::uint32_t
    {
        kUnknown = 0,
        kAccess = IN_ACCESS,
        kInCreate = IN_CREATE,
        kInDelete = IN_DELETE,
        kInMovedTo = IN_MOVED_TO,
    };
};
VERIF_SHIM_BITMASK_(Inotify::EventMask)
}  // namespace os
}  // namespace score
#endif
