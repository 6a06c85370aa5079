#ifndef VERIF_SHIM_INOTIFY_EVENT_H
#define VERIF_SHIM_INOTIFY_EVENT_H
#include "score/os/inotify.h"
#include "score/os/utils/inotify/inotify_watch_descriptor.h"
#include <string>
#include <string_view>
#include <utility>
namespace score
{
namespace os
{
class InotifyEvent
{
  public:
    enum class ReadMask : std::uint32_t
    {
        kUnknown = 0,
        kInAccess = IN_ACCESS,
        kInCreate = IN_CREATE,
        kInDelete = IN_DELETE,
        kInMovedTo = IN_MOVED_TO,
        kInIgnored = IN_IGNORED,
        kInIsDir = IN_ISDIR,
        kInQOverflow = IN_Q_OVERFLOW,
    };
    InotifyEvent(InotifyWatchDescriptor w, ReadMask m, std::uint32_t cookie, std::string name)
        : w_(w), m_(m), c_(cookie), n_(std::move(name))
    {
    }
    InotifyWatchDescriptor GetWatchDescriptor() const noexcept { return w_; }
    ReadMask GetMask() const noexcept { return m_; }
    std::uint32_t GetCookie() const noexcept { return c_; }
    std::string_view GetName() const noexcept { return n_; }

  private:
    InotifyWatchDescriptor w_;
    ReadMask m_;
    std::uint32_t c_;
    std::string n_;
};
VERIF_SHIM_BITMASK_(InotifyEvent::ReadMask)
}  // namespace os
}  // namespace score
#endif
