#ifndef VERIF_SHIM_INOTIFY_WATCH_DESCRIPTOR_H
#define VERIF_SHIM_INOTIFY_WATCH_DESCRIPTOR_H
#include <cstdint>
#include <functional>
namespace score
{
namespace os
{
class InotifyWatchDescriptor
{
  public:
    constexpr explicit InotifyWatchDescriptor(const std::int32_t w) noexcept : w_(w) {}
    constexpr std::int32_t GetUnderlying() const noexcept { return w_; }
    friend constexpr bool operator==(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ == b.w_; }
    friend constexpr bool operator!=(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ != b.w_; }
    friend constexpr bool operator<(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ < b.w_; }

  private:
    std::int32_t w_;
};
}  // namespace os
}  // namespace score
namespace std
{
template <>
struct hash<score::os::InotifyWatchDescriptor>
{
    size_t operator()(const score::os::InotifyWatchDescriptor& d) const noexcept { return hash<std::int32_t>{}(d.GetUnderlying()); }
};
}  // namespace std
#endif
