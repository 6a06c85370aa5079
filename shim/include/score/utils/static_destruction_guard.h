#ifndef VERIF_SHIM_STATIC_DESTRUCTION_GUARD_H
#define VERIF_SHIM_STATIC_DESTRUCTION_GUARD_H
#include <atomic>
#include <new>
#include <type_traits>
namespace score
{
namespace utils
{
/// Nifty counter: the object lives from the first guard's construction to the last guard's destruction.
template <typename T>
class StaticDestructionGuard
{
  public:
    StaticDestructionGuard() noexcept
    {
        if (counter_++ == 0)
        {
            ::new (static_cast<void*>(&storage_)) T{};
        }
    }
    ~StaticDestructionGuard() noexcept
    {
        if (--counter_ == 0)
        {
            GetStorage().~T();
        }
    }
    StaticDestructionGuard(const StaticDestructionGuard&) = delete;
    StaticDestructionGuard& operator=(const StaticDestructionGuard&) = delete;
    static T& GetStorage() noexcept { return reinterpret_cast<T&>(storage_); }

  private:
    static inline std::aligned_storage_t<16384, 64> storage_{};
    static inline std::atomic<int> counter_{0};
};
}  // namespace utils
}  // namespace score
#endif
