#ifndef VERIF_SHIM_ATOMIC_INDIRECTOR_H
#define VERIF_SHIM_ATOMIC_INDIRECTOR_H
#include <atomic>
#include <functional>
namespace verif_shim
{
enum class AtomicOp
{
    kLoad,
    kStore,
    kExchange,
    kCas,
    kFetchAdd,
    kFetchSub,
    kPlain,
};
/// Scheduling hook: runs before every atomic operation that goes through the indirector. Returning true from a CAS makes
/// it fail spuriously (as compare_exchange_weak may).
struct AtomicHook
{
    using Fn = bool (*)(AtomicOp, const void* address);
    static inline Fn fn{nullptr};
    static bool Run(AtomicOp op, const void* a) { return fn != nullptr && fn(op, a); }
};
}  // namespace verif_shim
namespace score
{
namespace concurrency
{
template <typename T>
class AtomicIndirectorReal
{
  public:
    [[gnu::always_inline]] static inline T fetch_add(std::atomic<T>& a, const T v, const std::memory_order o) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kFetchAdd, &a);
        return a.fetch_add(v, o);
    }
    [[gnu::always_inline]] static inline T fetch_sub(std::atomic<T>& a, const T v, const std::memory_order o) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kFetchSub, &a);
        return a.fetch_sub(v, o);
    }
    [[gnu::always_inline]] static inline T load(const std::atomic<T>& a, const std::memory_order o) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kLoad, &a);
        return a.load(o);
    }
    [[gnu::always_inline]] static inline void store(std::atomic<T>& a, const T v, const std::memory_order o) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kStore, &a);
        a.store(v, o);
    }
    [[gnu::always_inline]] static inline T exchange(std::atomic<T>& a, const T v, const std::memory_order o) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kExchange, &a);
        return a.exchange(v, o);
    }
    [[gnu::always_inline]] static inline bool compare_exchange_weak(std::atomic<T>& a, T& e, const T d, const std::memory_order o) noexcept
    {
        if (::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kCas, &a))
        {
            e = a.load();
            return false;
        }
        return a.compare_exchange_weak(e, d, o);
    }
    [[gnu::always_inline]] static inline bool compare_exchange_weak(std::atomic<T>& a, T& e, const T d, const std::memory_order s, const std::memory_order f) noexcept
    {
        if (::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kCas, &a))
        {
            e = a.load();
            return false;
        }
        return a.compare_exchange_weak(e, d, s, f);
    }
    [[gnu::always_inline]] static inline bool compare_exchange_strong(std::atomic<T>& a, T& e, const T d, const std::memory_order o) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kCas, &a);
        return a.compare_exchange_strong(e, d, o);
    }
    [[gnu::always_inline]] static inline bool compare_exchange_strong(std::atomic<T>& a, T& e, const T d, const std::memory_order s, const std::memory_order f) noexcept
    {
        ::verif_shim::AtomicHook::Run(::verif_shim::AtomicOp::kCas, &a);
        return a.compare_exchange_strong(e, d, s, f);
    }
};
template <typename T>
class AtomicIndirectorMock : public AtomicIndirectorReal<T>
{
};
}  // namespace concurrency
}  // namespace score
#endif
