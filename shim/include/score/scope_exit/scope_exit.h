#ifndef VERIF_SHIM_SCOPE_EXIT_H
#define VERIF_SHIM_SCOPE_EXIT_H
#include "score/callback.hpp"
#include <optional>
#include <utility>
namespace score
{
namespace utils
{
/// Runs the stored operation once, on destruction, unless it was moved from or released.
template <typename Callable = score::cpp::callback<void()>>
class ScopeExit
{
  public:
    ScopeExit() noexcept = default;
    explicit ScopeExit(Callable c) : c_(std::move(c)) {}
    template <typename F,
              typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, ScopeExit> && !std::is_same_v<std::decay_t<F>, Callable> &&
                                          std::is_constructible_v<Callable, F>>>
    explicit ScopeExit(F&& f) : c_(std::in_place, std::forward<F>(f))
    {
    }
    ScopeExit(const ScopeExit&) = delete;
    ScopeExit& operator=(const ScopeExit&) = delete;
    ScopeExit(ScopeExit&& o) noexcept : c_(std::move(o.c_)) { o.c_.reset(); }
    ScopeExit& operator=(ScopeExit&& o) noexcept
    {
        if (this != &o)
        {
            run();
            if (o.c_.has_value())
            {
                c_.emplace(std::move(*o.c_));
            }
            o.c_.reset();
        }
        return *this;
    }
    ~ScopeExit() { run(); }
    void Release() noexcept { c_.reset(); }

  private:
    void run()
    {
        if (c_.has_value())
        {
            std::optional<Callable> c{std::move(c_)};
            c_.reset();
            (*c)();
        }
    }
    std::optional<Callable> c_;
};
template <typename F>
ScopeExit(F) -> ScopeExit<F>;
template <typename Callable = score::cpp::callback<void()>>
using MovableScopedOperation = ScopeExit<Callable>;
}  // namespace utils
}  // namespace score
#endif
