#ifndef VERIF_SHIM_MOVE_ONLY_SCOPED_FUNCTION_H
#define VERIF_SHIM_MOVE_ONLY_SCOPED_FUNCTION_H
#include "score/assert.hpp"
#include "score/blank.hpp"
#include "score/language/safecpp/scoped_function/scope.h"
#include <functional>
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
namespace score
{
namespace safecpp
{
namespace detail_scope
{
template <typename R>
using Opt = std::optional<std::conditional_t<
    std::is_void_v<R>,
    score::cpp::blank,
    std::conditional_t<std::is_reference_v<R>, std::reference_wrapper<std::remove_reference_t<R>>, R>>>;
template <typename R, typename... A>
struct Fn
{
    virtual ~Fn() = default;
    virtual R call(A... a) = 0;
};
template <typename F, typename R, typename... A>
struct FnImpl final : Fn<R, A...>
{
    template <typename G>
    explicit FnImpl(G&& g) : f(std::forward<G>(g))
    {
    }
    R call(A... a) override
    {
        if constexpr (std::is_void_v<R>)
        {
            std::invoke(f, std::forward<A>(a)...);
        }
        else
        {
            return std::invoke(f, std::forward<A>(a)...);
        }
    }
    F f;
};
template <template <typename> class Ptr, typename R, typename... A>
class Base
{
  public:
    Base() noexcept = default;
    Base(std::nullptr_t) noexcept {}
    template <typename... S, typename F>
    Base(const Scope<S...>& scope, F&& f) : s_(scope.VerifState()), p_(new FnImpl<std::decay_t<F>, R, A...>(std::forward<F>(f)))
    {
    }
    Opt<R> operator()(A... a) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(p_ != nullptr, "call of an empty scoped function");
        const Running running{s_};
        if (!running)
        {
            return {};
        }
        if constexpr (std::is_void_v<R>)
        {
            p_->call(std::forward<A>(a)...);
            return Opt<R>{score::cpp::blank{}};
        }
        else
        {
            return Opt<R>{p_->call(std::forward<A>(a)...)};
        }
    }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    friend bool operator==(const Base& b, std::nullptr_t) noexcept { return b.p_ == nullptr; }
    friend bool operator!=(const Base& b, std::nullptr_t) noexcept { return b.p_ != nullptr; }

  protected:
    std::shared_ptr<State> s_;
    Ptr<Fn<R, A...>> p_;
};
template <typename T>
using UPtr = std::unique_ptr<T>;
template <typename T>
using SPtr = std::shared_ptr<T>;
}  // namespace detail_scope
template <typename Sig>
class MoveOnlyScopedFunction;
template <typename Sig>
class CopyableScopedFunction;
#define VERIF_SHIM_SF_(Q)                                                                            \
    template <typename R, typename... A>                                                             \
    class MoveOnlyScopedFunction<R(A...) Q> : public detail_scope::Base<detail_scope::UPtr, R, A...> \
    {                                                                                                \
      public:                                                                                        \
        using detail_scope::Base<detail_scope::UPtr, R, A...>::Base;                                 \
    };                                                                                               \
    template <typename R, typename... A>                                                             \
    class CopyableScopedFunction<R(A...) Q> : public detail_scope::Base<detail_scope::SPtr, R, A...> \
    {                                                                                                \
      public:                                                                                        \
        using detail_scope::Base<detail_scope::SPtr, R, A...>::Base;                                 \
    };
VERIF_SHIM_SF_()
VERIF_SHIM_SF_(const)
VERIF_SHIM_SF_(noexcept)
VERIF_SHIM_SF_(const noexcept)
#undef VERIF_SHIM_SF_
}  // namespace safecpp
}  // namespace score
#endif
