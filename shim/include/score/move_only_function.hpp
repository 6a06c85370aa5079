#ifndef VERIF_SHIM_MOVE_ONLY_FUNCTION_HPP
#define VERIF_SHIM_MOVE_ONLY_FUNCTION_HPP
#include "score/assert.hpp"
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
namespace detail_mof
{
template <typename R, typename... A>
class base
{
    struct Base
    {
        virtual ~Base() = default;
        virtual R call(A... a) = 0;
    };
    template <typename F>
    struct Impl final : Base
    {
        template <typename G>
        explicit Impl(G&& g) : f(std::forward<G>(g))
        {
        }
        R call(A... a) override
        {
            if constexpr (std::is_void_v<R>)
            {
                std::invoke(f, std::forward<A>(a)...);
            }
            else
            {
                return std::invoke(f, std::forward<A>(a)...);
            }
        }
        F f;
    };

  public:
    base() noexcept = default;
    base(std::nullptr_t) noexcept {}
    base(base&&) noexcept = default;
    base& operator=(base&&) noexcept = default;
    template <typename F,
              typename D = std::decay_t<F>,
              typename = std::enable_if_t<!std::is_base_of_v<base, D> && std::is_invocable_r_v<R, D&, A...>>>
    base(F&& f) : p_(std::make_unique<Impl<D>>(std::forward<F>(f)))
    {
    }
    R operator()(A... a) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(p_ != nullptr, "call of an empty function");
        return p_->call(std::forward<A>(a)...);
    }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    bool empty() const noexcept { return p_ == nullptr; }
    friend bool operator==(const base& c, std::nullptr_t) noexcept { return c.p_ == nullptr; }
    friend bool operator!=(const base& c, std::nullptr_t) noexcept { return c.p_ != nullptr; }

  private:
    std::unique_ptr<Base> p_;
};
}  // namespace detail_mof
template <typename Sig, std::size_t Capacity = 32U>
class move_only_function;
#define VERIF_SHIM_MOF_(QUAL)                                                                        \
    template <typename R, typename... A, std::size_t C>                                              \
    class move_only_function<R(A...) QUAL, C> : public detail_mof::base<R, A...>                     \
    {                                                                                                \
      public:                                                                                        \
        using detail_mof::base<R, A...>::base;                                                       \
        move_only_function() noexcept = default;                                                     \
        move_only_function(move_only_function&&) noexcept = default;                                 \
        move_only_function& operator=(move_only_function&&) noexcept = default;                      \
    };
VERIF_SHIM_MOF_()
VERIF_SHIM_MOF_(const)
VERIF_SHIM_MOF_(noexcept)
VERIF_SHIM_MOF_(const noexcept)
#undef VERIF_SHIM_MOF_
}  // namespace cpp
}  // namespace score
#endif
