#ifndef VERIF_SHIM_CALLBACK_HPP
#define VERIF_SHIM_CALLBACK_HPP
#include "score/assert.hpp"
#include "score/move_only_function.hpp"
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
using callback_size_type = std::size_t;
template <typename Sig, std::size_t Capacity = 32U, std::size_t Alignment = alignof(std::max_align_t)>
class callback;
template <typename R, typename... A, std::size_t C, std::size_t Al>
class callback<R(A...), C, Al>
{
    struct Base
    {
        virtual ~Base() = default;
        virtual R call(A... a) = 0;
    };
    template <typename F>
    struct Impl final : Base
    {
        template <typename G>
        explicit Impl(G&& g) : f(std::forward<G>(g))
        {
        }
        R call(A... a) override
        {
            if constexpr (std::is_void_v<R>)
            {
                std::invoke(f, std::forward<A>(a)...);
            }
            else
            {
                return std::invoke(f, std::forward<A>(a)...);
            }
        }
        F f;
    };

  public:
    using result_type = R;
    using alignment_t = std::integral_constant<std::size_t, Al>;
    callback() noexcept = default;
    callback(std::nullptr_t) noexcept {}
    callback(callback&& o) noexcept : p_(std::move(o.p_)) {}
    callback& operator=(callback&& o) noexcept
    {
        p_ = std::move(o.p_);
        return *this;
    }
    callback& operator=(std::nullptr_t) noexcept
    {
        p_.reset();
        return *this;
    }
    callback(const callback&) = delete;
    callback& operator=(const callback&) = delete;
    ~callback() = default;
    template <typename F,
              typename D = std::decay_t<F>,
              typename = std::enable_if_t<!std::is_same_v<D, callback> && std::is_invocable_r_v<R, D&, A...>>>
    callback(F&& f)
    {
        // a capacity is a compile time limit of the real type; it does not change behaviour, so it is not enforced here
        p_ = std::make_unique<Impl<D>>(std::forward<F>(f));
    }
    R operator()(A... a) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(p_ != nullptr, "call of an empty callback");
        return p_->call(std::forward<A>(a)...);
    }
    bool empty() const noexcept { return p_ == nullptr; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    friend bool operator==(const callback& c, std::nullptr_t) noexcept { return c.empty(); }
    friend bool operator!=(const callback& c, std::nullptr_t) noexcept { return !c.empty(); }

  private:
    std::unique_ptr<Base> p_;
};
}  // namespace cpp
}  // namespace score
#endif
