#ifndef VERIF_SHIM_EXPECTED_HPP
#define VERIF_SHIM_EXPECTED_HPP
#include "score/assert.hpp"
#include "score/blank.hpp"
#include "score/utility.hpp"
#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>
#include <variant>
namespace score
{
namespace cpp
{
template <typename E>
class unexpected
{
  public:
    template <typename Err = E,
              typename = std::enable_if_t<std::is_constructible_v<E, Err> && !std::is_same_v<std::decay_t<Err>, unexpected> &&
                                          !std::is_same_v<std::decay_t<Err>, std::in_place_t>>>
    constexpr explicit unexpected(Err&& e) : e_(std::forward<Err>(e))
    {
    }
    template <typename... Args, typename = std::enable_if_t<std::is_constructible_v<E, Args...>>>
    constexpr explicit unexpected(std::in_place_t, Args&&... args) : e_(std::forward<Args>(args)...)
    {
    }
    constexpr const E& error() const& noexcept { return e_; }
    constexpr E& error() & noexcept { return e_; }
    constexpr E&& error() && noexcept { return std::move(e_); }
    constexpr const E& value() const& noexcept { return e_; }
    constexpr E& value() & noexcept { return e_; }
    constexpr E&& value() && noexcept { return std::move(e_); }
    friend bool operator==(const unexpected& a, const unexpected& b) { return a.e_ == b.e_; }
    friend bool operator!=(const unexpected& a, const unexpected& b) { return !(a.e_ == b.e_); }

  private:
    E e_;
};
template <typename E>
unexpected(E) -> unexpected<E>;
template <typename E>
constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e)
{
    return unexpected<std::decay_t<E>>(std::forward<E>(e));
}
template <typename E, typename... Args>
constexpr unexpected<E> make_unexpected(Args&&... args)
{
    return unexpected<E>(E{std::forward<Args>(args)...});
}
struct unexpect_t
{
    explicit unexpect_t() = default;
};
inline constexpr unexpect_t unexpect{};

namespace detail_expected
{
template <typename T>
struct is_unexpected : std::false_type
{
};
template <typename E>
struct is_unexpected<unexpected<E>> : std::true_type
{
};
}  // namespace detail_expected

template <typename T, typename E>
class expected;
namespace detail_expected
{
template <typename T>
struct is_expected : std::false_type
{
};
template <typename T, typename E>
struct is_expected<expected<T, E>> : std::true_type
{
};
template <typename T>
using wrapped = std::conditional_t<std::is_void_v<T>, blank, std::conditional_t<std::is_reference_v<T>, std::reference_wrapper<std::remove_reference_t<T>>, T>>;
}  // namespace detail_expected

template <typename T, typename E>
class expected
{
    using Storage = std::variant<T, unexpected<E>>;

  public:
    using value_type = T;
    using error_type = E;
    using unexpected_type = unexpected<E>;
    template <typename U>
    using rebind = expected<U, E>;

    template <typename U = T, typename = std::enable_if_t<std::is_default_constructible_v<U>>>
    constexpr expected() : s_(std::in_place_index<0>)
    {
    }
    template <typename U = T,
              typename = std::enable_if_t<std::is_constructible_v<T, U> && !std::is_same_v<std::decay_t<U>, expected> &&
                                          !std::is_same_v<std::decay_t<U>, std::in_place_t> &&
                                          !detail_expected::is_unexpected<std::decay_t<U>>::value &&
                                          std::is_convertible_v<U, T>>>
    constexpr expected(U&& u) : s_(std::in_place_index<0>, std::forward<U>(u))
    {
    }
    template <typename U = T,
              typename = std::enable_if_t<std::is_constructible_v<T, U> && !std::is_same_v<std::decay_t<U>, expected> &&
                                          !std::is_same_v<std::decay_t<U>, std::in_place_t> &&
                                          !detail_expected::is_unexpected<std::decay_t<U>>::value &&
                                          !std::is_convertible_v<U, T>>,
              typename = void>
    explicit constexpr expected(U&& u) : s_(std::in_place_index<0>, std::forward<U>(u))
    {
    }
    template <typename G, typename = std::enable_if_t<std::is_constructible_v<E, const G&>>>
    constexpr expected(const unexpected<G>& u) : s_(std::in_place_index<1>, u.error())
    {
    }
    template <typename G, typename = std::enable_if_t<std::is_constructible_v<E, G&&>>>
    constexpr expected(unexpected<G>&& u) : s_(std::in_place_index<1>, std::move(u).error())
    {
    }
    template <typename U,
              typename G,
              typename = std::enable_if_t<!std::is_same_v<expected<U, G>, expected> && std::is_constructible_v<T, U&&> &&
                                          std::is_constructible_v<E, G&&> && !std::is_constructible_v<T, expected<U, G>>>>
    constexpr expected(expected<U, G>&& o)
        : s_(o.has_value() ? Storage(std::in_place_index<0>, std::move(o).value())
                           : Storage(std::in_place_index<1>, std::move(o).error()))
    {
    }
    template <typename... A, typename = std::enable_if_t<std::is_constructible_v<T, A...>>>
    explicit constexpr expected(std::in_place_t, A&&... a) : s_(std::in_place_index<0>, std::forward<A>(a)...)
    {
    }
    template <typename... A>
    explicit constexpr expected(unexpect_t, A&&... a) : s_(std::in_place_index<1>, E(std::forward<A>(a)...))
    {
    }
    expected(const expected&) = default;
    expected(expected&&) = default;
    expected& operator=(const expected&) = default;
    expected& operator=(expected&&) = default;

    constexpr bool has_value() const noexcept { return s_.index() == 0U; }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr T& value() &
    {
        check();
        return *std::get_if<0>(&s_);
    }
    constexpr const T& value() const&
    {
        check();
        return *std::get_if<0>(&s_);
    }
    constexpr T&& value() &&
    {
        check();
        return std::move(*std::get_if<0>(&s_));
    }
    constexpr T& operator*() & { return value(); }
    constexpr const T& operator*() const& { return value(); }
    constexpr T&& operator*() && { return std::move(*this).value(); }
    constexpr T* operator->() { return &value(); }
    constexpr const T* operator->() const { return &value(); }
    constexpr const E& error() const&
    {
        echeck();
        return std::get_if<1>(&s_)->error();
    }
    constexpr E& error() &
    {
        echeck();
        return std::get_if<1>(&s_)->error();
    }
    constexpr E&& error() &&
    {
        echeck();
        return std::move(std::get_if<1>(&s_)->error());
    }
    template <typename U>
    constexpr T value_or(U&& u) const&
    {
        return has_value() ? value() : static_cast<T>(std::forward<U>(u));
    }
    template <typename U>
    constexpr T value_or(U&& u) &&
    {
        return has_value() ? std::move(*this).value() : static_cast<T>(std::forward<U>(u));
    }
    template <typename U>
    constexpr E error_or(U&& u) const
    {
        return has_value() ? static_cast<E>(std::forward<U>(u)) : error();
    }
    template <typename... A>
    T& emplace(A&&... a)
    {
        return s_.template emplace<0>(std::forward<A>(a)...);
    }
    template <typename F>
    auto and_then(F&& f) const& -> std::decay_t<decltype(std::invoke(std::forward<F>(f), std::declval<const T&>()))>
    {
        using R = std::decay_t<decltype(std::invoke(std::forward<F>(f), value()))>;
        return has_value() ? std::invoke(std::forward<F>(f), value()) : R(unexpected<E>(error()));
    }
    template <typename F>
    auto and_then(F&& f) && -> std::decay_t<decltype(std::invoke(std::forward<F>(f), std::declval<T&&>()))>
    {
        using R = std::decay_t<decltype(std::invoke(std::forward<F>(f), std::move(*this).value()))>;
        return has_value() ? std::invoke(std::forward<F>(f), std::move(*this).value())
                           : R(unexpected<E>(std::move(*this).error()));
    }
    template <typename F>
    auto or_else(F&& f) const&
    {
        using R = std::decay_t<decltype(std::invoke(std::forward<F>(f), error()))>;
        return has_value() ? R(value()) : std::invoke(std::forward<F>(f), error());
    }
    template <typename F>
    auto or_else(F&& f) &&
    {
        using R = std::decay_t<decltype(std::invoke(std::forward<F>(f), std::move(*this).error()))>;
        return has_value() ? R(std::move(*this).value()) : std::invoke(std::forward<F>(f), std::move(*this).error());
    }
    template <typename F>
    auto transform(F&& f) const& -> expected<std::decay_t<decltype(std::invoke(std::forward<F>(f), std::declval<const T&>()))>, E>
    {
        using R = expected<std::decay_t<decltype(std::invoke(std::forward<F>(f), value()))>, E>;
        return has_value() ? R(std::invoke(std::forward<F>(f), value())) : R(unexpected<E>(error()));
    }
    template <typename F>
    auto transform(F&& f) && -> expected<std::decay_t<decltype(std::invoke(std::forward<F>(f), std::declval<T&&>()))>, E>
    {
        using R = expected<std::decay_t<decltype(std::invoke(std::forward<F>(f), std::move(*this).value()))>, E>;
        return has_value() ? R(std::invoke(std::forward<F>(f), std::move(*this).value()))
                           : R(unexpected<E>(std::move(*this).error()));
    }
    template <typename F>
    auto transform_error(F&& f) const&
    {
        using R = expected<T, std::decay_t<decltype(std::invoke(std::forward<F>(f), error()))>>;
        if (has_value())
        {
            return R(value());
        }
        return R(unexpected<typename R::error_type>(std::invoke(std::forward<F>(f), error())));
    }
    template <typename F>
    auto transform_error(F&& f) &&
    {
        using R = expected<T, std::decay_t<decltype(std::invoke(std::forward<F>(f), error()))>>;
        if (has_value())
        {
            return R(std::move(*this).value());
        }
        return R(unexpected<typename R::error_type>(std::invoke(std::forward<F>(f), std::move(*this).error())));
    }
    friend bool operator==(const expected& a, const expected& b)
    {
        if (a.has_value() != b.has_value())
        {
            return false;
        }
        return a.has_value() ? a.value() == b.value() : a.error() == b.error();
    }
    friend bool operator!=(const expected& a, const expected& b) { return !(a == b); }
    template <typename U, typename = std::enable_if_t<!detail_expected::is_expected<U>::value && !detail_expected::is_unexpected<U>::value>>
    friend bool operator==(const expected& a, const U& b)
    {
        return a.has_value() && a.value() == b;
    }
    friend bool operator==(const expected& a, const unexpected<E>& b) { return !a.has_value() && a.error() == b.error(); }
    friend bool operator!=(const expected& a, const unexpected<E>& b) { return !(a == b); }

  private:
    constexpr void check() const { SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(has_value(), "expected: no value"); }
    constexpr void echeck() const { SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(!has_value(), "expected: no error"); }
    Storage s_;
};

template <typename E>
class expected<void, E>
{
  public:
    using value_type = void;
    using error_type = E;
    using unexpected_type = unexpected<E>;
    constexpr expected() = default;
    constexpr explicit expected(std::in_place_t) {}
    // The real type accepts construction from a blank value, too.
    constexpr expected(const blank&) {}
    template <typename G, typename = std::enable_if_t<std::is_constructible_v<E, const G&>>>
    constexpr expected(const unexpected<G>& u) : s_(std::in_place_index<1>, u.error())
    {
    }
    template <typename G, typename = std::enable_if_t<std::is_constructible_v<E, G&&>>>
    constexpr expected(unexpected<G>&& u) : s_(std::in_place_index<1>, std::move(u).error())
    {
    }
    template <typename... A>
    explicit constexpr expected(unexpect_t, A&&... a) : s_(std::in_place_index<1>, E(std::forward<A>(a)...))
    {
    }
    constexpr bool has_value() const noexcept { return s_.index() == 0U; }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr void value() const { SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(has_value()); }
    constexpr void operator*() const { SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(has_value()); }
    constexpr void emplace() { s_.template emplace<0>(); }
    constexpr const E& error() const&
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(!has_value());
        return std::get_if<1>(&s_)->error();
    }
    constexpr E& error() &
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(!has_value());
        return std::get_if<1>(&s_)->error();
    }
    constexpr E&& error() &&
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(!has_value());
        return std::move(std::get_if<1>(&s_)->error());
    }
    template <typename F>
    auto and_then(F&& f) const
    {
        using R = std::decay_t<decltype(std::invoke(std::forward<F>(f)))>;
        return has_value() ? std::invoke(std::forward<F>(f)) : R(unexpected<E>(error()));
    }
    template <typename F>
    auto or_else(F&& f) const
    {
        using R = std::decay_t<decltype(std::invoke(std::forward<F>(f), error()))>;
        return has_value() ? R() : std::invoke(std::forward<F>(f), error());
    }
    template <typename F>
    auto transform(F&& f) const
    {
        using V = std::decay_t<decltype(std::invoke(std::forward<F>(f)))>;
        using R = expected<V, E>;
        if (!has_value())
        {
            return R(unexpected<E>(error()));
        }
        if constexpr (std::is_void_v<V>)
        {
            std::invoke(std::forward<F>(f));
            return R();
        }
        else
        {
            return R(std::invoke(std::forward<F>(f)));
        }
    }
    friend bool operator==(const expected& a, const expected& b)
    {
        if (a.has_value() != b.has_value())
        {
            return false;
        }
        return a.has_value() || a.error() == b.error();
    }
    friend bool operator!=(const expected& a, const expected& b) { return !(a == b); }

  private:
    std::variant<std::monostate, unexpected<E>> s_;
};
template <typename E>
using expected_blank = expected<blank, E>;
}  // namespace cpp
}  // namespace score
#endif
