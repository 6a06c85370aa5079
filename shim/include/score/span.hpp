#ifndef VERIF_SHIM_SPAN_HPP
#define VERIF_SHIM_SPAN_HPP
#include "score/assert.hpp"
#include <array>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <typename T, std::size_t Extent = dynamic_extent>
class span
{
  public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using index_type = std::ptrdiff_t;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using iterator = T*;
    using const_iterator = const T*;
    constexpr span() noexcept = default;
    constexpr span(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
    constexpr span(T* b, T* e) noexcept : p_(b), n_(static_cast<std::size_t>(e - b)) {}
    template <std::size_t N>
    constexpr span(T (&a)[N]) noexcept : p_(a), n_(N)
    {
    }
    template <typename U, std::size_t N, typename = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>>
    constexpr span(std::array<U, N>& a) noexcept : p_(a.data()), n_(N)
    {
    }
    template <typename U, std::size_t N, typename = std::enable_if_t<std::is_convertible_v<const U (*)[], T (*)[]>>>
    constexpr span(const std::array<U, N>& a) noexcept : p_(a.data()), n_(N)
    {
    }
    template <typename C,
              typename = std::enable_if_t<!std::is_array_v<C> && std::is_convertible_v<
                  std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[],
                  T (*)[]>>,
              typename = decltype(std::declval<C&>().size())>
    constexpr span(C& c) noexcept : p_(c.data()), n_(static_cast<std::size_t>(c.size()))
    {
    }
    template <typename C,
              typename = std::enable_if_t<!std::is_array_v<C> && std::is_convertible_v<
                  std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[],
                  T (*)[]>>,
              typename = decltype(std::declval<const C&>().size())>
    constexpr span(const C& c) noexcept : p_(c.data()), n_(static_cast<std::size_t>(c.size()))
    {
    }
    constexpr T* data() const noexcept { return p_; }
    constexpr std::size_t size() const noexcept { return n_; }
    constexpr std::size_t size_bytes() const noexcept { return n_ * sizeof(T); }
    constexpr bool empty() const noexcept { return n_ == 0U; }
    constexpr T* begin() const noexcept { return p_; }
    constexpr T* end() const noexcept { return p_ + n_; }
    constexpr const T* cbegin() const noexcept { return p_; }
    constexpr const T* cend() const noexcept { return p_ + n_; }
    constexpr auto rbegin() const noexcept { return std::reverse_iterator<T*>(end()); }
    constexpr auto rend() const noexcept { return std::reverse_iterator<T*>(begin()); }
    template <typename I>
    constexpr T& operator[](I i) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(static_cast<std::size_t>(i) < n_, "span index out of range");
        return p_[i];
    }
    constexpr T& front() const { return (*this)[0U]; }
    constexpr T& back() const { return (*this)[n_ - 1U]; }
    constexpr span first(std::size_t n) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(n <= n_);
        return {p_, n};
    }
    constexpr span last(std::size_t n) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(n <= n_);
        return {p_ + (n_ - n), n};
    }
    constexpr span subspan(std::size_t o, std::size_t n = dynamic_extent) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(o <= n_);
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(n == dynamic_extent || n <= n_ - o);
        return {p_ + o, n == dynamic_extent ? n_ - o : n};
    }

  private:
    T* p_{nullptr};
    std::size_t n_{0U};
};
template <typename T, std::size_t N>
span(T (&)[N]) -> span<T>;
template <typename T, std::size_t N>
span(std::array<T, N>&) -> span<T>;
template <typename T, std::size_t N>
span(const std::array<T, N>&) -> span<const T>;
template <typename T>
span(T*, std::size_t) -> span<T>;
template <typename C>
span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <typename C>
span(const C&) -> span<std::remove_pointer_t<decltype(std::declval<const C&>().data())>>;
template <typename T>
constexpr T& at(span<T> s, std::ptrdiff_t i)
{
    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i >= 0 && static_cast<std::size_t>(i) < s.size(), "at: out of range");
    return s.data()[i];
}
template <typename C>
constexpr decltype(auto) at(C& c, std::ptrdiff_t i)
{
    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i >= 0 && static_cast<std::size_t>(i) < c.size(), "at: out of range");
    return c[static_cast<std::size_t>(i)];
}
template <typename T>
span<const std::byte> as_bytes(span<T> s)
{
    return {reinterpret_cast<const std::byte*>(s.data()), s.size_bytes()};
}
}  // namespace cpp
}  // namespace score
#endif
