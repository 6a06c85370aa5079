#ifndef VERIF_SHIM_UTILITY_HPP
#define VERIF_SHIM_UTILITY_HPP
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
struct ignore_t
{
    constexpr ignore_t() noexcept = default;
    template <typename T>
    constexpr const ignore_t& operator=(const T&) const noexcept
    {
        return *this;
    }
};
inline constexpr ignore_t ignore{};
template <typename E>
constexpr std::underlying_type_t<E> to_underlying(E e) noexcept
{
    return static_cast<std::underlying_type_t<E>>(e);
}
using in_place_t = std::in_place_t;
inline constexpr in_place_t in_place{};
}  // namespace cpp
}  // namespace score
#endif
