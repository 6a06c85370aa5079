#ifndef VERIF_SHIM_BLANK_HPP
#define VERIF_SHIM_BLANK_HPP
#include <cstddef>
#include <functional>
namespace score
{
namespace cpp
{
class blank
{
};
constexpr bool operator==(const blank, const blank) noexcept { return true; }
constexpr bool operator!=(const blank, const blank) noexcept { return false; }
constexpr bool operator<(const blank, const blank) noexcept { return false; }
}  // namespace cpp
}  // namespace score
namespace std
{
template <>
struct hash<score::cpp::blank>
{
    size_t operator()(const score::cpp::blank&) const noexcept { return 0U; }
};
}  // namespace std
#endif
