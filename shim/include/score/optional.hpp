#ifndef VERIF_SHIM_OPTIONAL_HPP
#define VERIF_SHIM_OPTIONAL_HPP
#include <optional>
namespace score
{
namespace cpp
{
template <typename T>
using optional = std::optional<T>;
using nullopt_t = std::nullopt_t;
inline constexpr nullopt_t nullopt{std::nullopt};
using std::make_optional;
}  // namespace cpp
}  // namespace score
#endif
