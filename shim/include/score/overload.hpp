#ifndef VERIF_SHIM_OVERLOAD_HPP
#define VERIF_SHIM_OVERLOAD_HPP
#include <type_traits>
#include <utility>
#include <variant>
namespace score
{
namespace cpp
{
template <class... Ts>
struct overloaded_t : Ts...
{
    using Ts::operator()...;
};
template <class... Ts>
constexpr overloaded_t<std::decay_t<Ts>...> overload(Ts&&... ts)
{
    return overloaded_t<std::decay_t<Ts>...>{std::forward<Ts>(ts)...};
}
template <typename Visitor, typename... V>
constexpr decltype(auto) visit(Visitor&& vis, V&&... v)
{
    return std::visit(std::forward<Visitor>(vis), std::forward<V>(v)...);
}
}  // namespace cpp
}  // namespace score
#endif
