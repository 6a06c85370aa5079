#ifndef VERIF_SHIM_BITMASK_OPERATORS_H
#define VERIF_SHIM_BITMASK_OPERATORS_H
#include <type_traits>
namespace score
{
template <typename E>
struct enable_bitmask_operators : std::false_type
{
};
#define VERIF_SHIM_BM_(OP)                                                                                  \
    template <typename E, typename = std::enable_if_t<enable_bitmask_operators<E>::value>>                  \
    constexpr E operator OP(const E a, const E b) noexcept                                                  \
    {                                                                                                       \
        using U = std::underlying_type_t<E>;                                                                \
        return static_cast<E>(static_cast<U>(a) OP static_cast<U>(b));                                      \
    }                                                                                                       \
    template <typename E, typename = std::enable_if_t<enable_bitmask_operators<E>::value>>                  \
    constexpr E& operator OP##=(E& a, const E b) noexcept                                                   \
    {                                                                                                       \
        a = a OP b;                                                                                         \
        return a;                                                                                           \
    }
VERIF_SHIM_BM_(|)
VERIF_SHIM_BM_(&)
VERIF_SHIM_BM_(^)
#undef VERIF_SHIM_BM_
template <typename E, typename = std::enable_if_t<enable_bitmask_operators<E>::value>>
constexpr E operator~(const E a) noexcept
{
    using U = std::underlying_type_t<E>;
    return static_cast<E>(~static_cast<U>(a));
}
}  // namespace score
#endif
