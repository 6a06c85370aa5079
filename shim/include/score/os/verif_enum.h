#ifndef VERIF_SHIM_VERIF_ENUM_H
#define VERIF_SHIM_VERIF_ENUM_H
#include <type_traits>
#define VERIF_SHIM_BITMASK_(E)                                                                            \
    constexpr E operator|(const E a, const E b) noexcept                                                  \
    {                                                                                                     \
        return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); \
    }                                                                                                     \
    constexpr E operator&(const E a, const E b) noexcept                                                  \
    {                                                                                                     \
        return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) & static_cast<std::underlying_type_t<E>>(b)); \
    }                                                                                                     \
    constexpr E operator~(const E a) noexcept                                                             \
    {                                                                                                     \
        return static_cast<E>(~static_cast<std::underlying_type_t<E>>(a));                                \
    }                                                                                                     \
    constexpr E& operator|=(E& a, const E b) noexcept                                                     \
    {                                                                                                     \
        a = a | b;                                                                                        \
        return a;                                                                                         \
    }                                                                                                     \
    constexpr E& operator&=(E& a, const E b) noexcept                                                     \
    {                                                                                                     \
        a = a & b;                                                                                        \
        return a;                                                                                         \
    }
#endif
