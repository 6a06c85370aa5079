#ifndef VERIF_SHIM_SAFE_MATH_H
#define VERIF_SHIM_SAFE_MATH_H
#include "score/assert.hpp"
#include "score/result/result.h"
#include <limits>
#include <type_traits>
namespace score
{
namespace safe_math
{
enum class ReturnMode
{
    kAbortOnError,
    kReturnResultType,
};
enum class ErrorCode : result::ErrorCode
{
    kUnexpectedError,
    kDivideByZero,
    kExceedsNumericLimits,
    kImplicitSignConversion
};
class ErrorDomainImpl final : public result::ErrorDomain
{
  public:
    std::string_view MessageFor(const result::ErrorCode&) const noexcept override { return "safe math error"; }
};
inline constexpr ErrorDomainImpl kErrorDomain{};
constexpr result::Error MakeError(const ErrorCode c, const std::string_view m = "")
{
    return {static_cast<result::ErrorCode>(c), kErrorDomain, m};
}
namespace detail
{
// every integer type of at most 64 bit fits into this one
using Wide = __int128;
template <typename T>
constexpr bool Fits(const Wide w)
{
    return w >= static_cast<Wide>(std::numeric_limits<T>::lowest()) && w <= static_cast<Wide>(std::numeric_limits<T>::max());
}
template <ReturnMode M, typename R>
using Ret = std::conditional_t<M == ReturnMode::kAbortOnError, R, score::Result<R>>;
template <ReturnMode M, typename R>
constexpr Ret<M, R> Make(const bool ok, const Wide w, const ErrorCode e = ErrorCode::kExceedsNumericLimits)
{
    const bool good = ok && Fits<R>(w);
    if constexpr (M == ReturnMode::kAbortOnError)
    {
        if (!good)
        {
            ::verif_shim::AssertFailed(__FILE__, __LINE__, "safe_math", "result not representable");
        }
        return static_cast<R>(w);
    }
    else
    {
        if (!good)
        {
            return score::Unexpected{MakeError(e)};
        }
        return static_cast<R>(w);
    }
}
struct Deduce
{
};
template <typename R, typename A, typename B>
using Out = std::conditional_t<std::is_same_v<R, Deduce>, std::common_type_t<A, B>, R>;
template <ReturnMode M, typename R, typename A, typename B>
constexpr auto BinAdd(A a, B b)
{
    return Make<M, Out<R, A, B>>(true, static_cast<Wide>(a) + static_cast<Wide>(b));
}
template <ReturnMode M, typename R, typename A, typename B>
constexpr auto BinSub(A a, B b)
{
    return Make<M, Out<R, A, B>>(true, static_cast<Wide>(a) - static_cast<Wide>(b));
}
template <ReturnMode M, typename R, typename A, typename B>
constexpr auto BinMul(A a, B b)
{
    Wide w{};
    const bool over = __builtin_mul_overflow(static_cast<Wide>(a), static_cast<Wide>(b), &w);
    return Make<M, Out<R, A, B>>(!over, w);
}
template <ReturnMode M, typename R, typename A, typename B>
constexpr auto BinDiv(A a, B b)
{
    if (b == 0)
    {
        return Make<M, Out<R, A, B>>(false, 0, ErrorCode::kDivideByZero);
    }
    return Make<M, Out<R, A, B>>(true, static_cast<Wide>(a) / static_cast<Wide>(b));
}
template <ReturnMode M, typename R, typename A, typename B>
constexpr auto BinMod(A a, B b)
{
    if (b == 0)
    {
        return Make<M, Out<R, A, B>>(false, 0, ErrorCode::kDivideByZero);
    }
    return Make<M, Out<R, A, B>>(true, static_cast<Wide>(a) % static_cast<Wide>(b));
}
}  // namespace detail
#define VERIF_SHIM_SM_(Name, Impl)                                                                        \
    template <ReturnMode M, typename A, typename B>                                                       \
    constexpr auto Name(const A a, const B b)                                                                       \
    {                                                                                                     \
        return detail::Impl<M, detail::Deduce>(a, b);                                                     \
    }                                                                                                     \
    template <typename R, ReturnMode M, typename A, typename B>                                           \
    constexpr auto Name(const A a, const B b)                                                                       \
    {                                                                                                     \
        return detail::Impl<M, R>(a, b);                                                                  \
    }                                                                                                     \
    template <typename R = detail::Deduce, typename A, typename B>                                        \
    constexpr auto Name(const A a, const B b)                                                                       \
    {                                                                                                     \
        return detail::Impl<ReturnMode::kReturnResultType, R>(a, b);                                      \
    }
VERIF_SHIM_SM_(Add, BinAdd)
VERIF_SHIM_SM_(Subtract, BinSub)
VERIF_SHIM_SM_(Multiply, BinMul)
VERIF_SHIM_SM_(Divide, BinDiv)
VERIF_SHIM_SM_(Modulo, BinMod)
#undef VERIF_SHIM_SM_
template <typename R, ReturnMode M = ReturnMode::kReturnResultType, typename A>
constexpr auto Cast(const A a)
{
    return detail::Make<M, R>(true, static_cast<detail::Wide>(a));
}
template <ReturnMode M, typename R, typename A>
constexpr auto Cast(const A a)
{
    return detail::Make<M, R>(true, static_cast<detail::Wide>(a));
}
template <typename A>
constexpr auto Abs(const A a) noexcept
{
    using U = std::make_unsigned_t<A>;
    if constexpr (std::is_signed_v<A>)
    {
        return a < 0 ? static_cast<U>(U{0} - static_cast<U>(a)) : static_cast<U>(a);
    }
    else
    {
        return static_cast<U>(a);
    }
}
}  // namespace safe_math
}  // namespace score
#endif
