#ifndef VERIF_SHIM_RESULT_RESULT_H
#define VERIF_SHIM_RESULT_RESULT_H
#include "score/blank.hpp"
#include "score/expected.hpp"
#include "score/result/error.h"
#include <optional>
#include <string_view>
#include <utility>
namespace score
{
template <typename T>
using Result = score::cpp::expected<T, result::Error>;
using Blank = score::cpp::blank;
using ResultBlank = Result<Blank>;
using Unexpected = score::cpp::unexpected<result::Error>;
template <typename ErrorEnum, typename = std::enable_if_t<std::is_enum_v<ErrorEnum>>>
Unexpected MakeUnexpected(const ErrorEnum code, const std::string_view user_message = "")
{
    return Unexpected{MakeError(code, user_message)};
}
template <typename T, typename ErrorEnum, typename = std::enable_if_t<std::is_enum_v<ErrorEnum>>>
Result<T> MakeUnexpected(const ErrorEnum code, const std::string_view user_message = "")
{
    return Result<T>{Unexpected{MakeError(code, user_message)}};
}
template <typename T>
Result<T> MakeUnexpected(const result::Error& e)
{
    return Result<T>{Unexpected{e}};
}
template <typename T, typename F>
std::optional<T> ResultToOptionalOrElse(Result<T>&& r, F&& f)
{
    if (r.has_value())
    {
        return std::optional<T>{std::move(r).value()};
    }
    std::forward<F>(f)(r.error());
    return std::nullopt;
}
template <typename T, typename F>
std::optional<T> ResultToOptionalOrElse(const Result<T>& r, F&& f)
{
    if (r.has_value())
    {
        return std::optional<T>{r.value()};
    }
    std::forward<F>(f)(r.error());
    return std::nullopt;
}
}  // namespace score
#endif
