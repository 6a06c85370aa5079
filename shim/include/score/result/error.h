#ifndef VERIF_SHIM_RESULT_ERROR_H
#define VERIF_SHIM_RESULT_ERROR_H
#include <cstdint>
#include <ostream>
#include <string_view>
namespace score
{
namespace result
{
using ErrorCode = std::int32_t;
class ErrorDomain
{
  public:
    constexpr ErrorDomain() = default;
    virtual std::string_view MessageFor(const ErrorCode& code) const noexcept = 0;

  protected:
    ~ErrorDomain() = default;
    constexpr ErrorDomain(const ErrorDomain&) = default;
    constexpr ErrorDomain(ErrorDomain&&) = default;
    ErrorDomain& operator=(const ErrorDomain&) = default;
    ErrorDomain& operator=(ErrorDomain&&) = default;
};
class Error
{
  public:
    constexpr Error(const ErrorCode code, const ErrorDomain& domain, const std::string_view user_message = {}) noexcept
        : code_(code), domain_(&domain), user_message_(user_message)
    {
    }
    template <typename Enum, typename = std::enable_if_t<std::is_enum_v<Enum>>>
    constexpr explicit Error(const Enum e) noexcept : Error(MakeError(e, std::string_view{}))
    {
    }
    std::string_view Message() const noexcept { return domain_->MessageFor(code_); }
    constexpr std::string_view UserMessage() const noexcept { return user_message_; }
    constexpr const ErrorCode& operator*() const noexcept { return code_; }
    constexpr const ErrorDomain& Domain() const noexcept { return *domain_; }
    friend constexpr bool operator==(const Error& a, const Error& b) noexcept
    {
        return a.code_ == b.code_ && a.domain_ == b.domain_;
    }
    friend constexpr bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
    template <typename Enum, typename = std::enable_if_t<std::is_enum_v<Enum>>>
    friend bool operator==(const Error& a, const Enum e)
    {
        return a == MakeError(e, "");
    }
    template <typename Enum, typename = std::enable_if_t<std::is_enum_v<Enum>>>
    friend bool operator!=(const Error& a, const Enum e)
    {
        return !(a == MakeError(e, ""));
    }
    friend std::ostream& operator<<(std::ostream& o, const Error& e)
    {
        return o << "Error " << e.Message() << " occurred with message " << e.user_message_;
    }

  private:
    ErrorCode code_;
    const ErrorDomain* domain_;
    std::string_view user_message_;
};
}  // namespace result
}  // namespace score
#endif
