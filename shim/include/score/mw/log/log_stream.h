#ifndef VERIF_SHIM_LOG_STREAM_H
#define VERIF_SHIM_LOG_STREAM_H
#include "score/mw/log/log_types.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
namespace score
{
namespace mw
{
namespace log
{
/// Formats like the real stream; written to stderr when VERIF_SHIM_LOG is set.
class LogStream
{
  public:
    LogStream(const char* level, std::string_view ctx) noexcept
    {
        if (on_)
        {
            std::fprintf(stderr, "\n%s %.*s: ", level, static_cast<int>(ctx.size()), ctx.data());
        }
    }
    LogStream(LogStream&&) = default;
    LogStream(const LogStream&) = delete;
    template <typename T>
    LogStream& Put(const T& t) noexcept
    {
        if (on_)
        {
            std::ostringstream os;
            os << t << " ";
            std::fputs(os.str().c_str(), stderr);
        }
        return *this;
    }
#define VERIF_SHIM_OP_(T) \
    LogStream& operator<<(const T v) noexcept { return Put(v); }
    VERIF_SHIM_OP_(bool)
    VERIF_SHIM_OP_(char)
    LogStream& operator<<(const unsigned char v) noexcept { return Put(static_cast<unsigned>(v)); }
    LogStream& operator<<(const signed char v) noexcept { return Put(static_cast<int>(v)); }
    VERIF_SHIM_OP_(short)
    VERIF_SHIM_OP_(unsigned short)
    VERIF_SHIM_OP_(int)
    VERIF_SHIM_OP_(unsigned)
    VERIF_SHIM_OP_(long)
    VERIF_SHIM_OP_(unsigned long)
    VERIF_SHIM_OP_(long long)
    VERIF_SHIM_OP_(unsigned long long)
    VERIF_SHIM_OP_(float)
    VERIF_SHIM_OP_(double)
    LogStream& operator<<(const std::string_view v) noexcept { return Put(v); }
    LogStream& operator<<(const std::string& v) noexcept { return Put(v); }
    LogStream& operator<<(const char* v) noexcept { return Put(v); }
    LogStream& operator<<(const void* v) noexcept { return Put(v); }
#undef VERIF_SHIM_OP_
#define VERIF_SHIM_OP_(T) \
    LogStream& operator<<(const T v) noexcept { return Put(static_cast<unsigned long>(v.value)); }
    VERIF_SHIM_OP_(LogHex8)
    VERIF_SHIM_OP_(LogHex16)
    VERIF_SHIM_OP_(LogHex32)
    VERIF_SHIM_OP_(LogHex64)
    VERIF_SHIM_OP_(LogBin8)
    VERIF_SHIM_OP_(LogBin16)
    VERIF_SHIM_OP_(LogBin32)
    VERIF_SHIM_OP_(LogBin64)
#undef VERIF_SHIM_OP_
    void Flush() noexcept {}

  private:
    static bool Enabled()
    {
        static const bool on = std::getenv("VERIF_SHIM_LOG") != nullptr;
        return on;
    }
    bool on_{Enabled()};
};
/// Class types without an operator of their own (e.g. errors): logged through an ostream when they can be.
template <typename T, typename = void>
struct OStreamable : std::false_type
{
};
template <typename T>
struct OStreamable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type
{
};
template <typename T, typename = std::enable_if_t<std::is_class_v<T> && !std::is_convertible_v<const T&, std::string_view>>>
LogStream& operator<<(LogStream& s, const T& t) noexcept
{
    if constexpr (OStreamable<T>::value)
    {
        return s.Put(t);
    }
    return s;
}
/// An rvalue stream takes the operators declared for an lvalue one.
template <typename T,
          typename = std::enable_if_t<(std::is_class_v<T> || std::is_enum_v<T>) && !std::is_convertible_v<const T&, std::string_view> &&
                                      !std::is_convertible_v<const T&, long long>>>
LogStream& operator<<(LogStream&& s, const T& t) noexcept
{
    LogStream& l = s;
    return l << t;
}
}  // namespace log
}  // namespace mw
}  // namespace score
#endif
