#ifndef VERIF_SHIM_ZSTRING_VIEW_H
#define VERIF_SHIM_ZSTRING_VIEW_H
#include <ostream>
#include <string>
#include <string_view>
namespace score
{
namespace safecpp
{
class zstring_view : public std::string_view
{
  public:
    constexpr zstring_view() noexcept : std::string_view("") {}
    template <std::size_t N>
    constexpr zstring_view(const char (&s)[N]) noexcept : std::string_view(s)
    {
    }
    template <typename A>
    zstring_view(const std::basic_string<char, std::char_traits<char>, A>& s) noexcept : std::string_view(s.c_str(), s.size())
    {
    }
    constexpr zstring_view(const char* s, std::size_t n) noexcept : std::string_view(s, n) {}
    constexpr const char* c_str() const noexcept { return data(); }
};
namespace literals
{
constexpr zstring_view operator""_zsv(const char* s, std::size_t n) noexcept { return zstring_view{s, n}; }
}  // namespace literals
inline std::string operator+(const std::string& a, const zstring_view& b) { return a + std::string(b.data(), b.size()); }
}  // namespace safecpp
}  // namespace score
#endif
