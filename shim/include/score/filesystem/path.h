#ifndef VERIF_SHIM_PATH_H
#define VERIF_SHIM_PATH_H
#include "score/mw/log/log_stream.h"
#include <filesystem>
#include <functional>
#include <string>
#include <string_view>
namespace score
{
namespace filesystem
{
class Path
{
  public:
    Path() = default;
    Path(const char* s) : p_(s) {}
    Path(const std::string& s) : p_(s) {}
    Path(std::string&& s) : p_(std::move(s)) {}
    Path(std::string_view s) : p_(std::string{s}) {}
    Path(std::filesystem::path p) : p_(std::move(p)) {}
    const std::string& Native() const noexcept { return p_.native(); }
    operator std::string() const { return p_.native(); }
    const char* CStr() const noexcept { return p_.c_str(); }
    Path Filename() const { return Path{p_.filename()}; }
    Path ParentPath() const { return Path{p_.parent_path()}; }
    Path RelativePath() const { return Path{p_.relative_path()}; }
    Path Extension() const { return Path{p_.extension()}; }
    Path LexicallyNormal() const { return Path{p_.lexically_normal()}; }
    bool Empty() const noexcept { return p_.empty(); }
    bool IsAbsolute() const { return p_.is_absolute(); }
    bool IsRelative() const { return p_.is_relative(); }
    Path& operator/=(const Path& o)
    {
        p_ /= o.p_;
        return *this;
    }
    Path& Append(const Path& o) { return *this /= o; }
    friend Path operator/(const Path& a, const Path& b) { return Path{a.p_ / b.p_}; }
    friend bool operator==(const Path& a, const Path& b) { return a.p_ == b.p_; }
    friend bool operator!=(const Path& a, const Path& b) { return a.p_ != b.p_; }
    friend bool operator<(const Path& a, const Path& b) { return a.p_ < b.p_; }
    friend std::ostream& operator<<(std::ostream& o, const Path& p) { return o << p.Native(); }

  private:
    std::filesystem::path p_;
};
inline score::mw::log::LogStream& operator<<(score::mw::log::LogStream& l, const Path& p) { return l << p.Native(); }
}  // namespace filesystem
}  // namespace score
namespace std
{
template <>
struct hash<score::filesystem::Path>
{
    size_t operator()(const score::filesystem::Path& p) const noexcept { return hash<string>{}(p.Native()); }
};
}  // namespace std
#endif
