#ifndef VERIF_SHIM_IPV4_ADDRESS_H
#define VERIF_SHIM_IPV4_ADDRESS_H
#include <array>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
namespace score
{
namespace os
{
class Ipv4Address
{
  public:
    Ipv4Address() = default;
    explicit Ipv4Address(const std::string& s) : Ipv4Address(std::string_view{s}) {}
    Ipv4Address(std::uint8_t a, std::uint8_t b, std::uint8_t c, std::uint8_t d) : b_{{a, b, c, d}} {}
    explicit Ipv4Address(std::string_view s)
    {
        unsigned v[4]{};
        const std::string t{s};
        char extra{};
        if (std::sscanf(t.c_str(), "%3u.%3u.%3u.%3u%c", &v[0], &v[1], &v[2], &v[3], &extra) == 4 && v[0] < 256U && v[1] < 256U &&
            v[2] < 256U && v[3] < 256U)
        {
            for (unsigned i = 0; i < 4U; ++i)
            {
                b_[i] = static_cast<std::uint8_t>(v[i]);
            }
        }
    }
    std::array<std::uint8_t, 4> ToIpv4Bytes() const { return b_; }
    std::string ToString() const
    {
        return std::to_string(b_[0]) + "." + std::to_string(b_[1]) + "." + std::to_string(b_[2]) + "." + std::to_string(b_[3]);
    }
    friend bool operator==(const Ipv4Address& x, const Ipv4Address& y) { return x.b_ == y.b_; }
    friend bool operator!=(const Ipv4Address& x, const Ipv4Address& y) { return x.b_ != y.b_; }

  private:
    std::array<std::uint8_t, 4> b_{};
};
}  // namespace os
}  // namespace score
#endif
