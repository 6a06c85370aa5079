#ifndef VERIF_SHIM_LOG_TYPES_H
#define VERIF_SHIM_LOG_TYPES_H
#include <cstdint>
#include <string_view>
namespace score
{
namespace mw
{
namespace log
{
#define VERIF_SHIM_LOGT_(N, T) \
    struct N                   \
    {                          \
        T value;               \
    };
VERIF_SHIM_LOGT_(LogHex8, std::uint8_t)
VERIF_SHIM_LOGT_(LogHex16, std::uint16_t)
VERIF_SHIM_LOGT_(LogHex32, std::uint32_t)
VERIF_SHIM_LOGT_(LogHex64, std::uint64_t)
VERIF_SHIM_LOGT_(LogBin8, std::uint8_t)
VERIF_SHIM_LOGT_(LogBin16, std::uint16_t)
VERIF_SHIM_LOGT_(LogBin32, std::uint32_t)
VERIF_SHIM_LOGT_(LogBin64, std::uint64_t)
#undef VERIF_SHIM_LOGT_
}  // namespace log
}  // namespace mw
}  // namespace score
#endif
