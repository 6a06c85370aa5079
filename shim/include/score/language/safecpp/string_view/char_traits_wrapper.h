#ifndef VERIF_SHIM_CHAR_TRAITS_WRAPPER_H
#define VERIF_SHIM_CHAR_TRAITS_WRAPPER_H
#include <string>
namespace score
{
namespace safecpp
{
template <typename CharT, typename Traits = std::char_traits<CharT>>
struct char_traits_wrapper : Traits
{
    using traits_type = Traits;
};
}  // namespace safecpp
}  // namespace score
#endif
