#ifndef VERIF_SHIM_STRING_VIEW_HPP
#define VERIF_SHIM_STRING_VIEW_HPP
#include <string_view>
namespace score
{
namespace cpp
{
using std::string_view;
}
}  // namespace score
#endif
