#ifndef VERIF_SHIM_STRING_HPP
#define VERIF_SHIM_STRING_HPP
#include "score/memory_resource.hpp"
#include <string>
namespace score
{
namespace cpp
{
namespace pmr
{
using string = std::basic_string<char, std::char_traits<char>, polymorphic_allocator<char>>;
}
}  // namespace cpp
}  // namespace score
#endif
