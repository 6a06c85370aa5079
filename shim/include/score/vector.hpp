#ifndef VERIF_SHIM_VECTOR_HPP
#define VERIF_SHIM_VECTOR_HPP
#include "score/memory_resource.hpp"
#include <vector>
namespace score
{
namespace cpp
{
namespace pmr
{
template <typename T>
using vector = std::vector<T, polymorphic_allocator<T>>;
}
}  // namespace cpp
}  // namespace score
#endif
