#ifndef VERIF_SHIM_MEMORY_RESOURCE_HPP
#define VERIF_SHIM_MEMORY_RESOURCE_HPP
#include <cstddef>
#include <memory_resource>
#include <type_traits>
namespace score
{
namespace cpp
{
namespace pmr
{
using std::pmr::memory_resource;
using std::pmr::get_default_resource;
using std::pmr::set_default_resource;
using std::pmr::new_delete_resource;
using std::pmr::null_memory_resource;
using std::pmr::monotonic_buffer_resource;
template <typename T = std::byte>
class polymorphic_allocator : public std::pmr::polymorphic_allocator<T>
{
    using B = std::pmr::polymorphic_allocator<T>;

  public:
    polymorphic_allocator() noexcept = default;
    polymorphic_allocator(memory_resource* r) noexcept : B(r) {}
    polymorphic_allocator(const polymorphic_allocator&) = default;
    polymorphic_allocator& operator=(const polymorphic_allocator&) = default;
    template <typename U>
    polymorphic_allocator(const polymorphic_allocator<U>& o) noexcept : B(o.resource())
    {
    }
    template <typename U>
    polymorphic_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : B(o.resource())
    {
    }
    template <typename U>
    struct rebind
    {
        using other = polymorphic_allocator<U>;
    };
    polymorphic_allocator select_on_container_copy_construction() const { return polymorphic_allocator{}; }
};
template <typename A, typename B>
bool operator==(const polymorphic_allocator<A>& a, const polymorphic_allocator<B>& b)
{
    return *a.resource() == *b.resource();
}
template <typename A, typename B>
bool operator!=(const polymorphic_allocator<A>& a, const polymorphic_allocator<B>& b)
{
    return !(a == b);
}
}  // namespace pmr
}  // namespace cpp
}  // namespace score
#endif
