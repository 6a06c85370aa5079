#ifndef VERIF_SHIM_MEMORY_HPP
#define VERIF_SHIM_MEMORY_HPP
#include "score/memory_resource.hpp"
#include <cstddef>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
namespace pmr
{
class deleter_base
{
};
template <typename T>
class deleter
{
  public:
    deleter() noexcept = default;
    deleter(memory_resource* r, std::size_t size, std::size_t align, void* base) noexcept
        : r_(r), size_(size), align_(align), base_(base)
    {
    }
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    deleter(const deleter<U>& o) noexcept : r_(o.r_), size_(o.size_), align_(o.align_), base_(o.base_)
    {
    }
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    deleter& operator=(const deleter<U>& o) noexcept
    {
        r_ = o.r_;
        size_ = o.size_;
        align_ = o.align_;
        base_ = o.base_;
        return *this;
    }
    void operator()(T* p) const
    {
        if (p == nullptr)
        {
            return;
        }
        p->~T();
        if (r_ != nullptr)
        {
            r_->deallocate(base_, size_, align_);
        }
    }
    memory_resource* r_{nullptr};
    std::size_t size_{0};
    std::size_t align_{1};
    void* base_{nullptr};
};
template <typename T>
using unique_ptr = std::unique_ptr<T, deleter<T>>;
template <typename T, typename... A>
unique_ptr<T> make_unique(memory_resource* r, A&&... a)
{
    using U = std::remove_cv_t<T>;
    void* mem = r->allocate(sizeof(U), alignof(U));
    U* p = ::new (mem) U(std::forward<A>(a)...);
    return unique_ptr<T>(p, deleter<T>{r, sizeof(U), alignof(U), mem});
}
template <typename T, typename R, typename... A>
unique_ptr<T> make_unique(const std::pmr::polymorphic_allocator<R>& al, A&&... a)
{
    return make_unique<T>(al.resource(), std::forward<A>(a)...);
}
template <typename T, typename... A>
std::shared_ptr<T> make_shared(memory_resource* r, A&&... a)
{
    return std::allocate_shared<T>(std::pmr::polymorphic_allocator<T>(r), std::forward<A>(a)...);
}
}  // namespace pmr
}  // namespace cpp
}  // namespace score
#endif
