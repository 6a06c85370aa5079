#ifndef VERIF_SHIM_DYNAMIC_ARRAY_H
#define VERIF_SHIM_DYNAMIC_ARRAY_H
#include "score/assert.hpp"
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>
namespace score
{
namespace containers
{
/// Fixed size array whose size is chosen at construction; one allocation (none for size 0).
template <typename ElementType, typename Allocator = std::allocator<ElementType>>
class DynamicArray
{
    using Traits = std::allocator_traits<Allocator>;
    using Ptr = typename Traits::pointer;

  public:
    using value_type = ElementType;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = ElementType&;
    using const_reference = const ElementType&;
    using iterator = ElementType*;
    using const_iterator = const ElementType*;
    using pointer = ElementType*;
    using allocator_type = Allocator;
    explicit DynamicArray(const size_type n, const Allocator& alloc = Allocator{}) : alloc_(alloc), n_(n)
    {
        allocate();
        for (size_type i = 0; i < n_; ++i)
        {
            Traits::construct(alloc_, raw() + i);
        }
    }
    DynamicArray(const size_type n, const ElementType& v, const Allocator& alloc = Allocator{}) : alloc_(alloc), n_(n)
    {
        allocate();
        for (size_type i = 0; i < n_; ++i)
        {
            Traits::construct(alloc_, raw() + i, v);
        }
    }
    DynamicArray(const DynamicArray& o) : alloc_(Traits::select_on_container_copy_construction(o.alloc_)), n_(o.n_)
    {
        allocate();
        for (size_type i = 0; i < n_; ++i)
        {
            Traits::construct(alloc_, raw() + i, o.raw()[i]);
        }
    }
    DynamicArray& operator=(const DynamicArray&) = delete;
    DynamicArray(DynamicArray&& o) noexcept : alloc_(o.alloc_), p_(o.p_), n_(o.n_)
    {
        o.p_ = nullptr;
        o.n_ = 0U;
    }
    DynamicArray& operator=(DynamicArray&& o) noexcept
    {
        if (this != &o)
        {
            destroy();
            alloc_ = o.alloc_;
            p_ = o.p_;
            n_ = o.n_;
            o.p_ = nullptr;
            o.n_ = 0U;
        }
        return *this;
    }
    ~DynamicArray() { destroy(); }
    reference at(size_type i)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i < n_, "DynamicArray::at out of range");
        return raw()[i];
    }
    const_reference at(size_type i) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i < n_, "DynamicArray::at out of range");
        return raw()[i];
    }
    reference operator[](size_type i) { return at(i); }
    const_reference operator[](size_type i) const { return at(i); }
    reference front() { return at(0U); }
    reference back() { return at(n_ - 1U); }
    const_reference front() const { return at(0U); }
    const_reference back() const { return at(n_ - 1U); }
    pointer data() noexcept { return raw(); }
    const ElementType* data() const noexcept { return raw(); }
    iterator begin() noexcept { return raw(); }
    iterator end() noexcept { return raw() + n_; }
    const_iterator begin() const noexcept { return raw(); }
    const_iterator end() const noexcept { return raw() + n_; }
    const_iterator cbegin() const noexcept { return raw(); }
    const_iterator cend() const noexcept { return raw() + n_; }
    size_type size() const noexcept { return n_; }
    bool empty() const noexcept { return n_ == 0U; }
    Allocator get_allocator() const { return alloc_; }

  private:
    void allocate()
    {
        if (n_ != 0U)
        {
            p_ = Traits::allocate(alloc_, n_);
        }
    }
    void destroy() noexcept
    {
        if (n_ == 0U)
        {
            return;
        }
        for (size_type i = 0; i < n_; ++i)
        {
            Traits::destroy(alloc_, raw() + i);
        }
        Traits::deallocate(alloc_, p_, n_);
        n_ = 0U;
        p_ = nullptr;
    }
    ElementType* raw() const noexcept
    {
        if (n_ == 0U)
        {
            return nullptr;
        }
        return std::addressof(*p_);
    }
    Allocator alloc_;
    Ptr p_{nullptr};
    size_type n_{0U};
};
}  // namespace containers
}  // namespace score
#endif
