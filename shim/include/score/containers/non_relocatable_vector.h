#ifndef VERIF_SHIM_NON_RELOCATABLE_VECTOR_H
#define VERIF_SHIM_NON_RELOCATABLE_VECTOR_H
#include "score/assert.hpp"
#include <cstddef>
#include <memory>
#include <utility>
namespace score
{
namespace containers
{
/// Vector with a capacity fixed at construction; elements never move; exceeding the capacity is fatal.
template <typename ElementType, typename Allocator = std::allocator<ElementType>>
class NonRelocatableVector
{
    using Traits = std::allocator_traits<Allocator>;
    using Ptr = typename Traits::pointer;

  public:
    using value_type = ElementType;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = ElementType&;
    using const_reference = const ElementType&;
    using iterator = ElementType*;
    using const_iterator = const ElementType*;
    using pointer = ElementType*;
    using const_pointer = const ElementType*;
    using allocator_type = Allocator;
    explicit NonRelocatableVector(const size_type cap, const Allocator& alloc = Allocator{}) : alloc_(alloc), cap_(cap)
    {
        if (cap_ != 0U)
        {
            p_ = Traits::allocate(alloc_, cap_);
        }
    }
    NonRelocatableVector(const NonRelocatableVector&) = delete;
    NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
    NonRelocatableVector(NonRelocatableVector&& o) noexcept : alloc_(o.alloc_), p_(o.p_), cap_(o.cap_), n_(o.n_)
    {
        o.p_ = nullptr;
        o.cap_ = 0U;
        o.n_ = 0U;
    }
    NonRelocatableVector& operator=(NonRelocatableVector&& o) noexcept
    {
        if (this != &o)
        {
            release();
            alloc_ = o.alloc_;
            p_ = o.p_;
            cap_ = o.cap_;
            n_ = o.n_;
            o.p_ = nullptr;
            o.cap_ = 0U;
            o.n_ = 0U;
        }
        return *this;
    }
    ~NonRelocatableVector() { release(); }
    template <typename... A>
    reference emplace_back(A&&... a)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(n_ < cap_, "NonRelocatableVector: capacity exceeded");
        Traits::construct(alloc_, raw() + n_, std::forward<A>(a)...);
        ++n_;
        return raw()[n_ - 1U];
    }
    void push_back(ElementType e) { emplace_back(std::move(e)); }
    void pop_back()
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(n_ > 0U);
        --n_;
        Traits::destroy(alloc_, raw() + n_);
    }
    void clear()
    {
        for (size_type i = 0; i < n_; ++i)
        {
            Traits::destroy(alloc_, raw() + i);
        }
        n_ = 0U;
    }
    reference at(size_type i)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i < n_, "NonRelocatableVector::at out of range");
        return raw()[i];
    }
    const_reference at(size_type i) const
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(i < n_, "NonRelocatableVector::at out of range");
        return raw()[i];
    }
    reference operator[](size_type i) { return at(i); }
    const_reference operator[](size_type i) const { return at(i); }
    reference front() { return at(0U); }
    const_reference front() const { return at(0U); }
    reference back() { return at(n_ - 1U); }
    const_reference back() const { return at(n_ - 1U); }
    pointer data() noexcept { return raw(); }
    const_pointer data() const noexcept { return raw(); }
    iterator begin() noexcept { return raw(); }
    iterator end() noexcept { return raw() + n_; }
    const_iterator begin() const noexcept { return raw(); }
    const_iterator end() const noexcept { return raw() + n_; }
    const_iterator cbegin() const noexcept { return raw(); }
    const_iterator cend() const noexcept { return raw() + n_; }
    size_type size() const noexcept { return n_; }
    size_type capacity() const noexcept { return cap_; }
    bool empty() const noexcept { return n_ == 0U; }
    Allocator get_allocator() const { return alloc_; }

  private:
    void release() noexcept
    {
        if (cap_ == 0U)
        {
            return;
        }
        clear();
        Traits::deallocate(alloc_, p_, cap_);
        cap_ = 0U;
        p_ = nullptr;
    }
    ElementType* raw() const noexcept
    {
        if (cap_ == 0U)
        {
            return nullptr;
        }
        return std::addressof(*p_);
    }
    Allocator alloc_;
    Ptr p_{nullptr};
    size_type cap_{0U};
    size_type n_{0U};
};
}  // namespace containers
}  // namespace score
#endif
