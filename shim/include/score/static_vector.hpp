#ifndef VERIF_SHIM_STATIC_VECTOR_HPP
#define VERIF_SHIM_STATIC_VECTOR_HPP
#include "score/assert.hpp"
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>
namespace score
{
namespace cpp
{
template <typename T, std::size_t N>
class static_vector
{
    std::vector<T> v_;

  public:
    using value_type = T;
    using size_type = std::size_t;
    using iterator = typename std::vector<T>::iterator;
    using const_iterator = typename std::vector<T>::const_iterator;
    static_vector() { v_.reserve(N); }
    static_vector(std::initializer_list<T> l) : v_(l) { v_.reserve(N); }
    template <typename It>
    static_vector(It a, It b) : v_(a, b)
    {
    }
    iterator begin() { return v_.begin(); }
    iterator end() { return v_.end(); }
    const_iterator begin() const { return v_.begin(); }
    const_iterator end() const { return v_.end(); }
    const_iterator cbegin() const { return v_.begin(); }
    const_iterator cend() const { return v_.end(); }
    std::size_t size() const { return v_.size(); }
    static constexpr std::size_t capacity() { return N; }
    static constexpr std::size_t max_size() { return N; }
    bool empty() const { return v_.empty(); }
    void push_back(T t)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(v_.size() < N);
        v_.push_back(std::move(t));
    }
    template <typename... A>
    T& emplace_back(A&&... a)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(v_.size() < N);
        return v_.emplace_back(std::forward<A>(a)...);
    }
    void pop_back() { v_.pop_back(); }
    void clear() { v_.clear(); }
    T& operator[](std::size_t i) { return v_[i]; }
    const T& operator[](std::size_t i) const { return v_[i]; }
    T& at(std::size_t i) { return v_.at(i); }
    const T& at(std::size_t i) const { return v_.at(i); }
    T& front() { return v_.front(); }
    T& back() { return v_.back(); }
    T* data() { return v_.data(); }
    const T* data() const { return v_.data(); }
};
}  // namespace cpp
}  // namespace score
#endif
