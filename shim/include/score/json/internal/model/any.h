#ifndef VERIF_SHIM_JSON_ANY_H
#define VERIF_SHIM_JSON_ANY_H
#include "score/result/result.h"
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace score
{
namespace json
{
enum class Error : score::result::ErrorCode
{
    kUnknownError = 1,
    kInvalidFilePath,
    kParsingError,
    kKeyNotFound,
    kWrongType
};
class JsonErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "json error"; }
};
inline score::result::Error MakeError(const Error code, const std::string_view user_message = "") noexcept
{
    static const JsonErrorDomain* const domain = new JsonErrorDomain{};
    return {static_cast<score::result::ErrorCode>(code), *domain, user_message};
}
class Null
{
};
class Key
{
  public:
    Key(const char* s) : s_(s) {}
    Key(std::string s) : s_(std::move(s)) {}
    Key(std::string_view s) : s_(s) {}
    std::string_view GetAsStringView() const noexcept { return s_; }
    friend bool operator<(const Key& a, const Key& b) { return a.s_ < b.s_; }
    friend bool operator==(const Key& a, const Key& b) { return a.s_ == b.s_; }

  private:
    std::string s_;
};
class Any;
class Object
{
    using Map = std::map<Key, Any>;

  public:
    using value_type = std::pair<const Key, Any>;
    using iterator = std::map<Key, Any>::iterator;
    using const_iterator = std::map<Key, Any>::const_iterator;
    Object();
    ~Object();
    Object(const Object&);
    Object(Object&&) noexcept;
    Object& operator=(const Object&);
    Object& operator=(Object&&) noexcept;
    Any& operator[](const Key& k);
    iterator find(const Key& k);
    const_iterator find(const Key& k) const;
    iterator begin();
    iterator end();
    const_iterator begin() const;
    const_iterator end() const;
    const_iterator cbegin() const;
    const_iterator cend() const;
    std::size_t size() const;
    bool empty() const;
    template <typename P>
    std::pair<iterator, bool> insert(P&& p);
    std::size_t erase(const Key& k);
    void clear();

  private:
    std::unique_ptr<Map> m_;
};
class List
{
  public:
    using value_type = Any;
    using iterator = std::vector<Any>::iterator;
    using const_iterator = std::vector<Any>::const_iterator;
    List();
    ~List();
    List(const List&);
    List(List&&) noexcept;
    List& operator=(const List&);
    List& operator=(List&&) noexcept;
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    List(It b, It e);
    template <typename... A>
    Any& emplace_back(A&&... a);
    void push_back(Any a);
    iterator begin();
    iterator end();
    const_iterator begin() const;
    const_iterator end() const;
    const_iterator cbegin() const;
    const_iterator cend() const;
    std::size_t size() const;
    bool empty() const;
    Any& operator[](std::size_t i);
    const Any& operator[](std::size_t i) const;

  private:
    std::unique_ptr<std::vector<Any>> v_;
};
class Any
{
    using Var = std::variant<std::nullptr_t, bool, std::int64_t, std::uint64_t, double, std::string, Object, List>;

  public:
    Any() : v_(nullptr) {}
    Any(Null) : v_(nullptr) {}
    explicit Any(bool b) : v_(b) {}
    template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>>, typename = void>
    explicit Any(T t)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            v_ = static_cast<double>(t);
        }
        else if constexpr (std::is_signed_v<T>)
        {
            v_ = static_cast<std::int64_t>(t);
        }
        else
        {
            v_ = static_cast<std::uint64_t>(t);
        }
    }
    explicit Any(std::string s) : v_(std::move(s)) {}
    explicit Any(std::string_view s) : v_(std::string{s}) {}
    explicit Any(const char* s) : v_(std::string{s}) {}
    Any(Object o) : v_(std::move(o)) {}
    Any(List o) : v_(std::move(o)) {}
    Any& operator=(bool b)
    {
        v_ = b;
        return *this;
    }
    template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>>>
    Any& operator=(T t)
    {
        return *this = Any{t};
    }
    Any CloneByValue() const { return *this; }

    template <typename T>
    auto As() const
    {
        using U = std::remove_cv_t<T>;
        if constexpr (std::is_same_v<U, std::string> || std::is_same_v<U, Object> || std::is_same_v<U, List>)
        {
            using R = score::Result<std::reference_wrapper<const U>>;
            if (const auto* p = std::get_if<U>(&v_))
            {
                return R{std::cref(*p)};
            }
            return R{MakeUnexpected(Error::kWrongType)};
        }
        else if constexpr (std::is_same_v<U, std::string_view>)
        {
            using R = score::Result<std::string_view>;
            if (const auto* p = std::get_if<std::string>(&v_))
            {
                return R{std::string_view{*p}};
            }
            return R{MakeUnexpected(Error::kWrongType)};
        }
        else if constexpr (std::is_same_v<U, bool>)
        {
            using R = score::Result<bool>;
            if (const auto* p = std::get_if<bool>(&v_))
            {
                return R{*p};
            }
            return R{MakeUnexpected(Error::kWrongType)};
        }
        else
        {
            static_assert(std::is_arithmetic_v<U>);
            using R = score::Result<U>;
            const auto bad = [] { return R{MakeUnexpected(Error::kWrongType)}; };
            if constexpr (std::is_floating_point_v<U>)
            {
                if (const auto* d = std::get_if<double>(&v_))
                {
                    return R{static_cast<U>(*d)};
                }
                if (const auto* i = std::get_if<std::int64_t>(&v_))
                {
                    return R{static_cast<U>(*i)};
                }
                if (const auto* u = std::get_if<std::uint64_t>(&v_))
                {
                    return R{static_cast<U>(*u)};
                }
                return bad();
            }
            else
            {
                if (const auto* i = std::get_if<std::int64_t>(&v_))
                {
                    if constexpr (std::is_signed_v<U>)
                    {
                        if (*i >= static_cast<std::int64_t>(std::numeric_limits<U>::min()) &&
                            *i <= static_cast<std::int64_t>(std::numeric_limits<U>::max()))
                        {
                            return R{static_cast<U>(*i)};
                        }
                    }
                    else if (*i >= 0 && static_cast<std::uint64_t>(*i) <= std::numeric_limits<U>::max())
                    {
                        return R{static_cast<U>(*i)};
                    }
                    return bad();
                }
                if (const auto* u = std::get_if<std::uint64_t>(&v_))
                {
                    if (*u <= static_cast<std::uint64_t>(std::numeric_limits<U>::max()))
                    {
                        return R{static_cast<U>(*u)};
                    }
                }
                return bad();
            }
        }
    }
    template <typename T>
    auto As()
    {
        using U = std::remove_cv_t<T>;
        if constexpr (std::is_same_v<U, std::string> || std::is_same_v<U, Object> || std::is_same_v<U, List>)
        {
            using R = score::Result<std::reference_wrapper<U>>;
            if (auto* p = std::get_if<U>(&v_))
            {
                return R{std::ref(*p)};
            }
            return R{MakeUnexpected(Error::kWrongType)};
        }
        else
        {
            return std::as_const(*this).template As<T>();
        }
    }
    const Var& raw() const { return v_; }

  private:
    Var v_;
};
inline Object::Object() : m_(std::make_unique<Map>()) {}
inline Object::~Object() = default;
inline Object::Object(const Object& o) : m_(std::make_unique<Map>(*o.m_)) {}
inline Object::Object(Object&& o) noexcept : m_(std::make_unique<Map>(std::move(*o.m_))) {}
inline Object& Object::operator=(const Object& o)
{
    *m_ = Map(*o.m_);
    return *this;
}
inline Object& Object::operator=(Object&& o) noexcept
{
    Map t(std::move(*o.m_));
    *m_ = std::move(t);
    return *this;
}
inline Any& Object::operator[](const Key& k) { return (*m_)[k]; }
inline Object::iterator Object::find(const Key& k) { return m_->find(k); }
inline Object::const_iterator Object::find(const Key& k) const { return std::as_const(*m_).find(k); }
inline Object::iterator Object::begin() { return m_->begin(); }
inline Object::iterator Object::end() { return m_->end(); }
inline Object::const_iterator Object::begin() const { return m_->cbegin(); }
inline Object::const_iterator Object::end() const { return m_->cend(); }
inline Object::const_iterator Object::cbegin() const { return m_->cbegin(); }
inline Object::const_iterator Object::cend() const { return m_->cend(); }
inline std::size_t Object::size() const { return m_->size(); }
inline bool Object::empty() const { return m_->empty(); }
template <typename P>
std::pair<Object::iterator, bool> Object::insert(P&& p)
{
    return m_->emplace(Key{std::forward<P>(p).first}, Any(std::forward<P>(p).second));
}
inline std::size_t Object::erase(const Key& k) { return m_->erase(k); }
inline void Object::clear() { m_->clear(); }
inline List::List() : v_(std::make_unique<std::vector<Any>>()) {}
inline List::~List() = default;
inline List::List(const List& o) : v_(std::make_unique<std::vector<Any>>(*o.v_)) {}
inline List::List(List&& o) noexcept : v_(std::make_unique<std::vector<Any>>(std::move(*o.v_))) {}
inline List& List::operator=(const List& o)
{
    *v_ = std::vector<Any>(*o.v_);
    return *this;
}
inline List& List::operator=(List&& o) noexcept
{
    std::vector<Any> t(std::move(*o.v_));
    *v_ = std::move(t);
    return *this;
}
template <typename It, typename>
List::List(It b, It e) : List()
{
    for (; b != e; ++b)
    {
        v_->push_back(Any(*b));
    }
}
template <typename... A>
Any& List::emplace_back(A&&... a)
{
    return v_->emplace_back(std::forward<A>(a)...);
}
inline void List::push_back(Any a) { v_->push_back(std::move(a)); }
inline List::iterator List::begin() { return v_->begin(); }
inline List::iterator List::end() { return v_->end(); }
inline List::const_iterator List::begin() const { return v_->cbegin(); }
inline List::const_iterator List::end() const { return v_->cend(); }
inline List::const_iterator List::cbegin() const { return v_->cbegin(); }
inline List::const_iterator List::cend() const { return v_->cend(); }
inline std::size_t List::size() const { return v_->size(); }
inline bool List::empty() const { return v_->empty(); }
inline Any& List::operator[](std::size_t i) { return (*v_)[i]; }
inline const Any& List::operator[](std::size_t i) const { return (*v_)[i]; }
}  // namespace json
}  // namespace score
#endif
