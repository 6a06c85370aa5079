#ifndef VERIF_SHIM_JTHREAD_HPP
#define VERIF_SHIM_JTHREAD_HPP
#include "score/stop_token.hpp"
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
namespace score
{
namespace cpp
{
class jthread
{
  public:
    class name_hint
    {
      public:
        explicit name_hint(std::string s) : s_(std::move(s)) {}
        const std::string& str() const { return s_; }

      private:
        std::string s_;
    };
    class stack_size_hint
    {
      public:
        explicit stack_size_hint(std::size_t s) : s_(s) {}

      private:
        std::size_t s_;
    };
    using id = std::thread::id;
    jthread() noexcept : src_(nostopstate) {}
    template <typename F, typename... A,
              typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, jthread> && !std::is_same_v<std::decay_t<F>, name_hint> &&
                                          !std::is_same_v<std::decay_t<F>, stack_size_hint>>>
    explicit jthread(F&& f, A&&... a)
    {
        start(std::forward<F>(f), std::forward<A>(a)...);
    }
    template <typename F, typename... A>
    jthread(const name_hint&, F&& f, A&&... a)
    {
        start(std::forward<F>(f), std::forward<A>(a)...);
    }
    template <typename F, typename... A>
    jthread(const stack_size_hint&, const name_hint&, F&& f, A&&... a)
    {
        start(std::forward<F>(f), std::forward<A>(a)...);
    }
    jthread(jthread&&) noexcept = default;
    jthread& operator=(jthread&& o) noexcept
    {
        stop();
        src_ = std::move(o.src_);
        t_ = std::move(o.t_);
        return *this;
    }
    ~jthread() { stop(); }
    bool joinable() const noexcept { return t_.joinable(); }
    void join() { t_.join(); }
    void detach() { t_.detach(); }
    id get_id() const noexcept { return t_.get_id(); }
    auto native_handle() { return t_.native_handle(); }
    stop_source get_stop_source() noexcept { return src_; }
    stop_token get_stop_token() const noexcept { return src_.get_token(); }
    bool request_stop() noexcept { return src_.request_stop(); }

  private:
    void stop()
    {
        if (t_.joinable())
        {
            src_.request_stop();
            t_.join();
        }
    }
    template <typename F, typename... A>
    void start(F&& f, A&&... a)
    {
        if constexpr (std::is_invocable_v<std::decay_t<F>, stop_token, std::decay_t<A>...>)
        {
            t_ = std::thread(std::forward<F>(f), src_.get_token(), std::forward<A>(a)...);
        }
        else
        {
            t_ = std::thread(std::forward<F>(f), std::forward<A>(a)...);
        }
    }
    stop_source src_;
    std::thread t_;
};
}  // namespace cpp
}  // namespace score
#endif
