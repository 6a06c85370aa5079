#ifndef VERIF_SHIM_STOP_TOKEN_HPP
#define VERIF_SHIM_STOP_TOKEN_HPP
#include "score/callback.hpp"
#include <atomic>
#include <condition_variable>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
namespace score
{
namespace cpp
{
namespace detail_stop
{
struct Entry
{
    std::function<void()> f;
};
struct State
{
    std::mutex m;
    std::condition_variable cv;
    bool requested{false};
    std::list<std::shared_ptr<Entry>> entries;
    std::shared_ptr<Entry> running;
    std::thread::id runner;
    std::atomic<long> sources{0};
};
}  // namespace detail_stop
struct nostopstate_t
{
    explicit nostopstate_t() = default;
};
inline constexpr nostopstate_t nostopstate{};
class stop_token
{
  public:
    stop_token() noexcept = default;
    bool stop_requested() const noexcept
    {
        if (!s_)
        {
            return false;
        }
        std::lock_guard<std::mutex> l(s_->m);
        return s_->requested;
    }
    bool stop_possible() const noexcept { return s_ != nullptr && (stop_requested() || s_->sources.load() > 0); }
    void swap(stop_token& o) noexcept { s_.swap(o.s_); }
    friend bool operator==(const stop_token& a, const stop_token& b) noexcept { return a.s_ == b.s_; }
    friend bool operator!=(const stop_token& a, const stop_token& b) noexcept { return a.s_ != b.s_; }

  private:
    friend class stop_source;
    friend class stop_callback;
    explicit stop_token(std::shared_ptr<detail_stop::State> s) : s_(std::move(s)) {}
    std::shared_ptr<detail_stop::State> s_;
};
class stop_source
{
  public:
    stop_source() : s_(std::make_shared<detail_stop::State>()) { ++s_->sources; }
    explicit stop_source(nostopstate_t) noexcept {}
    stop_source(const stop_source& o) noexcept : s_(o.s_)
    {
        if (s_)
        {
            ++s_->sources;
        }
    }
    stop_source(stop_source&&) noexcept = default;
    stop_source& operator=(stop_source o) noexcept
    {
        s_.swap(o.s_);
        return *this;
    }
    ~stop_source()
    {
        if (s_)
        {
            --s_->sources;
        }
    }
    stop_token get_token() const noexcept { return stop_token{s_}; }
    bool stop_requested() const noexcept { return get_token().stop_requested(); }
    bool stop_possible() const noexcept { return s_ != nullptr; }
    bool request_stop() noexcept
    {
        if (!s_)
        {
            return false;
        }
        std::unique_lock<std::mutex> l(s_->m);
        if (s_->requested)
        {
            return false;
        }
        s_->requested = true;
        s_->runner = std::this_thread::get_id();
        auto keep = s_;
        while (!keep->entries.empty())
        {
            keep->running = keep->entries.front();
            keep->entries.pop_front();
            auto run = keep->running;
            l.unlock();
            run->f();
            l.lock();
            keep->running.reset();
            keep->cv.notify_all();
        }
        return true;
    }

  private:
    std::shared_ptr<detail_stop::State> s_;
};
class stop_callback
{
  public:
    template <typename F>
    stop_callback(const stop_token& t, F&& f) : s_(t.s_)
    {
        if (!s_)
        {
            return;
        }
        auto fn = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
        e_ = std::make_shared<detail_stop::Entry>();
        e_->f = [fn]() {
            (*fn)();
        };
        std::unique_lock<std::mutex> l(s_->m);
        if (s_->requested)
        {
            l.unlock();
            e_->f();
            e_.reset();
            return;
        }
        s_->entries.push_back(e_);
    }
    stop_callback(const stop_callback&) = delete;
    stop_callback& operator=(const stop_callback&) = delete;
    ~stop_callback()
    {
        if (!s_ || !e_)
        {
            return;
        }
        std::unique_lock<std::mutex> l(s_->m);
        s_->entries.remove(e_);
        if (s_->running == e_ && s_->runner != std::this_thread::get_id())
        {
            s_->cv.wait(l, [this] {
                return s_->running != e_;
            });
        }
    }

  private:
    std::shared_ptr<detail_stop::State> s_;
    std::shared_ptr<detail_stop::Entry> e_;
};
}  // namespace cpp
}  // namespace score
#endif
