#ifndef VERIF_SHIM_EXECUTOR_H
#define VERIF_SHIM_EXECUTOR_H
#include "score/assert.hpp"
#include "score/expected.hpp"
#include "score/jthread.hpp"
#include "score/memory.hpp"
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include <condition_variable>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace score
{
namespace concurrency
{
enum class Error : score::result::ErrorCode
{
    kUnset = 1,
    kStopRequested,
};
class ErrorDomainImpl final : public result::ErrorDomain
{
  public:
    std::string_view MessageFor(const result::ErrorCode&) const noexcept override { return "concurrency error"; }
};
inline result::Error MakeError(const Error c, const std::string_view m = "")
{
    static const ErrorDomainImpl d{};
    return {static_cast<result::ErrorCode>(c), d, m};
}
class Task
{
  public:
    virtual ~Task() = default;
    virtual void operator()(const score::cpp::stop_token t) = 0;
    virtual score::cpp::stop_source GetStopSource() const noexcept { return stop_; }

  protected:
    score::cpp::stop_source stop_{};
};
template <typename F>
class SimpleTask final : public Task
{
  public:
    template <typename G>
    explicit SimpleTask(G&& g) : f_(std::forward<G>(g))
    {
    }
    void operator()(const score::cpp::stop_token t) override { f_(t); }

  private:
    F f_;
};
class SimpleTaskFactory
{
  public:
    template <typename F>
    static score::cpp::pmr::unique_ptr<Task> Make(score::cpp::pmr::memory_resource* mr, F&& f)
    {
        return score::cpp::pmr::make_unique<SimpleTask<std::decay_t<F>>>(mr, std::forward<F>(f));
    }
};
namespace detail_exec
{
template <typename R>
struct Shared
{
    std::mutex m;
    std::condition_variable cv;
    bool ready{false};
    bool aborted{false};
    std::optional<std::conditional_t<std::is_void_v<R>, score::cpp::blank, R>> v;
    score::cpp::stop_source stop;
};
}  // namespace detail_exec
template <typename R>
class TaskResult
{
  public:
    TaskResult() = default;
    explicit TaskResult(std::shared_ptr<detail_exec::Shared<R>> s) : s_(std::move(s)) {}
    TaskResult(TaskResult&&) noexcept = default;
    TaskResult& operator=(TaskResult&& o) noexcept = default;
    bool Valid() const noexcept { return s_ != nullptr; }
    void Abort() noexcept
    {
        if (s_)
        {
            s_->stop.request_stop();
        }
    }
    Result<void> Wait() const noexcept
    {
        if (!s_)
        {
            return MakeUnexpected(Error::kUnset);
        }
        std::unique_lock<std::mutex> l(s_->m);
        s_->cv.wait(l, [this] {
            return s_->ready;
        });
        return {};
    }
    auto Get() noexcept
    {
        (void)Wait();
        if constexpr (std::is_void_v<R>)
        {
            return s_->v ? Result<void>{} : Result<void>{MakeUnexpected(Error::kStopRequested)};
        }
        else
        {
            if constexpr (score::cpp::detail_expected::is_expected<R>::value)
            {
                if (!s_->v)
                {
                    return R{MakeUnexpected(Error::kStopRequested)};
                }
                return std::move(*s_->v);
            }
            else
            {
                return s_->v ? Result<R>{std::move(*s_->v)} : Result<R>{MakeUnexpected(Error::kStopRequested)};
            }
        }
    }

  private:
    std::shared_ptr<detail_exec::Shared<R>> s_;
};
class Executor
{
  public:
    virtual ~Executor() = default;
    virtual std::size_t MaxConcurrencyLevel() const noexcept { return 1U; }
    virtual bool ShutdownRequested() const noexcept = 0;
    virtual void Shutdown() noexcept = 0;
    virtual void Enqueue(score::cpp::pmr::unique_ptr<Task> t) = 0;
    template <typename F, typename... A>
    void Post(F&& f, A&&... a)
    {
        Enqueue(SimpleTaskFactory::Make(
            score::cpp::pmr::get_default_resource(),
            [fn = std::decay_t<F>(std::forward<F>(f)), args = std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)](
                const score::cpp::stop_token& t) mutable {
                std::apply(
                    [&](auto&... x) {
                        fn(t, x...);
                    },
                    args);
            }));
    }
    template <typename F, typename... A>
    auto Submit(F&& f, A&&... a)
    {
        using R = std::invoke_result_t<std::decay_t<F>&, score::cpp::stop_token, std::decay_t<A>&...>;
        auto s = std::make_shared<detail_exec::Shared<R>>();
        // a task that never runs leaves no result
        std::shared_ptr<void> dropped{nullptr, [s](void*) {
                                          std::lock_guard<std::mutex> l(s->m);
                                          s->aborted = !s->ready;
                                          s->ready = true;
                                          s->cv.notify_all();
                                      }};
        auto task = SimpleTaskFactory::Make(
            score::cpp::pmr::get_default_resource(),
            [s, dropped = std::move(dropped), fn = std::decay_t<F>(std::forward<F>(f)), args = std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)](
                const score::cpp::stop_token& outer) mutable {
                score::cpp::stop_callback forward{outer, [&s]() {
                                                      s->stop.request_stop();
                                                  }};
                const auto t = s->stop.get_token();
                std::apply(
                    [&](auto&... x) {
                        if constexpr (std::is_void_v<R>)
                        {
                            fn(t, x...);
                            s->v.emplace();
                        }
                        else
                        {
                            s->v.emplace(fn(t, x...));
                        }
                    },
                    args);
                std::lock_guard<std::mutex> l(s->m);
                s->ready = true;
                s->cv.notify_all();
            });
        Enqueue(std::move(task));
        return TaskResult<R>{s};
    }
};
/// One new thread per task.
class LongRunningThreadsContainer final : public Executor
{
  public:
    LongRunningThreadsContainer() = default;
    explicit LongRunningThreadsContainer(std::string) {}
    ~LongRunningThreadsContainer() override { Shutdown(); }
    bool ShutdownRequested() const noexcept override { return stop_.stop_requested(); }
    void Shutdown() noexcept override
    {
        stop_.request_stop();
        std::list<std::thread> t;
        {
            std::lock_guard<std::mutex> l(m_);
            t.swap(threads_);
        }
        for (auto& x : t)
        {
            if (x.get_id() == std::this_thread::get_id())
            {
                x.detach();
            }
            else
            {
                x.join();
            }
        }
    }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override
    {
        std::lock_guard<std::mutex> l(m_);
        if (stop_.stop_requested())
        {
            return;
        }
        threads_.emplace_back([task = std::move(t), token = stop_.get_token()]() mutable {
            (*task)(token);
        });
    }

  private:
    std::mutex m_;
    score::cpp::stop_source stop_;
    std::list<std::thread> threads_;
};
/// Fixed number of workers, first in first out.
class ThreadPool final : public Executor
{
  public:
    explicit ThreadPool(std::size_t n, const std::string& = "")
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            threads_.emplace_back([this] {
                Work();
            });
        }
    }
    ~ThreadPool() override { Shutdown(); }
    std::size_t MaxConcurrencyLevel() const noexcept override { return threads_.size(); }
    bool ShutdownRequested() const noexcept override { return stop_.stop_requested(); }
    void Shutdown() noexcept override
    {
        stop_.request_stop();
        {
            std::lock_guard<std::mutex> l(m_);
            closed_ = true;
        }
        cv_.notify_all();
        for (auto& t : threads_)
        {
            if (t.joinable())
            {
                t.join();
            }
        }
    }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override
    {
        {
            std::lock_guard<std::mutex> l(m_);
            if (closed_)
            {
                return;
            }
            q_.push_back(std::move(t));
        }
        cv_.notify_one();
    }

  private:
    void Work()
    {
        for (;;)
        {
            std::unique_lock<std::mutex> l(m_);
            cv_.wait(l, [this] {
                return closed_ || !q_.empty();
            });
            if (closed_)
            {
                return;
            }
            auto t = std::move(q_.front());
            q_.pop_front();
            l.unlock();
            (*t)(stop_.get_token());
        }
    }
    std::mutex m_;
    std::condition_variable cv_;
    bool closed_{false};
    std::list<score::cpp::pmr::unique_ptr<Task>> q_;
    score::cpp::stop_source stop_;
    std::vector<std::thread> threads_;
};
}  // namespace concurrency
}  // namespace score
#endif
