#ifndef VERIF_SHIM_NOTIFICATION_H
#define VERIF_SHIM_NOTIFICATION_H
#include "score/stop_token.hpp"
#include <chrono>
#include <condition_variable>
#include <mutex>
namespace score
{
namespace concurrency
{
class Notification
{
  public:
    void notify() noexcept
    {
        std::lock_guard<std::mutex> l(m_);
        n_ = true;
        cv_.notify_all();
    }
    void reset() noexcept
    {
        std::lock_guard<std::mutex> l(m_);
        n_ = false;
    }
    bool check() noexcept
    {
        std::lock_guard<std::mutex> l(m_);
        return n_;
    }
    bool waitWithAbort(const score::cpp::stop_token& t) noexcept
    {
        score::cpp::stop_callback c{t, [this]() {
                                        std::lock_guard<std::mutex> l(m_);
                                        cv_.notify_all();
                                    }};
        std::unique_lock<std::mutex> l(m_);
        while (!n_)
        {
            l.unlock();
            if (t.stop_requested())
            {
                return false;
            }
            l.lock();
            cv_.wait_for(l, std::chrono::milliseconds(20));
        }
        return true;
    }
    template <typename R, typename P>
    bool waitForWithAbort(const std::chrono::duration<R, P> d, const score::cpp::stop_token& t) noexcept
    {
        std::unique_lock<std::mutex> l(m_);
        const auto until = std::chrono::steady_clock::now() + d;
        while (!n_ && std::chrono::steady_clock::now() < until)
        {
            l.unlock();
            if (t.stop_requested())
            {
                return false;
            }
            l.lock();
            cv_.wait_for(l, std::chrono::milliseconds(5));
        }
        return n_;
    }

  private:
    std::mutex m_;
    std::condition_variable cv_;
    bool n_{false};
};
}  // namespace concurrency
}  // namespace score
#endif
