#ifndef VERIF_SHIM_INTERRUPTIBLE_FUTURE_H
#define VERIF_SHIM_INTERRUPTIBLE_FUTURE_H
#include "score/concurrency/executor.h"
namespace score
{
namespace concurrency
{
template <typename T>
class InterruptiblePromise;
template <typename T>
class InterruptibleFuture
{
  public:
    InterruptibleFuture() = default;
    bool Valid() const noexcept { return s_ != nullptr; }
    Result<T> Get(const score::cpp::stop_token&)
    {
        std::unique_lock<std::mutex> l(s_->m);
        s_->cv.wait(l, [this] {
            return s_->ready;
        });
        return Result<T>{std::move(*s_->v)};
    }

  private:
    friend class InterruptiblePromise<T>;
    explicit InterruptibleFuture(std::shared_ptr<detail_exec::Shared<T>> s) : s_(std::move(s)) {}
    std::shared_ptr<detail_exec::Shared<T>> s_;
};
template <typename T>
class InterruptiblePromise
{
  public:
    Result<InterruptibleFuture<T>> GetInterruptibleFuture() { return InterruptibleFuture<T>{s_}; }
    Result<void> SetValue(T v)
    {
        std::lock_guard<std::mutex> l(s_->m);
        s_->v.emplace(std::move(v));
        s_->ready = true;
        s_->cv.notify_all();
        return {};
    }

  private:
    std::shared_ptr<detail_exec::Shared<T>> s_{std::make_shared<detail_exec::Shared<T>>()};
};
}  // namespace concurrency
}  // namespace score
#endif
