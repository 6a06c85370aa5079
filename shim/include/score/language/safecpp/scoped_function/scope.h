#ifndef VERIF_SHIM_SCOPE_H
#define VERIF_SHIM_SCOPE_H
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
namespace score
{
namespace safecpp
{
namespace detail_scope
{
struct State
{
    std::mutex m;
    std::condition_variable cv;
    bool expired{false};
    std::map<std::thread::id, int> running;
    bool Enter()
    {
        std::lock_guard<std::mutex> l(m);
        if (expired)
        {
            return false;
        }
        ++running[std::this_thread::get_id()];
        return true;
    }
    void Leave()
    {
        std::lock_guard<std::mutex> l(m);
        auto it = running.find(std::this_thread::get_id());
        if (--it->second == 0)
        {
            running.erase(it);
        }
        cv.notify_all();
    }
    void Expire()
    {
        std::unique_lock<std::mutex> l(m);
        expired = true;
        cv.wait(l, [this] {
            return running.empty() || (running.size() == 1U && running.begin()->first == std::this_thread::get_id());
        });
    }
};
class Running
{
  public:
    explicit Running(const std::shared_ptr<State>& s) : s_(s), ok_(s_ != nullptr && s_->Enter()) {}
    ~Running()
    {
        if (ok_)
        {
            s_->Leave();
        }
    }
    Running(const Running&) = delete;
    Running& operator=(const Running&) = delete;
    explicit operator bool() const { return ok_; }

  private:
    std::shared_ptr<State> s_;
    bool ok_;
};
}  // namespace detail_scope
/// After Expire() returned, no function bound to this scope is running or will run.
template <typename... T>
class Scope
{
  public:
    Scope() : s_(std::make_shared<detail_scope::State>()) {}
    ~Scope() { Expire(); }
    Scope(const Scope&) = delete;
    Scope& operator=(const Scope&) = delete;
    Scope(Scope&& o) noexcept : s_(std::move(o.s_)) {}
    Scope& operator=(Scope&& o) noexcept
    {
        Expire();
        s_ = std::move(o.s_);
        return *this;
    }
    void Expire() noexcept
    {
        if (s_)
        {
            s_->Expire();
        }
    }
    bool HasExpired() const
    {
        std::lock_guard<std::mutex> l(s_->m);
        return s_->expired;
    }
    const std::shared_ptr<detail_scope::State>& VerifState() const { return s_; }

  private:
    std::shared_ptr<detail_scope::State> s_;
};
}  // namespace safecpp
}  // namespace score
#endif
