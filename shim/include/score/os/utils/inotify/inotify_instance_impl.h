#ifndef VERIF_SHIM_INOTIFY_INSTANCE_IMPL_H
#define VERIF_SHIM_INOTIFY_INSTANCE_IMPL_H
#include "score/os/unistd.h"
#include "score/os/utils/inotify/inotify_instance.h"
#include "score/os/verif_os.h"
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/inotify.h>
#include <unistd.h>
#include <atomic>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <vector>
namespace verif_shim
{
/// Lets a harness decide when, and in batches of which size, the events of the file system reach the code under test.
class InotifyControl
{
  public:
    static InotifyControl& Get()
    {
        static InotifyControl* c = new InotifyControl{};
        return *c;
    }
    /// While set, events are collected but not delivered, except for what Release lets through.
    std::atomic<bool> hold{false};
    /// Largest batch delivered by one Read when not held (0: as many as there are).
    std::atomic<unsigned> max_batch{0U};
    std::atomic<int> poll_ms{-1};
    /// While held: let the next n pending events through as one batch. Waits until the reader took them.
    bool Release(const unsigned n)
    {
        credit_.store(n);
        for (int i = 0; i < 20000 && credit_.load() != 0U; ++i)
        {
            ::usleep(500);
        }
        return credit_.exchange(0U) == 0U;
    }
    /// Number of events collected and not delivered; waits for the reader to be idle. -1: never idle.
    long Pending(const double timeout_s = 20.0)
    {
        for (double t = 0; t < timeout_s; t += 0.0002)
        {
            long sum{0};
            bool idle{true};
            {
                std::lock_guard<std::mutex> l{m_};
                for (auto& i : instances_)
                {
                    const long n = i.second();
                    idle = idle && n >= 0;
                    sum += n;
                }
            }
            if (idle && (sum == 0 || hold.load()))
            {
                return sum;
            }
            ::usleep(200);
        }
        return -1;
    }
    /// Waits until everything that happened in the file system so far was handled.
    bool Drain(const double timeout_s = 20.0) { return Pending(timeout_s) == 0; }
    std::size_t Take(const std::size_t pending)
    {
        const auto c = credit_.load();
        if (c == 0U || pending == 0U)
        {
            return 0U;
        }
        credit_.store(0U);
        return c;
    }
    void Add(const void* who, std::function<long()> f)
    {
        std::lock_guard<std::mutex> l{m_};
        instances_[who] = std::move(f);
    }
    void Remove(const void* who)
    {
        std::lock_guard<std::mutex> l{m_};
        instances_.erase(who);
    }

  private:
    std::mutex m_;
    std::map<const void*, std::function<long()>> instances_;
    std::atomic<unsigned> credit_{0U};
};
}  // namespace verif_shim
namespace score
{
namespace os
{
class InotifyInstanceImpl : public InotifyInstance
{
  public:
    InotifyInstanceImpl()
    {
        fd_ = ::inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
        if (::pipe2(p_, O_CLOEXEC) != 0)
        {
            p_[0] = p_[1] = -1;
        }
        ::verif_shim::InotifyControl::Get().Add(this, [this]() -> long {
            std::lock_guard<std::mutex> l{m_};
            int unread{0};
            (void)::ioctl(fd_, FIONREAD, &unread);
            return (idle_ && unread == 0) ? static_cast<long>(pending_.size()) : -1;
        });
    }
    ~InotifyInstanceImpl() override
    {
        ::verif_shim::InotifyControl::Get().Remove(this);
        ::close(fd_);
        ::close(p_[0]);
        ::close(p_[1]);
    }
    score::cpp::expected_blank<Error> IsValid() const noexcept override { return VerifBlank(fd_); }
    void Close() noexcept override
    {
        if (!closed_.exchange(true))
        {
            const char c = 'x';
            (void)!::write(p_[1], &c, 1U);
        }
    }
    score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view p, Inotify::EventMask m) noexcept override
    {
        VERIF_SHIM_FAULT_("inotify_add_watch", std::string{p});
        const int w = ::inotify_add_watch(fd_, ::verif_shim::OsControl::Get().Map(std::string{p}).c_str(), static_cast<std::uint32_t>(m));
        if (w < 0)
        {
            return score::cpp::make_unexpected(Error::createFromErrno());
        }
        return InotifyWatchDescriptor{w};
    }
    score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor w) noexcept override
    {
        return VerifBlank(::inotify_rm_watch(fd_, w.GetUnderlying()));
    }
    score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override
    {
        auto& control = ::verif_shim::InotifyControl::Get();
        score::cpp::static_vector<InotifyEvent, max_events> out{};
        SetIdle(true);
        for (;;)
        {
            int wait_ms{0};
            {
                std::lock_guard<std::mutex> l{m_};
                std::size_t allow = max_events;
                if (control.hold.load())
                {
                    allow = control.Take(pending_.size());
                }
                else if (control.max_batch.load() != 0U)
                {
                    allow = control.max_batch.load();
                }
                while (!pending_.empty() && out.size() < max_events && out.size() < allow)
                {
                    out.push_back(pending_.front());
                    pending_.pop_front();
                }
                if (!out.empty())
                {
                    idle_ = false;
                    return out;
                }
                wait_ms = pending_.empty() ? control.poll_ms.load() : 1;
            }
            struct pollfd f[2] = {{fd_, POLLIN, 0}, {p_[0], POLLIN, 0}};
            if (closed_)
            {
                SetIdle(false);
                return score::cpp::make_unexpected(Error::createFromErrno(EINTR));
            }
            (void)::poll(f, 2, wait_ms);
            if ((f[1].revents & POLLIN) != 0)
            {
                SetIdle(false);
                return score::cpp::make_unexpected(Error::createFromErrno(EINTR));
            }
            std::lock_guard<std::mutex> l{m_};
            alignas(struct inotify_event) char buf[16384];
            const ssize_t n = ::read(fd_, buf, sizeof(buf));
            if (n < 0)
            {
                if (errno == EAGAIN || errno == EINTR)
                {
                    continue;
                }
                idle_ = false;
                return score::cpp::make_unexpected(Error::createFromErrno());
            }
            for (ssize_t i = 0; i < n;)
            {
                const auto* e = reinterpret_cast<const struct inotify_event*>(buf + i);
                pending_.emplace_back(InotifyWatchDescriptor{e->wd},
                                      static_cast<InotifyEvent::ReadMask>(e->mask),
                                      e->cookie,
                                      e->len > 0U ? std::string{e->name} : std::string{});
                i += static_cast<ssize_t>(sizeof(struct inotify_event) + e->len);
            }
        }
    }

  private:
    int fd_{-1};
    int p_[2]{-1, -1};
    std::atomic<bool> closed_{false};
    void SetIdle(const bool idle)
    {
        std::lock_guard<std::mutex> l{m_};
        idle_ = idle;
    }
    std::mutex m_;
    bool idle_{false};
    std::deque<InotifyEvent> pending_;
};
}  // namespace os
}  // namespace score
#endif
