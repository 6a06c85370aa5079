// A second process of a case: serves commands over a socket pair and can be killed like a crashed application.
#pragma once
#include "e2e.h"

#include <csignal>
#include <functional>

#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

namespace e2e
{
class Remote
{
  public:
    using Serve = std::function<std::uint64_t(char op, std::uint64_t a, std::uint64_t b)>;
    struct Cmd
    {
        char op;
        std::uint64_t a, b;
    };
    /// make runs in the child when the first command arrives. Must be created before this process starts threads.
    explicit Remote(const std::function<Serve()>& make)
    {
        int sp[2];
        if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0)
        {
            return;
        }
        pid_ = ::fork();
        if (pid_ == 0)
        {
            ::close(sp[0]);
            Serve serve;
            Cmd c;
            while (::read(sp[1], &c, sizeof c) == static_cast<ssize_t>(sizeof c))
            {
                if (!serve)
                {
                    serve = make();
                }
                const std::uint64_t r = serve(c.op, c.a, c.b);
                if (::write(sp[1], &r, sizeof r) != static_cast<ssize_t>(sizeof r))
                {
                    break;
                }
            }
            ::_exit(0);
        }
        ::close(sp[1]);
        fd_ = sp[0];
        alive_ = true;
    }
    Remote(const Remote&) = delete;
    Remote& operator=(const Remote&) = delete;
    ~Remote() { Kill(); }

    void Post(char op, std::uint64_t a = 0, std::uint64_t b = 0)
    {
        const Cmd c{op, a, b};
        if (::write(fd_, &c, sizeof c) != static_cast<ssize_t>(sizeof c))
        {
            lost_ = true;
        }
    }
    std::uint64_t Wait()
    {
        std::uint64_t r{0};
        if (::read(fd_, &r, sizeof r) != static_cast<ssize_t>(sizeof r))
        {
            lost_ = true;
        }
        return r;
    }
    std::uint64_t Do(char op, std::uint64_t a = 0, std::uint64_t b = 0)
    {
        Post(op, a, b);
        return Wait();
    }
    void Kill()
    {
        if (alive_)
        {
            ::kill(pid_, SIGKILL);
            Reap();
        }
    }
    /// For a child that ends by itself. Returns its wait status.
    int Reap()
    {
        int st{0};
        ::waitpid(pid_, &st, 0);
        ::close(fd_);
        alive_ = false;
        return st;
    }
    bool Alive() const { return alive_; }
    /// The process ended although nobody killed it.
    bool Lost() const { return lost_; }
    pid_t Pid() const { return pid_; }

  private:
    pid_t pid_{-1};
    int fd_{-1};
    bool alive_{false};
    bool lost_{false};
};
}  // namespace e2e
