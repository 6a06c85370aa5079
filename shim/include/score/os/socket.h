#ifndef VERIF_SHIM_SOCKET_H
#define VERIF_SHIM_SOCKET_H
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/errno.h"
#include "score/os/verif_enum.h"
#include "score/os/verif_os.h"
#include <cstring>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/un.h>
namespace score
{
namespace os
{
namespace internal
{
class SocketImpl;
}
class Socket : public ObjectSeam<Socket, internal::SocketImpl>
{
  public:
    enum class Domain : std::int32_t
    {
        kIPv4 = AF_INET,
        kIPv6 = AF_INET6,
        kUnix = AF_UNIX,
    };
    enum class MessageFlag : std::int32_t
    {
        kNone = 0,
        kWaitAll = MSG_WAITALL,
        kNoSignal = MSG_NOSIGNAL,
        kDontWait = MSG_DONTWAIT,
        kPeek = MSG_PEEK,
    };
    virtual ~Socket() = default;
    static std::unique_ptr<Socket> Default() noexcept;
    static score::cpp::pmr::unique_ptr<Socket> Default(score::cpp::pmr::memory_resource* mr) noexcept;
    virtual score::cpp::expected<std::int32_t, Error> socket(Domain d, std::int32_t t, std::int32_t p) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> bind(std::int32_t s, const struct sockaddr* a, socklen_t l) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> listen(std::int32_t s, std::int32_t b) const noexcept = 0;
    virtual score::cpp::expected<std::int32_t, Error> accept(std::int32_t s, struct sockaddr* a, socklen_t* l) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> connect(std::int32_t s, const struct sockaddr* a, socklen_t l) const noexcept = 0;
    virtual score::cpp::expected_blank<Error> setsockopt(std::int32_t s, std::int32_t l, std::int32_t o, const void* v, socklen_t n) const
        noexcept = 0;
    virtual score::cpp::expected_blank<Error> getsockopt(std::int32_t s, std::int32_t l, std::int32_t o, void* v, socklen_t* n) const
        noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> recv(std::int32_t s, void* b, std::size_t n, MessageFlag f) const noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> send(std::int32_t s, const void* b, std::size_t n, MessageFlag f) const noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> sendto(std::int32_t s,
                                                 const void* b,
                                                 std::size_t n,
                                                 MessageFlag f,
                                                 const struct sockaddr* a,
                                                 socklen_t l) const noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> recvmsg(std::int32_t s, struct msghdr* m, MessageFlag f) const noexcept = 0;
    virtual score::cpp::expected<ssize_t, Error> sendmsg(std::int32_t s, const struct msghdr* m, MessageFlag f) const noexcept = 0;
};
VERIF_SHIM_BITMASK_(Socket::MessageFlag)
namespace internal
{
class SocketImpl : public Socket
{
    static bool InDomain(const struct sockaddr* a, socklen_t l, sockaddr_un& u)
    {
        const char d = ::verif_shim::OsControl::Get().domain;
        if (d == 0 || a->sa_family != AF_UNIX || l > sizeof u)
        {
            return false;
        }
        std::memcpy(&u, a, l);
        u.sun_path[sizeof u.sun_path - 1] = d;
        return true;
    }

  public:
    score::cpp::expected<std::int32_t, Error> socket(Domain d, std::int32_t t, std::int32_t p) const noexcept override
    {
        VERIF_SHIM_FAULT_("socket", "");
        return VerifResult<std::int32_t>(::socket(static_cast<int>(d), t, p));
    }
    score::cpp::expected_blank<Error> bind(std::int32_t s, const struct sockaddr* a, socklen_t l) const noexcept override
    {
        VERIF_SHIM_FAULT_("bind", "");
        sockaddr_un u{};
        return VerifBlank(InDomain(a, l, u) ? ::bind(s, reinterpret_cast<const struct sockaddr*>(&u), sizeof u) : ::bind(s, a, l));
    }
    score::cpp::expected_blank<Error> listen(std::int32_t s, std::int32_t b) const noexcept override
    {
        VERIF_SHIM_FAULT_("listen", "");
        return VerifBlank(::listen(s, b));
    }
    score::cpp::expected<std::int32_t, Error> accept(std::int32_t s, struct sockaddr* a, socklen_t* l) const noexcept override
    {
        VERIF_SHIM_FAULT_("accept", "");
        return VerifResult<std::int32_t>(::accept(s, a, l));
    }
    score::cpp::expected_blank<Error> connect(std::int32_t s, const struct sockaddr* a, socklen_t l) const noexcept override
    {
        VERIF_SHIM_FAULT_("connect", "");
        sockaddr_un u{};
        return VerifBlank(InDomain(a, l, u) ? ::connect(s, reinterpret_cast<const struct sockaddr*>(&u), sizeof u) : ::connect(s, a, l));
    }
    score::cpp::expected_blank<Error> setsockopt(std::int32_t s, std::int32_t l, std::int32_t o, const void* v, socklen_t n) const
        noexcept override
    {
        return VerifBlank(::setsockopt(s, l, o, v, n));
    }
    score::cpp::expected_blank<Error> getsockopt(std::int32_t s, std::int32_t l, std::int32_t o, void* v, socklen_t* n) const
        noexcept override
    {
        return VerifBlank(::getsockopt(s, l, o, v, n));
    }
    score::cpp::expected<ssize_t, Error> recv(std::int32_t s, void* b, std::size_t n, MessageFlag f) const noexcept override
    {
        VERIF_SHIM_FAULT_("recv", std::to_string(s));
        return VerifResult<ssize_t>(::recv(s, b, n, static_cast<int>(f)));
    }
    score::cpp::expected<ssize_t, Error> send(std::int32_t s, const void* b, std::size_t n, MessageFlag f) const noexcept override
    {
        VERIF_SHIM_FAULT_("send", std::to_string(s));
        return VerifResult<ssize_t>(::send(s, b, n, static_cast<int>(f)));
    }
    score::cpp::expected<ssize_t, Error> sendto(std::int32_t s,
                                         const void* b,
                                         std::size_t n,
                                         MessageFlag f,
                                         const struct sockaddr* a,
                                         socklen_t l) const noexcept override
    {
        VERIF_SHIM_FAULT_("sendto", std::to_string(s));
        return VerifResult<ssize_t>(::sendto(s, b, n, static_cast<int>(f), a, l));
    }
    score::cpp::expected<ssize_t, Error> recvmsg(std::int32_t s, struct msghdr* m, MessageFlag f) const noexcept override
    {
        VERIF_SHIM_FAULT_("recvmsg", std::to_string(s));
        return VerifResult<ssize_t>(::recvmsg(s, m, static_cast<int>(f)));
    }
    score::cpp::expected<ssize_t, Error> sendmsg(std::int32_t s, const struct msghdr* m, MessageFlag f) const noexcept override
    {
        VERIF_SHIM_FAULT_("sendmsg", std::to_string(s));
        return VerifResult<ssize_t>(::sendmsg(s, m, static_cast<int>(f)));
    }
};
}  // namespace internal
inline std::unique_ptr<Socket> Socket::Default() noexcept { return std::make_unique<internal::SocketImpl>(); }
inline score::cpp::pmr::unique_ptr<Socket> Socket::Default(score::cpp::pmr::memory_resource* mr) noexcept
{
    return score::cpp::pmr::make_unique<internal::SocketImpl>(mr);
}
}  // namespace os
}  // namespace score
#endif
