// The message transport of the gateway: two real transports talk over a simulated network, under owned schedules and
// virtual time. Connections break, data arrives in pieces and late, sides shut down and come back.
#include "gateway_content.h"
#include "owned_sched.h"
#include "pbt.h"

#include "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h"
#include "score/mw/com/gateway/transport_layer/sample/message_framer.h"
#include "score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h"
#include "score/mw/com/gateway/transport_layer/sample/pending_request_tracker.h"
#include "score/mw/com/gateway/transport_layer/transport_error.h"

#include "score/os/socket.h"
#include "score/os/unistd.h"

#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

#include <dlfcn.h>

using namespace score::mw::com::gateway;
using score::mw::com::DataTypeMetaInfo;
using score::mw::com::EventInfo;
using score::mw::com::InstanceSpecifier;
using score::mw::com::impl::ServiceElementType;
using Err = score::os::Error;
using Clock = std::chrono::steady_clock;
using std::chrono::microseconds;
using std::chrono::milliseconds;

namespace
{
template <typename T>
using Exp = score::cpp::expected<T, Err>;
using Blank = score::cpp::expected_blank<Err>;
score::cpp::unexpected<Err> Fail(int e)
{
    return score::cpp::make_unexpected(Err::createFromErrno(e));
}

// ---------------------------------------------------------------------------------------------------------------------
// The network
struct Chunk
{
    std::uint64_t ready_at;
    std::vector<std::uint8_t> bytes;
};
struct Pipe
{
    std::deque<Chunk> chunks{};
    bool writer_gone{false};
};
struct Connection
{
    Pipe to[2];  // to the end with that index
    bool broken{false};
    int fd[2]{-1, -1};
    int owner[2]{-1, -1};
};
struct Descriptor
{
    int owner{-1};  // once it is bound or connected
    bool listening{false};
    bool nonblocking{false};
    bool shut{false};
    int port{0};
    std::deque<std::shared_ptr<Connection>> backlog{};
    std::shared_ptr<Connection> connection{};
    int end{0};
    bool sent_after_close{false};
};

struct Net
{
    pbt::Src* src{nullptr};
    std::mutex m{};
    std::condition_variable cv{};
    std::map<int, Descriptor> fds{};
    int next_fd{1000};
    std::string bad{};
    // what may happen
    bool rough{false};
    bool interrupts{false};
    std::uint64_t max_delay_ns{0};
    unsigned failing_socket{0};  // the call that finds no free descriptor, 0: none
    unsigned sockets{0};
    std::uint64_t called_at{0};  // when side 1 reached side 0 first
    std::uint64_t resets{0};
    std::vector<std::uint64_t> losses{};  // when an end of a connection was left or broke
    std::uint64_t interrupted{0};
    std::vector<std::string> log{};

    std::uint64_t events{0};

    void Log(const char* what, int fd, long result)
    {
        ++events;
        cv.notify_all();
        if (log.size() < 120U)
        {
            log.push_back(std::string{what} + "(" + std::to_string(fd) + ")=" + std::to_string(result) + "@" + std::to_string(sched::VirtualNow() / 1000U - 1000000000U));
        }
    }
    void Must(bool ok, const char* what)
    {
        if (!ok && bad.empty())
        {
            bad = what;
        }
    }
    Descriptor* Get(int fd)
    {
        auto i = fds.find(fd);
        return i == fds.end() ? nullptr : &i->second;
    }
    void LeaveEnd(Connection& c, int end)
    {
        c.to[1 - end].writer_gone = true;
        c.fd[end] = -1;
        losses.push_back(sched::VirtualNow());
    }
};
Net* g_net{nullptr};


int SideOfPort(int port)
{
    return port == 7001 ? 1 : 0;
}

class VirtualSocket final : public score::os::Socket
{
  public:
    Exp<std::int32_t> socket(Domain, std::int32_t type, std::int32_t) const noexcept override
    {
        auto& n = *g_net;
        std::lock_guard<std::mutex> l{n.m};
        if (++n.sockets == n.failing_socket)
        {
            n.Log("socket", -1, ENFILE);
            return Fail(ENFILE);
        }
        const int fd = n.next_fd++;
        Descriptor d;
        d.nonblocking = (type & SOCK_NONBLOCK) != 0;
        n.fds[fd] = d;
        return fd;
    }
    Blank bind(std::int32_t s, const struct sockaddr* a, socklen_t) const noexcept override
    {
        auto& n = *g_net;
        std::lock_guard<std::mutex> l{n.m};
        auto* d = n.Get(s);
        if (d == nullptr)
        {
            return Fail(EBADF);
        }
        sockaddr_in in{};
        std::memcpy(&in, a, sizeof(in));
        d->port = ntohs(in.sin_port);
        d->owner = SideOfPort(d->port);
        for (auto& f : n.fds)
        {
            if (f.first != s && f.second.listening && f.second.port == d->port)
            {
                return Fail(EADDRINUSE);
            }
        }
        return {};
    }
    Blank listen(std::int32_t s, std::int32_t) const noexcept override
    {
        auto& n = *g_net;
        std::lock_guard<std::mutex> l{n.m};
        auto* d = n.Get(s);
        if (d == nullptr)
        {
            return Fail(EBADF);
        }
        d->listening = true;
        n.Log("listen", s, d->port);
        return {};
    }
    Exp<std::int32_t> accept(std::int32_t s, struct sockaddr*, socklen_t*) const noexcept override
    {
        auto& n = *g_net;
        std::unique_lock<std::mutex> l{n.m};
        auto* d = n.Get(s);
        if (d == nullptr)
        {
            return Fail(EBADF);
        }
        if (!d->listening || d->shut)
        {
            // a loop that tries again at once must not keep the other tasks from running
            n.cv.wait_for(l, std::chrono::microseconds(50));
            return Fail(EINVAL);
        }
        if (d->backlog.empty())
        {
            return Fail(EAGAIN);
        }
        if (n.rough && n.src->Chance(1, 8))
        {
            return Fail(ECONNABORTED);
        }
        auto c = d->backlog.front();
        d->backlog.pop_front();
        const int fd = n.next_fd++;
        Descriptor e;
        e.owner = d->owner;
        e.connection = c;
        e.end = 1;
        n.Log("accept", s, fd);
        c->fd[1] = fd;
        c->owner[1] = d->owner;
        n.fds[fd] = e;
        return fd;
    }
    Blank connect(std::int32_t s, const struct sockaddr* a, socklen_t) const noexcept override
    {
        auto& n = *g_net;
        std::lock_guard<std::mutex> l{n.m};
        auto* d = n.Get(s);
        if (d == nullptr)
        {
            return Fail(EBADF);
        }
        sockaddr_in in{};
        std::memcpy(&in, a, sizeof(in));
        const int port = ntohs(in.sin_port);
        d->owner = 1 - SideOfPort(port);
        for (auto& f : n.fds)
        {
            if (f.second.listening && !f.second.shut && f.second.port == port && f.second.backlog.size() < 2U)
            {
                auto c = std::make_shared<Connection>();
                c->fd[0] = s;
                c->owner[0] = d->owner;
                d->connection = c;
                d->end = 0;
                f.second.backlog.push_back(c);
                n.Log("connect", s, f.first);
                n.called_at = d->owner == 1 && n.called_at == 0U ? sched::VirtualNow() : n.called_at;
                return {};
            }
        }
        return Fail(ECONNREFUSED);
    }
    Blank setsockopt(std::int32_t, std::int32_t, std::int32_t, const void*, socklen_t) const noexcept override { return {}; }
    Blank getsockopt(std::int32_t, std::int32_t, std::int32_t, void*, socklen_t*) const noexcept override { return {}; }
    Exp<ssize_t> recv(std::int32_t s, void* b, std::size_t len, MessageFlag) const noexcept override
    {
        auto& n = *g_net;
        std::unique_lock<std::mutex> l{n.m};
        for (;;)
        {
            auto* d = n.Get(s);
            if (d == nullptr)
            {
                return Fail(EBADF);
            }
            if (d->connection == nullptr)
            {
                return Fail(ENOTCONN);
            }
            auto c = d->connection;
            auto& p = c->to[d->end];
            if (c->broken)
            {
                if (!d->sent_after_close)
                {
                    d->sent_after_close = true;
                    return Fail(ECONNRESET);
                }
                return 0;
            }
            if (d->shut)
            {
                return 0;
            }
            const auto now = sched::VirtualNow();
            if (!p.chunks.empty() && p.chunks.front().ready_at <= now)
            {
                if (n.interrupts && n.src->Chance(1, 30))
                {
                    ++n.interrupted;
                    return Fail(EINTR);
                }
                auto& bytes = p.chunks.front().bytes;
                auto k = std::min(len, bytes.size());
                k = n.src->Chance(1, 3) ? 1U + n.src->Below(k) : k;
                std::memcpy(b, bytes.data(), k);
                bytes.erase(bytes.begin(), bytes.begin() + static_cast<long>(k));
                if (bytes.empty())
                {
                    p.chunks.pop_front();
                }
                return static_cast<ssize_t>(k);
            }
            if (p.chunks.empty() && p.writer_gone)
            {
                return 0;
            }
            if (!p.chunks.empty())
            {
                n.cv.wait_until(l, Clock::time_point{std::chrono::nanoseconds{p.chunks.front().ready_at}});
            }
            else
            {
                n.cv.wait(l);
            }
        }
    }
    Exp<ssize_t> send(std::int32_t s, const void* b, std::size_t len, MessageFlag f) const noexcept override { return sendto(s, b, len, f, nullptr, 0); }
    Exp<ssize_t> sendto(std::int32_t s, const void* b, std::size_t len, MessageFlag f, const struct sockaddr*, socklen_t) const noexcept override
    {
        sched::Point();
        auto& n = *g_net;
        std::lock_guard<std::mutex> l{n.m};
        auto* d = n.Get(s);
        if (d == nullptr)
        {
            return Fail(EBADF);
        }
        if (d->connection == nullptr)
        {
            return Fail(ENOTCONN);
        }
        auto& c = *d->connection;
        const bool signal = (static_cast<std::int32_t>(f) & static_cast<std::int32_t>(MessageFlag::kNoSignal)) == 0;
        if (c.broken || d->shut)
        {
            n.Must(!signal, "sending on a closed connection raises SIGPIPE, which ends the process");
            return Fail(c.broken ? ECONNRESET : EPIPE);
        }
        if (c.to[d->end].writer_gone)  // the other end has been closed
        {
            // the first bytes still go out and are answered with a reset
            if (d->sent_after_close)
            {
                n.Must(!signal, "sending on a closed connection raises SIGPIPE, which ends the process");
                return Fail(EPIPE);
            }
            d->sent_after_close = true;
            return static_cast<ssize_t>(len);
        }
        if (n.interrupts && n.src->Chance(1, 30))
        {
            ++n.interrupted;
            return Fail(EINTR);
        }
        const auto k = n.src->Chance(1, 3) ? 1U + n.src->Below(len) : len;
        const auto* bytes = static_cast<const std::uint8_t*>(b);
        auto& p = c.to[1 - d->end];
        auto at = sched::VirtualNow() + (n.max_delay_ns > 0U && n.src->Chance(1, 3) ? n.src->Below(n.max_delay_ns) : 0U);
        at = p.chunks.empty() ? at : std::max(at, p.chunks.back().ready_at);
        p.chunks.push_back({at, {bytes, bytes + k}});
        n.cv.notify_all();
        return static_cast<ssize_t>(k);
    }
    Exp<ssize_t> recvmsg(std::int32_t, struct msghdr*, MessageFlag) const noexcept override { return Fail(EINVAL); }
    Exp<ssize_t> sendmsg(std::int32_t, const struct msghdr*, MessageFlag) const noexcept override { return Fail(EINVAL); }
};
struct VirtualUnistd final : public score::os::internal::UnistdImpl
{
    Blank close(const std::int32_t fd) const noexcept override
    {
        if (g_net == nullptr || fd < 1000)
        {
            return score::os::internal::UnistdImpl::close(fd);
        }
        auto& n = *g_net;
        std::lock_guard<std::mutex> l{n.m};
        auto* d = n.Get(fd);
        if (d == nullptr)
        {
            n.Must(false, "a descriptor is closed twice");
            return Fail(EBADF);
        }
        if (d->connection)
        {
            n.LeaveEnd(*d->connection, d->end);
        }
        for (auto& c : d->backlog)
        {
            c->broken = true;
            n.losses.push_back(sched::VirtualNow());
        }
        n.fds.erase(fd);
        n.Log("close", fd, 0);
        n.cv.notify_all();
        return {};
    }
};
}  // namespace

extern "C" ssize_t recv(int fd, void* b, size_t len, int flags)
{
    if (g_net == nullptr || fd < 1000)
    {
        static auto real = reinterpret_cast<ssize_t (*)(int, void*, size_t, int)>(::dlsym(RTLD_NEXT, "recv"));
        return real(fd, b, len, flags);
    }
    if ((flags & MSG_PEEK) == 0 || (flags & MSG_DONTWAIT) == 0)
    {
        const auto r = VirtualSocket{}.recv(fd, b, len, score::os::Socket::MessageFlag::kNone);
        errno = r.has_value() ? errno : EIO;
        return r.has_value() ? r.value() : -1;
    }
    auto& n = *g_net;
    std::lock_guard<std::mutex> l{n.m};
    auto* d = n.Get(fd);
    if (d == nullptr || d->connection == nullptr)
    {
        errno = d == nullptr ? EBADF : ENOTCONN;
        return -1;
    }
    auto& p = d->connection->to[d->end];
    if (d->connection->broken)
    {
        errno = ECONNRESET;
        return -1;
    }
    if (!p.chunks.empty() && p.chunks.front().ready_at <= sched::VirtualNow())
    {
        std::memcpy(b, p.chunks.front().bytes.data(), 1U);
        return 1;
    }
    if (d->shut || p.writer_gone)
    {
        return 0;
    }
    errno = EAGAIN;
    return -1;
}

extern "C" int shutdown(int fd, int) noexcept
{
    if (g_net == nullptr || fd < 1000)
    {
        errno = EBADF;
        return -1;
    }
    auto& n = *g_net;
    std::lock_guard<std::mutex> l{n.m};
    auto* d = n.Get(fd);
    if (d == nullptr)
    {
        errno = EBADF;
        return -1;
    }
    d->shut = true;
    if (d->connection)
    {
        d->connection->to[1 - d->end].writer_gone = true;
    }
    n.cv.notify_all();
    return 0;
}

namespace
{
enum class Outcome
{
    running,
    ok,
    not_connected,
    timeout,
    send_failure,
    other
};
struct Message
{
    int side{0};
    int round{0};
    int thread{0};
    std::size_t index{0};
    Content content{};
    bool request{false};
    std::vector<std::string> names{};
    std::uint32_t sequence{0};
    std::uint64_t started{0};
    std::uint64_t ended{0};
    Outcome outcome{Outcome::running};
    bool connected_before{false};
    bool lost{false};  // a request that ended, after a while, because the connection was lost
    // deliveries, as positions in the log of the receiver
    std::vector<std::size_t> deliveries{};
};
struct Delivery
{
    Message* message{nullptr};
    int round{0};
};
struct Round
{
    bool early{false};  // is shut down by another thread, at any time
    std::uint64_t early_after_us{0};
    std::uint64_t early_after_events{0};  // of the network; 0: after that time
    std::vector<std::vector<unsigned>> pauses{};  // per thread and message: microseconds before it
    bool nested{false};
    unsigned handler_us{0};
    bool no_handler{false};
};
struct Side
{
    std::unique_ptr<BidirectionalTransport> transport{};
    std::vector<Round> rounds{};
    int round{-1};
    bool last_round_ready{false};
    bool last_round_done{false};
    bool finished{false};
    bool shutdown_begun{false};
    bool shutdown_done{false};
    std::uint64_t shutdown_at{0};
    std::vector<Delivery> log{};
};

struct World
{
    Net net{};
    Side sides[2]{};
    std::deque<Message> messages{};
    std::map<std::string, Message*> by_id{};
    std::string bad{};
    std::uint64_t ids{0};
    bool chaos_done{true};
    std::uint32_t timeout_ms{1000};
    bool clean{false};
    bool exhausted{false};  // side 0 finds no free descriptor for its connection while side 1 is not there yet

    void Must(bool ok, const std::string& what)
    {
        if (!ok && bad.empty())
        {
            bad = what;
        }
    }
};
void Sleep(std::uint64_t us)
{
    std::this_thread::sleep_for(microseconds(us));
}

void SendOne(World& w, pbt::Src& src, int side, int round, int thread, std::size_t index, const std::string* fixed_kind = nullptr)
{
    auto& s = w.sides[side];
    w.messages.emplace_back();
    auto& m = w.messages.back();
    m.side = side;
    m.round = round;
    m.thread = thread;
    m.index = index;
    const std::string id = "svc" + std::to_string(side) + "/i" + std::to_string(w.ids++);
    m.content = Generate(src, id);
    while (fixed_kind != nullptr && m.content.type == MessageType::kUpdateNotification)
    {
        m.content = Generate(src, id);
        if (m.content.type == MessageType::kUpdateNotification)
        {
            m.content.type = MessageType::kOfferServiceRequest;
            m.content.element.clear();
            m.content.element_type = ServiceElementType::INVALID;
        }
    }
    m.request = m.content.type != MessageType::kUpdateNotification;
    w.by_id[id] = &m;
    auto message = MakeMessage(m.content, m.names);
    m.connected_before = s.transport->IsConnected();
    m.started = sched::VirtualNow();
    const auto r = m.request ? s.transport->SendRequest(*message) : s.transport->SendNotification(*message);
    m.ended = sched::VirtualNow();
    m.sequence = message->GetSequenceNumber();
    m.outcome = r.has_value()                                        ? Outcome::ok
                : r.error() == TransportErrorc::kNotConnected ? Outcome::not_connected
                : r.error() == TransportErrorc::kTimeout      ? Outcome::timeout
                : r.error() == TransportErrorc::kSendFailure  ? Outcome::send_failure
                                                              : Outcome::other;
    if (s.shutdown_begun && s.round == round)
    {
        w.Must(m.ended <= std::max(m.started, s.shutdown_at) + 20000000ULL, "a request goes on waiting although its transport is shut down");
    }
    else if (m.request && m.outcome == Outcome::not_connected && m.ended - m.started > 30000000ULL)
    {
        m.lost = true;
    }
    w.Must(m.outcome != Outcome::other, "sending fails with another error than not connected, timeout and send failure");
    message.reset();
    Scramble(m.names);
}

void ShutDown(World& w, int side)
{
    auto& s = w.sides[side];
    s.shutdown_at = s.shutdown_begun ? s.shutdown_at : sched::VirtualNow();
    s.shutdown_begun = true;
    s.transport->Shutdown();
    w.Must(!s.transport->IsConnected(), "connected after Shutdown");
}

void RunSide(World& w, pbt::Src& src, int side)
{
    auto& s = w.sides[side];
    if (w.exhausted && side == 1)
    {
        Sleep(200000 + src.Below(300000));
    }
    for (std::size_t r = 0; r < s.rounds.size(); ++r)
    {
        auto& round = s.rounds[r];
        const bool last = r + 1U == s.rounds.size();
        s.round = static_cast<int>(r);
        s.shutdown_begun = false;
        s.shutdown_done = false;
        HyperVisorSocketConfiguration config;
        config.local_port_ = static_cast<std::uint16_t>(7000 + side);
        config.remote_port_ = static_cast<std::uint16_t>(7001 - side);
        config.remote_ip_ = score::os::Ipv4Address{std::string{"127.0.0.1"}};
        config.request_timeout_ms_ = w.timeout_ms;
        auto framer = std::make_unique<MessageFramer>();
        auto tracker = std::make_unique<PendingRequestTracker>();
        auto* const framer_memory = framer.get();
        auto* const tracker_memory = tracker.get();
        sched::Watch(framer.get(), sizeof(MessageFramer), "framer");
        sched::Watch(tracker.get(), sizeof(PendingRequestTracker), "tracker");
        s.transport = std::make_unique<BidirectionalTransport>(std::move(config), std::move(framer), std::move(tracker));
        sched::Watch(s.transport.get(), sizeof(BidirectionalTransport), "transport");
        const int my_round = static_cast<int>(r);
        std::size_t nested{0};
        s.transport->SetMessageHandler([&w, &s, &src, &round, &nested, side, my_round](std::unique_ptr<TransportMessage> message) {
            w.Must(message != nullptr, "no message is handed over");
            w.Must(!s.shutdown_done, "a message is handled after Shutdown has returned");
            w.Must(s.round == my_round, "the handler of a destroyed transport is called");
            const auto c = ContentOf(*message);
            auto i = w.by_id.find(c.specifier);
            w.Must(i != w.by_id.end(), "a message is handled that nobody has sent");
            if (i != w.by_id.end())
            {
                auto& m = *i->second;
                w.Must(m.side != side, "a message is handled by its sender");
                w.Must(m.content == c, "the content of a message is changed");
                w.Must(m.outcome == Outcome::running || !m.request || m.sequence == message->GetSequenceNumber(), "the sequence number of a request is changed");
                m.deliveries.push_back(s.log.size());
                s.log.push_back({&m, my_round});
            }
            if (round.handler_us > 0U)
            {
                Sleep(round.handler_us);
            }
            if (round.nested && nested < 3U)
            {
                SendOne(w, src, side, my_round, 100, nested++);
            }
        });
        std::thread early;
        if (round.early)
        {
            early = std::thread{[&w, &round, side] {
                if (round.early_after_events > 0U)
                {
                    std::unique_lock<std::mutex> l{w.net.m};
                    const auto until = w.net.events + round.early_after_events;
                    w.net.cv.wait_for(l, milliseconds(500), [&w, until] { return w.net.events >= until; });
                }
                else
                {
                    Sleep(round.early_after_us);
                }
                ShutDown(w, side);
            }};
        }
        const auto ready = s.transport->Setup();
        if (w.exhausted && side == 0)
        {
            w.Must(!ready.has_value(), "Setup succeeds although there is no connection to the other side");
            w.Must(w.net.called_at != 0U && sched::VirtualNow() - w.net.called_at <= 300000000ULL, "Setup does not return although no connection can be made any more");
        }
        if (ready.has_value())
        {
            std::vector<std::thread> senders;
            for (std::size_t t = 0; t < round.pauses.size(); ++t)
            {
                senders.emplace_back([&w, &src, &round, side, my_round, t] {
                    for (std::size_t k = 0; k < round.pauses[t].size(); ++k)
                    {
                        if (round.pauses[t][k] > 0U)
                        {
                            Sleep(round.pauses[t][k]);
                        }
                        SendOne(w, src, side, my_round, static_cast<int>(t), k);
                    }
                });
            }
            for (auto& t : senders)
            {
                t.join();
            }
        }
        else
        {
            w.Must(round.early, "Setup fails although nothing stands against it");
            w.Must(!s.transport->IsConnected(), "connected after a failed Setup");
        }
        if (early.joinable())
        {
            early.join();
        }
        if (last && ready.has_value())
        {
            // wait for the other side; then both must find each other again
            s.last_round_ready = true;
            auto& o = w.sides[1 - side];
            const auto all_there = [&] { return w.chaos_done && (o.last_round_ready || o.finished); };
            while (!all_there())
            {
                Sleep(5000);
            }
            if (!o.finished)
            {
                const auto until = sched::VirtualNow() + 30000000000ULL;
                while (!(s.transport->IsConnected() && o.transport != nullptr && o.transport->IsConnected()) && sched::VirtualNow() < until && w.bad.empty())
                {
                    Sleep(50000);
                }
                w.Must(sched::VirtualNow() < until, "the sides are not connected again within 30 s");
                const std::string kind{"request"};
                bool ok{false};
                for (int k = 0; k < 40 && !ok; ++k)
                {
                    SendOne(w, src, side, my_round, 200, static_cast<std::size_t>(k), &kind);
                    ok = w.messages.back().outcome == Outcome::ok;
                    for (auto& m : w.messages)
                    {
                        ok = ok || (m.side == side && m.thread == 200 && m.outcome == Outcome::ok);
                    }
                    if (!ok)
                    {
                        Sleep(400000);
                    }
                }
                w.Must(ok, "no request succeeds after the sides are connected again");
                s.last_round_done = true;
                while (!o.last_round_done && w.bad.empty())
                {
                    Sleep(5000);
                }
                // let the last messages be handled
                const auto settled = [&] {
                    for (auto& m : w.messages)
                    {
                        if (m.outcome == Outcome::running || (m.outcome == Outcome::ok && m.deliveries.empty()))
                        {
                            return false;
                        }
                    }
                    return true;
                };
                for (int k = 0; k < 200 && w.net.resets == 0U && w.sides[0].rounds.size() + w.sides[1].rounds.size() == 2U; ++k)
                {
                    const auto before = w.messages.size();
                    const bool quiet = settled();
                    Sleep(quiet ? 400000 : 50000);  // a handler may still send
                    if (quiet && settled() && before == w.messages.size())
                    {
                        break;
                    }
                }
                Sleep(200000);
            }
        }
        const auto before = sched::VirtualNow();
        ShutDown(w, side);
        w.Must(sched::VirtualNow() - before < 5000000000ULL, "Shutdown takes longer than 5 s");
        s.shutdown_done = true;
        {
            UpdateNotification n{Specifier("late/one"), ServiceElementType::EVENT, "x"};
            OfferServiceRequest q{Specifier("late/two")};
            const auto a = s.transport->SendNotification(n);
            const auto b = s.transport->SendRequest(q);
            w.Must(!a.has_value() && a.error() == TransportErrorc::kNotConnected, "a notification can be sent after Shutdown");
            w.Must(!b.has_value() && b.error() == TransportErrorc::kNotConnected, "a request can be sent after Shutdown");
        }
        if (src.Chance(1, 4))
        {
            Sleep(src.Below(3000000));
        }
        // not later: the memory may be used for something else as soon as it is given back
        sched::Unwatch(s.transport.get(), sizeof(BidirectionalTransport));
        sched::Unwatch(framer_memory, sizeof(MessageFramer));
        sched::Unwatch(tracker_memory, sizeof(PendingRequestTracker));
        s.transport.reset();
        for (auto& f : w.net.fds)
        {
            w.Must(f.second.owner != side, "a descriptor is left open");
        }
    }
    s.finished = true;
}
}  // namespace

PBT_PROPERTY_EX(gateway_exchange, 80000, 400000, true, 60, 1, 0)
{
    auto* const world = new World;  // is kept when the run does not come to an end
    auto& w = *world;
    auto& net = w.net;
    net.src = &src;
    const auto mode = src.Below(4);  // 0: nothing goes wrong
    w.clean = mode == 0U;
    net.rough = mode >= 2U;
    net.interrupts = src.Chance(1, 4);
    w.exhausted = mode == 3U && src.Chance(1, 8);
    w.timeout_ms = w.clean ? 3000U : src.PickOf<std::uint32_t>({20U, 100U, 1000U, 5000U});
    net.max_delay_ns = src.Chance(1, 2) ? 0U : w.clean ? 20000000U : src.PickOf<std::uint64_t>({1000000U, 20000000U, 150000000U});
    for (auto& s : w.sides)
    {
        const std::size_t rounds = mode == 3U ? 1U + src.Below(3) : 1U;
        for (std::size_t r = 0; r < rounds; ++r)
        {
            Round round;
            round.early = r + 1U < rounds && src.Bool();
            round.early_after_events = src.Chance(1, 2) ? 1U + src.Below(10) : 0U;
            round.early_after_us = src.Chance(1, 3) ? src.Below(2000) : src.Below(400000);
            round.nested = src.Chance(1, 4);
            round.handler_us = src.Chance(1, 4) ? static_cast<unsigned>(src.Below(5000)) : 0U;
            for (auto t = 1U + src.Below(2); t > 0U; --t)
            {
                std::vector<unsigned> p;
                for (auto k = 1U + src.Below(5); k > 0U; --k)
                {
                    p.push_back(src.Chance(1, 2) ? 0U : static_cast<unsigned>(src.Below(src.Chance(1, 4) ? 800000 : 5000)));
                }
                round.pauses.push_back(p);
            }
            s.rounds.push_back(round);
        }
    }
    const std::size_t breaks = net.rough && !w.exhausted ? src.Below(4) : 0U;
    std::vector<std::uint64_t> break_after;
    for (std::size_t i = 0; i < breaks; ++i)
    {
        break_after.push_back(src.Chance(1, 2) ? src.Below(5000) : src.Below(2500000));
    }
    w.chaos_done = breaks == 0U;
    if (w.exhausted)
    {
        net.failing_socket = 3U + static_cast<unsigned>(src.Below(2));
        for (int i = 0; i < 2; ++i)
        {
            w.sides[i].rounds.resize(1);
            w.sides[i].rounds[0].early = true;
            w.sides[i].rounds[0].early_after_events = 0U;
            w.sides[i].rounds[0].early_after_us = (i == 0 ? 5000000U : 3000000U) + src.Below(100000);
        }
    }
    VirtualSocket sockets;
    VirtualUnistd unistd;
    struct Guard
    {
        Guard(World& w, VirtualSocket& s, VirtualUnistd& u)
        {
            g_net = &w.net;
            score::os::Socket::set_testing_instance(s);
            score::os::Unistd::set_testing_instance(u);
        }
        ~Guard()
        {
            score::os::Socket::restore_instance();
            score::os::Unistd::restore_instance();
            g_net = nullptr;
        }
    } guard{w, sockets, unistd};
    std::vector<std::function<void()>> tasks;
    tasks.push_back([&] { RunSide(w, src, 0); });
    tasks.push_back([&] { RunSide(w, src, 1); });
    if (breaks > 0U)
    {
        tasks.push_back([&] {
            for (const auto after : break_after)
            {
                Sleep(after);
                std::lock_guard<std::mutex> l{net.m};
                std::vector<std::shared_ptr<Connection>> live;
                for (auto& f : net.fds)
                {
                    if (f.second.connection && !f.second.connection->broken && std::find(live.begin(), live.end(), f.second.connection) == live.end())
                    {
                        live.push_back(f.second.connection);
                    }
                }
                // A single one of the two only breaks once both sides have them: neither side listens any more.
                bool established = live.size() == 2U;
                for (auto& f : net.fds)
                {
                    established = established && !f.second.listening;
                }
                const auto which = established ? src.Below(live.size() + 1U) : live.size();  // the last: all of them
                for (std::size_t i = 0; i < live.size(); ++i)
                {
                    if (i == which || which == live.size())
                    {
                        live[i]->broken = true;
                        net.losses.push_back(sched::VirtualNow());
                        live[i]->to[0].chunks.clear();
                        live[i]->to[1].chunks.clear();
                        ++net.resets;
                        net.Log("break", live[i]->fd[0], live[i]->fd[1]);
                    }
                }
                net.cv.notify_all();
            }
            w.chaos_done = true;
        });
    }
    sched::Options options;
    options.virtual_time = true;
    options.max_points = 1500000;
    options.max_preemptions = 60U;
    options.spurious_cas = false;
    sched::Stats stats;
    sched::ClearWatches();
    sched::Unordered(net.m.native_handle());
    stats = sched::Run(src, tasks, options);
    sched::Unordered(nullptr);
    sched::ClearWatches();
    for (int i = 0; i < 2; ++i)
    {
        auto& s = w.sides[i];
        char text[200];
        std::snprintf(text, sizeof(text), "side %d: round %d of %zu, ready %d, done %d, shutdown begun %d done %d, finished %d, connected %d, messages %zu, handled %zu", i, s.round, s.rounds.size(),
                      s.last_round_ready, s.last_round_done, s.shutdown_begun, s.shutdown_done, s.finished, s.transport ? s.transport->IsConnected() : -1, w.messages.size(), s.log.size());
        ctx.Note("%s", text);
    }
    for (auto& m : w.messages)
    {
        ctx.Note("side %d round %d thread %d #%zu %s type %d: %llu..%llu us outcome %d, %zu deliveries", m.side, m.round, m.thread, m.index, m.content.specifier.c_str(), static_cast<int>(m.content.type),
                 static_cast<unsigned long long>(m.started / 1000U - 1000000000U), static_cast<unsigned long long>(m.ended / 1000U - 1000000000U), static_cast<int>(m.outcome), m.deliveries.size());
    }
    for (auto& l : net.log)
    {
        ctx.Note("%s", l.c_str());
    }
    PBT_CHECK(ctx, net.bad.empty(), "%s", net.bad.c_str());
    PBT_CHECK(ctx, w.bad.empty(), "%s", w.bad.c_str());
    PBT_CHECK(ctx, !stats.deadlock, "the transports wait for ever");
    PBT_CHECK(ctx, !stats.overrun, "the transports do not come to an end");
    PBT_CHECK(ctx, stats.race.empty(), "data race: %s", stats.race.c_str());
    PBT_CHECK(ctx, net.fds.empty(), "a descriptor is left open");
    const bool undisturbed = net.resets == 0U && w.sides[0].rounds.size() == 1U && w.sides[1].rounds.size() == 1U;
    std::uint64_t delivered{0}, failed{0}, repeated{0};
    for (auto& m : w.messages)
    {
        const auto n = m.deliveries.size();
        delivered += n;
        repeated += n > 1U ? 1U : 0U;
        failed += m.outcome != Outcome::ok ? 1U : 0U;
        PBT_CHECK(ctx, m.request || n <= 1U, "a notification is delivered %zu times", n);
        PBT_CHECK(ctx, n <= 5U, "a request is delivered %zu times", n);
        if (w.clean)
        {
            PBT_CHECK(ctx, m.outcome == Outcome::ok, "a message cannot be sent although the connection is good (%d)", static_cast<int>(m.outcome));
            PBT_CHECK(ctx, m.ended - m.started <= 600000000ULL, "a request waits for %llu ms although it was acknowledged", static_cast<unsigned long long>((m.ended - m.started) / 1000000U));
            PBT_CHECK(ctx, n == 1U, "a message is delivered %zu times over a good connection", n);
        }
        if (m.lost)
        {
            bool prompt{false};
            for (auto t : net.losses)
            {
                prompt = prompt || (t <= m.ended + 20000000ULL && m.ended <= t + 20000000ULL);
            }
            PBT_CHECK(ctx, prompt, "a request goes on waiting although the connection is lost");
        }
        if (undisturbed && m.outcome == Outcome::ok)
        {
            PBT_CHECK(ctx, n >= 1U, "a message that was sent successfully is not delivered");
        }
        PBT_CHECK(ctx, m.ended - m.started <= 6ULL * (w.timeout_ms * 1000000ULL) + 50000000ULL, "sending takes longer than all its attempts");
    }
    // the order of the first deliveries
    for (int side = 0; side < 2; ++side)
    {
        std::vector<const Message*> first;
        for (auto& m : w.messages)
        {
            if (m.side == side && !m.deliveries.empty())
            {
                first.push_back(&m);
            }
        }
        for (auto* a : first)
        {
            for (auto* b : first)
            {
                if (a->ended < b->started && (a->outcome == Outcome::ok || (a->thread == b->thread && a->round == b->round)))
                {
                    PBT_CHECK(ctx, a->deliveries.front() < b->deliveries.front(), "messages are handled in another order than they were sent");
                }
            }
        }
    }
    ctx.Count("messages", w.messages.size());
    ctx.Count("delivered", delivered);
    ctx.Count("failed", failed);
    ctx.Count("requests repeated", repeated);
    ctx.Count("connections broken", net.resets);
    ctx.Count("switches", stats.switches);
    ctx.Count("points", stats.points);
    ctx.Label(w.clean ? "nothing goes wrong" : w.exhausted ? "no descriptors" : mode == 1U ? "late data" : mode == 2U ? "connections break" : "sides come and go");
    if (delivered > 1U && stats.preemptions > 0U)
    {
        ctx.NonTrivial();
    }
    delete world;
}

// The waiting for acknowledgements by itself: few steps, so that every order of them is met.
PBT_PROPERTY_EX(acknowledgements, 60000, 20000000, true, 60, 1, 0)
{
    PendingRequestTracker tracker;
    std::atomic<bool> connected{true};
    struct Waiter
    {
        std::uint32_t sequence{0};
        std::uint64_t started{0};
        std::uint64_t ended{0};
        bool registered{false};
        bool reset{false};
        bool ok{false};
        bool not_connected{false};
        bool timeout{false};
        std::uint64_t acked_at{0};  // 0: never
    };
    std::deque<Waiter> waiters(1U + src.Below(4));
    const std::uint64_t timeout_ms = src.PickOf<std::uint64_t>({5, 200, 1000});
    const std::uint64_t timeout = timeout_ms * 1000000ULL;
    std::uint64_t lost_at{0};
    std::vector<std::function<void()>> tasks;
    for (auto& w : waiters)
    {
        w.reset = src.Chance(1, 3);
        tasks.push_back([&tracker, &connected, &w, timeout_ms] {
            w.sequence = tracker.GetNextSequenceNumber();
            tracker.RegisterPendingRequest(w.sequence);
            w.started = sched::VirtualNow();
            w.registered = true;
            const auto r = tracker.WaitForAck(w.sequence, milliseconds(timeout_ms), connected);
            w.ended = sched::VirtualNow();
            w.ok = r.has_value();
            w.not_connected = !w.ok && r.error() == TransportErrorc::kNotConnected;
            w.timeout = !w.ok && r.error() == TransportErrorc::kTimeout;
            tracker.ErasePendingRequest(w.sequence);
        });
    }
    std::vector<unsigned> order;
    for (unsigned i = 0; i < waiters.size(); ++i)
    {
        if (src.Chance(3, 4))
        {
            order.push_back(i);
        }
    }
    src.Shuffle(order);
    const auto ack_pause = src.Chance(1, 2) ? 0U : src.Below(3000);
    tasks.push_back([&] {
        for (auto i : order)
        {
            auto& w = waiters[i];
            if (ack_pause > 0U)
            {
                Sleep(ack_pause);
            }
            for (int k = 0; k < 50 && !w.registered; ++k)
            {
                Sleep(20);
            }
            if (w.registered)
            {
                tracker.Acknowledge(w.sequence);
                w.acked_at = sched::VirtualNow();
            }
            tracker.Acknowledge(9999U);
        }
    });
    const bool lose = src.Chance(1, 2);
    if (lose)
    {
        const auto pause = src.Chance(1, 2) ? 0U : src.Below(4000);
        tasks.push_back([&, pause] {
            if (pause > 0U)
            {
                Sleep(pause);
            }
            for (int k = 0; k < 50 && !waiters.front().registered; ++k)
            {
                Sleep(10);
            }
            connected = false;
            tracker.NotifyAll();
            lost_at = sched::VirtualNow();
        });
    }
    src.Shuffle(tasks);
    sched::Options options;
    options.virtual_time = true;
    options.max_points = 200000;
    options.max_preemptions = 40U;
    options.spurious_cas = false;
    sched::ClearWatches();
    sched::Watch(&tracker, sizeof(tracker), "tracker");
    const auto stats = sched::Run(src, tasks, options);
    sched::ClearWatches();
    PBT_CHECK(ctx, !stats.deadlock, "waiting for an acknowledgement does not end");
    PBT_CHECK(ctx, !stats.overrun, "waiting for an acknowledgement does not come to an end");
    PBT_CHECK(ctx, stats.race.empty(), "data race: %s", stats.race.c_str());
    const std::uint64_t slack = 2000000ULL;
    std::set<std::uint32_t> numbers;
    for (auto& w : waiters)
    {
        PBT_CHECK(ctx, numbers.insert(w.sequence).second, "two requests have the same sequence number");
        PBT_CHECK(ctx, !tracker.HasPendingRequest(w.sequence), "a request is still pending after it was given up");
        PBT_CHECK(ctx, w.ok || w.not_connected || w.timeout, "waiting fails with another error");
        PBT_CHECK(ctx, !w.ok || (w.acked_at != 0U && w.acked_at <= w.ended + slack), "a request counts as acknowledged that was not");
        PBT_CHECK(ctx, !w.not_connected || lost_at != 0U, "the connection counts as lost although it is not");
        PBT_CHECK(ctx, !w.timeout || w.ended - w.started >= timeout, "a request times out too early");
        PBT_CHECK(ctx, w.ended <= w.started + timeout + slack, "waiting takes longer than its time");
        if (w.acked_at != 0U)
        {
            PBT_CHECK(ctx, w.ended <= std::max(w.started, w.acked_at) + slack, "a request goes on waiting although it was acknowledged");
            PBT_CHECK(ctx, w.ok || w.ended <= w.acked_at + slack, "a request that was acknowledged in time fails");
        }
        if (lost_at != 0U)
        {
            PBT_CHECK(ctx, w.ended <= std::max(w.started, lost_at) + slack, "a request goes on waiting although the connection is lost");
        }
    }
    ctx.Count("switches", stats.switches);
    ctx.NonTrivial();
}
