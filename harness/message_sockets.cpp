// Message passing over real Unix domain sockets: the protocol of the engine, its timers, and clients and servers under
// generated programs (messages of all kinds and sizes, endings by either side, misbehaving peers).
#include "pbt.h"

#include "score/message_passing/i_connection_handler.h"
#include "score/message_passing/i_server.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/timed_command_queue.h"
#include "score/message_passing/unix_domain/unix_domain_client_factory.h"
#include "score/message_passing/unix_domain/unix_domain_engine.h"
#include "score/message_passing/unix_domain/unix_domain_server_factory.h"
#include "score/message_passing/unix_domain/unix_domain_socket_address.h"

#include <dirent.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

using namespace score::message_passing;
using Bytes = std::vector<std::uint8_t>;
using Err = score::os::Error;
using SteadyClock = std::chrono::steady_clock;
using State = IClientConnection::State;
using StopReason = IClientConnection::StopReason;
using Message = score::cpp::span<const std::uint8_t>;

namespace
{
std::set<int> OpenDescriptors()
{
    std::set<int> fds;
    DIR* d = opendir("/proc/self/fd");
    const int own = dirfd(d);
    while (auto* e = readdir(d))
    {
        const int fd = std::atoi(e->d_name);
        if (e->d_name[0] != '.' && fd != own)
        {
            fds.insert(fd);
        }
    }
    closedir(d);
    return fds;
}

/// what happened in callbacks, which must not throw
struct Verdict
{
    void Must(bool ok, const char* what)
    {
        if (!ok)
        {
            std::lock_guard<std::mutex> g{m};
            if (violation.empty())
            {
                violation = what;
            }
        }
    }
    std::string Get()
    {
        std::lock_guard<std::mutex> g{m};
        return violation;
    }
    std::mutex m{};
    std::string violation{};
};

std::shared_ptr<UnixDomainEngine> MakeEngine()
{
    return std::make_shared<UnixDomainEngine>(score::cpp::pmr::get_default_resource(), LoggingCallback{});
}

/// runs a function on the engine's thread
void OnEngine(UnixDomainEngine& e, std::function<void()> f)
{
    ISharedResourceEngine::CommandQueueEntry entry;
    std::mutex m;
    std::condition_variable cv;
    bool done{false};
    e.EnqueueCommand(
        entry,
        ISharedResourceEngine::TimePoint{},
        [&](auto) noexcept {
            f();
            std::lock_guard<std::mutex> g{m};
            done = true;
            cv.notify_all();
        },
        nullptr);
    std::unique_lock<std::mutex> l{m};
    cv.wait(l, [&] { return done; });
}
Bytes Pattern(std::uint64_t salt, std::size_t n)
{
    Bytes b(n);
    std::uint64_t x = salt * 0x9E3779B97F4A7C15ULL + 1U;
    for (auto& v : b)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        v = static_cast<std::uint8_t>(x >> 56U);
    }
    return b;
}
}  // namespace

// ---------------------------------------------------------------------------------------------------------------------
// The queue of timed commands against a model, with callbacks that register and clean up.
PBT_PROPERTY(timed_queue_model, 300000, 3000000)
{
    using Queue = detail::TimedCommandQueue;
    using Entry = Queue::Entry;
    using TimePoint = Queue::TimePoint;
    struct Item
    {
        std::size_t entry;
        unsigned until;
        int owner;
        std::uint32_t id;
    };
    const std::size_t n = 1U + src.Below(7);
    Queue queue;
    std::deque<Entry> entries(n);
    int owners[3] = {0, 0, 0};
    std::vector<Item> model;                     // in queue order
    std::set<std::uint32_t> ran, dropped;        // by id
    std::map<std::uint32_t, std::uint32_t> live;  // copies of the callbacks alive
    std::uint32_t next{1};
    std::string bad;
    unsigned now_value{0};
    unsigned budget{40};
    std::uint64_t nested{0};
    const auto at = [](unsigned t) { return t == 0U ? TimePoint{} : TimePoint{} + std::chrono::milliseconds(t); };
    const auto owner_ptr = [&](int o) -> const void* { return o < 0 ? nullptr : &owners[o]; };
    struct Guard
    {
        std::map<std::uint32_t, std::uint32_t>* live;
        std::uint32_t id;
        Guard(std::map<std::uint32_t, std::uint32_t>* l, std::uint32_t i) : live{l}, id{i} { ++(*live)[id]; }
        Guard(const Guard& o) : live{o.live}, id{o.id} { ++(*live)[id]; }
        Guard& operator=(const Guard&) = delete;
        ~Guard()
        {
            if (--(*live)[id] == 0U)
            {
                live->erase(id);
            }
        }
    };
    std::function<void(std::uint32_t)> on_run;
    std::function<void(bool)> act = [&](bool inside) {
        const auto what = src.Weighted({6, 2});
        if (what == 0U && budget > 0U)
        {
            std::vector<std::size_t> free;
            for (std::size_t i = 0; i < n; ++i)
            {
                if (std::none_of(model.begin(), model.end(), [&](const Item& x) { return x.entry == i; }))
                {
                    free.push_back(i);
                }
            }
            if (free.empty())
            {
                return;
            }
            --budget;
            const auto e = src.Pick(free);
            const int owner = static_cast<int>(src.Below(4)) - 1;
            const unsigned until = src.Chance(1, 3) ? 0U : static_cast<unsigned>(1U + src.Below(12));
            const auto id = next++;
            Item item{e, until, owner, id};
            auto pos = std::find_if(model.begin(), model.end(), [&](const Item& x) { return x.until > until; });
            model.insert(pos, item);
            Guard guard{&live, id};
            auto callback = [&, id, guard](TimePoint t) {
                (void)guard;
                if (t != at(now_value))
                {
                    bad = "a callback gets another time point";
                }
                on_run(id);
            };
            if (until == 0U && src.Bool())
            {
                queue.RegisterImmediateEntry(entries[e], std::move(callback), owner_ptr(owner));
            }
            else
            {
                queue.RegisterTimedEntry(entries[e], at(until), std::move(callback), owner_ptr(owner));
            }
            nested += inside ? 1U : 0U;
        }
        else if (what == 1U)
        {
            const int owner = static_cast<int>(src.Below(4)) - 1;
            queue.CleanUpOwner(owner_ptr(owner));
            for (auto it = model.begin(); it != model.end();)
            {
                if (owner >= 0 && it->owner == owner)
                {
                    dropped.insert(it->id);
                    if (live.count(it->id) != 0U)
                    {
                        bad = "the callback of a removed command is kept";
                    }
                    it = model.erase(it);
                }
                else
                {
                    ++it;
                }
            }
            nested += inside ? 1U : 0U;
        }
    };
    on_run = [&](std::uint32_t id) {
        if (model.empty() || model.front().id != id)
        {
            bad = "command " + std::to_string(id) + " runs, " + (model.empty() ? "none" : std::to_string(model.front().id)) + " is next";
            return;
        }
        if (model.front().until > now_value)
        {
            bad = "a command runs before it is due";
        }
        model.erase(model.begin());
        if (!ran.insert(id).second || dropped.count(id) != 0U)
        {
            bad = "a command runs twice or after its removal";
        }
        for (auto k = src.Below(3); k > 0U; --k)
        {
            act(true);
        }
    };
    for (unsigned step = static_cast<unsigned>(1U + src.Below(14)); step > 0U; --step)
    {
        for (auto k = src.Below(5); k > 0U; --k)
        {
            act(false);
        }
        now_value = src.Chance(1, 6) ? now_value : now_value + static_cast<unsigned>(src.Below(5));
        const auto next_time = queue.ProcessQueue(at(now_value));
        PBT_CHECK(ctx, bad.empty(), "%s", bad.c_str());
        PBT_CHECK(ctx, model.empty() || model.front().until > now_value, "a due command has not run");
        PBT_CHECK(ctx, next_time == (model.empty() ? TimePoint{} : at(model.front().until)), "a wrong next time point is returned");
        PBT_CHECK(ctx, live.size() == model.size(), "%zu callbacks are kept for %zu commands", live.size(), model.size());
    }
    now_value = 1000U;
    budget = 0U;
    PBT_CHECK(ctx, queue.ProcessQueue(at(now_value)) == TimePoint{}, "the queue is not empty at the end");
    PBT_CHECK(ctx, bad.empty(), "%s", bad.c_str());
    PBT_CHECK(ctx, model.empty() && live.empty(), "commands are left at the end");
    ctx.Count("commands", ran.size());
    ctx.Count("removed", dropped.size());
    ctx.Count("nested", nested);
    if (ran.size() > 1U && (nested > 0U || !dropped.empty()))
    {
        ctx.NonTrivial();
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// The protocol of the engine over a stream: messages of every size arrive as they are, or are refused.
PBT_PROPERTY_EX(protocol_roundtrip, 6000, 200000, true, 30, 1, 0)
{
    const auto before = OpenDescriptors();
    {
        auto engine = MakeEngine();
        int sv[2];
        PBT_CHECK(ctx, socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0, "no sockets");
        const std::uint32_t room = src.PickOf<std::uint32_t>({1U, 16U, 255U, 4096U, 32768U, 65534U, 65535U, 65536U, 65537U, 70000U, 131072U});
        ISharedResourceEngine::PosixEndpointEntry endpoint;
        int unused[2];
        PBT_CHECK(ctx, pipe(unused) == 0, "no pipe");
        endpoint.owner = &endpoint;
        endpoint.fd = unused[0];
        endpoint.max_receive_size = room;
        endpoint.input = [] {};
        OnEngine(*engine, [&] { engine->RegisterPosixEndpoint(endpoint); });
        struct M
        {
            std::uint8_t code;
            Bytes data;
        };
        std::vector<M> messages;
        for (unsigned i = static_cast<unsigned>(1U + src.Below(8)); i > 0U; --i)
        {
            std::size_t size{};
            switch (src.Below(6))
            {
                case 0: size = 0U; break;
                case 1: size = src.Below(20); break;
                case 2: size = std::min<std::size_t>(room, 70000U); break;
                case 3: size = std::min<std::size_t>(room, 70000U) - src.Below(std::min<std::size_t>(room, 3U) + 1U); break;
                case 4: size = src.Below(std::min<std::size_t>(room, 65535U) + 1U); break;
                default: size = 65533U + src.Below(6); break;
            }
            messages.push_back({static_cast<std::uint8_t>(src.Below(256)), Pattern(src.U64(), size)});
        }
        std::vector<int> results(messages.size(), -1);
        // a last message without its end
        const auto torn = src.Below(4);
        const Bytes torn_body = Pattern(7U, 1U + src.Below(room));
        std::thread sender{[&] {
            for (std::size_t i = 0; i < messages.size(); ++i)
            {
                const auto r = engine->SendProtocolMessage(sv[0], messages[i].code, Message{messages[i].data.data(), messages[i].data.size()});
                results[i] = r.has_value() ? 0 : r.error().GetOsDependentErrorCode();
                if (results[i] == 0 && messages[i].data.size() > room)
                {
                    break;  // the receiver ends the connection here
                }
            }
            if (torn != 0U)
            {
                Bytes raw(3U);
                const auto full = static_cast<std::uint16_t>(std::min<std::size_t>(torn_body.size() + 1U, 65535U));
                raw[0] = 1U;
                std::memcpy(&raw[1], &full, 2U);
                raw.resize(torn == 1U ? 1U : torn == 2U ? 2U : 3U);
                if (torn == 3U && torn_body.size() + 1U <= std::min<std::size_t>(room, 65535U))
                {
                    raw.insert(raw.end(), torn_body.begin(), torn_body.end());
                }
                (void)!send(sv[0], raw.data(), raw.size(), MSG_NOSIGNAL);
            }
            shutdown(sv[0], SHUT_WR);
        }};
        std::size_t got{0};
        std::string bad;
        bool ended{false};
        const auto receive = [&] {
            for (std::size_t i = 0; i < messages.size() && bad.empty() && !ended; ++i)
            {
                const auto& m = messages[i];
                if (m.data.size() > 65535U)
                {
                    continue;
                }
                std::uint8_t code{0xAA};
                const auto r = engine->ReceiveProtocolMessage(sv[1], code);
                if (m.data.size() > room)
                {
                    if (r.has_value() || r.error().GetOsDependentErrorCode() != EMSGSIZE)
                    {
                        bad = "a message of " + std::to_string(m.data.size()) + " bytes is received into " + std::to_string(room);
                    }
                    ended = true;
                    break;
                }
                if (!r.has_value())
                {
                    bad = "a message of " + std::to_string(m.data.size()) + " bytes is refused with " + std::to_string(r.error().GetOsDependentErrorCode()) + ", there are " + std::to_string(room);
                    break;
                }
                if (code != m.code || r.value().size() != m.data.size() || !std::equal(m.data.begin(), m.data.end(), r.value().begin()))
                {
                    bad = "a message arrives changed";
                }
                ++got;
            }
            if (bad.empty() && !ended)
            {
                std::uint8_t code{};
                const auto r = engine->ReceiveProtocolMessage(sv[1], code);
                if (r.has_value())
                {
                    bad = "a message is received that was not sent completely";
                }
                else if (torn == 0U && r.error().GetOsDependentErrorCode() != EPIPE)
                {
                    bad = "the end of the peer is told as " + std::to_string(r.error().GetOsDependentErrorCode());
                }
            }
            shutdown(sv[1], SHUT_RDWR);  // lets a blocked sender go on
        };
        OnEngine(*engine, receive);
        sender.join();
        PBT_CHECK(ctx, bad.empty(), "%s", bad.c_str());
        for (std::size_t i = 0; i < messages.size(); ++i)
        {
            const bool big = messages[i].data.size() > 65535U;
            PBT_CHECK(ctx, results[i] == -1 || (results[i] == EMSGSIZE) == big, "sending %zu bytes returns %d", messages[i].data.size(), results[i]);
            PBT_CHECK(ctx, ended || results[i] == (big ? EMSGSIZE : 0), "sending %zu bytes returns %d", messages[i].data.size(), results[i]);
        }
        OnEngine(*engine, [&] { engine->UnregisterPosixEndpoint(endpoint); });
        close(sv[0]);
        close(sv[1]);
        close(unused[0]);
        close(unused[1]);
        ctx.Count("messages", got);
        ctx.Label(torn == 0U ? "complete" : "torn end");
        if (got > 0U)
        {
            ctx.NonTrivial();
        }
    }
    PBT_CHECK(ctx, OpenDescriptors() == before, "descriptors are left open");
}

// ---------------------------------------------------------------------------------------------------------------------
// The timers of the engine in real time.
PBT_PROPERTY_EX(engine_timers, 1500, 60000, true, 40, 1, 0)
{
    auto engine = MakeEngine();
    Verdict v;
    struct T
    {
        ISharedResourceEngine::CommandQueueEntry entry{};
        std::vector<unsigned> delays{};  // of this run and its repetitions
        std::size_t next{0};
        SteadyClock::time_point due{};
        SteadyClock::time_point first{};
        unsigned work_us{0};
        int owner{0};
        std::size_t index{0};
        std::atomic<unsigned> runs{0};
    };
    const std::size_t n = 1U + src.Below(8);
    std::deque<T> timers(n);
    const void* owners[2] = {&timers, &v};
    std::uint64_t planned{0};
    std::size_t armed{0};
    for (auto& t : timers)
    {
        for (auto k = 1U + src.Below(4); k > 0U; --k)
        {
            // 0: at once
            t.delays.push_back(src.Chance(1, 3) ? 0U : static_cast<unsigned>(src.Below(12000)));
            ++planned;
        }
        t.work_us = src.Chance(1, 4) ? static_cast<unsigned>(src.Below(6000)) : 0U;
        t.owner = static_cast<int>(src.Below(2));
        t.index = armed++;
    }
    const bool clean = src.Chance(1, 3);
    const unsigned clean_after_us = static_cast<unsigned>(src.Below(8000));
    std::atomic<bool> cleaned{false};
    std::mutex m;
    std::condition_variable cv;
    std::uint64_t done{0};
    std::function<void(T&)> arm;
    std::vector<std::pair<SteadyClock::time_point, T*>> log;
    arm = [&](T& t) {
        const auto delay = t.delays[t.next];
        t.due = delay == 0U ? SteadyClock::time_point{} : SteadyClock::now() + std::chrono::microseconds(delay);
        t.first = t.next == 0U ? t.due : t.first;
        engine->EnqueueCommand(
            t.entry,
            t.due,
            [&](SteadyClock::time_point now) {
                const auto real = SteadyClock::now();
                v.Must(engine->IsOnCallbackThread(), "a command runs on another thread");
                v.Must(!(cleaned && t.owner == 0), "a command runs after its owner has been cleaned up");
                v.Must(real >= t.due && now >= t.due, "a command runs before it is due");
                v.Must(now <= real, "a command is told a time point in the future");
                if (t.work_us > 0U)
                {
                    std::this_thread::sleep_for(std::chrono::microseconds(t.work_us));
                }
                ++t.runs;
                ++t.next;
                const bool more = t.next < t.delays.size();
                if (more)
                {
                    arm(t);
                }
                std::lock_guard<std::mutex> g{m};
                log.push_back({real, &t});
                ++done;
                cv.notify_all();
            },
            owners[t.owner]);
    };
    const bool other_thread = src.Bool();
    auto start = [&] {
        for (auto& t : timers)
        {
            arm(t);
        }
    };
    if (other_thread)
    {
        std::thread th{start};
        th.join();
    }
    else
    {
        OnEngine(*engine, start);
    }
    std::uint64_t expected{planned};
    if (clean)
    {
        std::this_thread::sleep_for(std::chrono::microseconds(clean_after_us));
        engine->CleanUpOwner(owners[0]);
        cleaned = true;
        expected = 0U;
        for (auto& t : timers)
        {
            expected += t.owner == 0 ? t.runs.load() : t.delays.size();
        }
        ctx.Label("cleaned up");
    }
    bool in_time{false};
    {
        std::unique_lock<std::mutex> l{m};
        in_time = cv.wait_for(l, std::chrono::seconds(10), [&] { return done >= expected; });
    }
    std::this_thread::sleep_for(std::chrono::microseconds(src.Below(3000)));
    OnEngine(*engine, [] {});
    const auto bad = v.Get();
    PBT_CHECK(ctx, bad.empty(), "%s", bad.c_str());
    PBT_CHECK(ctx, in_time, "%llu of %llu commands have run within 10 s", static_cast<unsigned long long>(done), static_cast<unsigned long long>(expected));
    PBT_CHECK(ctx, done == expected, "%llu commands have run, %llu were registered", static_cast<unsigned long long>(done), static_cast<unsigned long long>(expected));
    for (auto& t : timers)
    {
        PBT_CHECK(ctx, (clean && t.owner == 0) || t.runs == t.delays.size(), "a command has run %u times, was registered %zu times", t.runs.load(), t.delays.size());
    }
    if (!other_thread)
    {
        // all of them were registered before the first one ran
        T* last{nullptr};
        std::set<T*> seen;
        for (auto& l : log)
        {
            if (seen.insert(l.second).second)
            {
                PBT_CHECK(ctx, last == nullptr || last->first < l.second->first || (last->first == l.second->first && last->index < l.second->index), "commands run out of order");
                last = l.second;
            }
        }
    }
    engine.reset();
    ctx.Count("commands", done);
    if (done > 2U)
    {
        ctx.NonTrivial();
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Clients and a server.
namespace
{
enum Flag : std::uint8_t
{
    kReplyNow,
    kReplyLater,
    kNotify,
    kFail,
    kDisconnect,
    kDisconnectLater,
    kOversizeFirst,
    kFlush
};
constexpr std::size_t kHead = 7U;  // client, session, thread, sequence number (2), flag, count

class FaultySocket final : public score::os::Socket
{
  public:
    explicit FaultySocket(score::cpp::pmr::unique_ptr<score::os::Socket> s) : s_{std::move(s)} {}
    score::cpp::expected<std::int32_t, Err> socket(Domain d, std::int32_t t, std::int32_t p) const noexcept override { return s_->socket(d, t, p); }
    score::cpp::expected_blank<Err> bind(std::int32_t s, const struct sockaddr* a, socklen_t l) const noexcept override { return s_->bind(s, a, l); }
    score::cpp::expected_blank<Err> listen(std::int32_t s, std::int32_t b) const noexcept override { return s_->listen(s, b); }
    score::cpp::expected<std::int32_t, Err> accept(std::int32_t s, struct sockaddr* a, socklen_t* l) const noexcept override
    {
        if (accept_failures > 0)
        {
            --accept_failures;
            return score::cpp::make_unexpected(Err::createFromErrno(EMFILE));
        }
        return s_->accept(s, a, l);
    }
    score::cpp::expected_blank<Err> connect(std::int32_t s, const struct sockaddr* a, socklen_t l) const noexcept override { return s_->connect(s, a, l); }
    score::cpp::expected_blank<Err> setsockopt(std::int32_t s, std::int32_t l, std::int32_t o, const void* v, socklen_t n) const noexcept override
    {
        return s_->setsockopt(s, l, o, v, n);
    }
    score::cpp::expected_blank<Err> getsockopt(std::int32_t s, std::int32_t l, std::int32_t o, void* v, socklen_t* n) const noexcept override
    {
        return s_->getsockopt(s, l, o, v, n);
    }
    score::cpp::expected<ssize_t, Err> recv(std::int32_t s, void* b, std::size_t n, MessageFlag f) const noexcept override { return s_->recv(s, b, n, f); }
    score::cpp::expected<ssize_t, Err> send(std::int32_t s, const void* b, std::size_t n, MessageFlag f) const noexcept override { return s_->send(s, b, n, f); }
    score::cpp::expected<ssize_t, Err> sendto(std::int32_t s, const void* b, std::size_t n, MessageFlag f, const struct sockaddr* a, socklen_t l) const noexcept override
    {
        return s_->sendto(s, b, n, f, a, l);
    }
    score::cpp::expected<ssize_t, Err> recvmsg(std::int32_t s, struct msghdr* m, MessageFlag f) const noexcept override { return s_->recvmsg(s, m, f); }
    score::cpp::expected<ssize_t, Err> sendmsg(std::int32_t s, const struct msghdr* m, MessageFlag f) const noexcept override { return s_->sendmsg(s, m, f); }

    mutable std::atomic<int> accept_failures{0};

  private:
    score::cpp::pmr::unique_ptr<score::os::Socket> s_;
};

// Closes sockets at its end only, so that their numbers are not used again while a sender may still use the old one
// (known: a connection reads its descriptor without a lock when it sends).
struct LateClosing final : public score::os::internal::UnistdImpl
{
    explicit LateClosing(Verdict& v) : v_{v} {}
    score::cpp::expected_blank<Err> close(const std::int32_t fd) const noexcept override
    {
        struct stat s{};
        int listens{0};
        socklen_t size{sizeof(listens)};
        if (::fstat(fd, &s) != 0 || !S_ISSOCK(s.st_mode) || (::getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &listens, &size) == 0 && listens != 0))
        {
            return score::os::internal::UnistdImpl::close(fd);
        }
        ::shutdown(fd, SHUT_RDWR);
        std::lock_guard<std::mutex> g{m_};
        v_.Must(closed_.insert(fd).second, "a descriptor is closed twice");
        return {};
    }
    ~LateClosing() override
    {
        for (const int fd : closed_)
        {
            ::close(fd);
        }
    }
    Verdict& v_;
    mutable std::mutex m_{};
    mutable std::set<int> closed_{};
};

struct Received
{
    bool request;
    Bytes data;
};
struct Conn
{
    int id{0};
    IServerConnection* connection{nullptr};
    int client{-1};
    int session{-1};
    std::vector<Received> got{};
    std::vector<Bytes> notified{};
    int disconnects{0};
    bool accepted{false};
    bool handler_destroyed{false};
    bool has_handler{false};
};
std::uint64_t Hash(const Bytes& b)
{
    std::uint64_t h{1469598103934665603ULL};
    for (const auto v : b)
    {
        h = (h ^ v) * 1099511628211ULL;
    }
    return h;
}
Bytes ReplyTo(const Bytes& request, std::size_t max)
{
    const auto h = Hash(request);
    return Pattern(h, h % 5U == 0U ? max : h % 7U == 0U ? 0U : (h >> 8U) % (std::min<std::size_t>(max, 900U) + 1U));
}
}  // namespace

PBT_PROPERTY_EX(message_exchange, 2500, 100000, true, 60, 1, 0)
{
    const auto descriptors = OpenDescriptors();
    Verdict v;
    std::string late;
    std::uint64_t delivered{0}, replies{0}, notifications{0}, cut{0};
    {
        static std::atomic<unsigned> serial{0};
        const std::string name = "verif-mp-" + std::to_string(getpid()) + "-" + std::to_string(serial++);
        // ---- configuration
        const std::size_t clients = 1U + src.Below(3);
        const bool two_threads = src.Chance(1, 3);
        const std::uint32_t max_send = src.PickOf<std::uint32_t>({16U, 64U, 1000U, 9000U, two_threads ? 9001U : 40000U});
        const std::uint32_t max_reply = src.PickOf<std::uint32_t>({0U, 1U, 64U, 1000U, 9000U});
        const std::uint32_t max_notify = src.PickOf<std::uint32_t>({8U, 64U, 1000U, 9000U});
        const ServiceProtocolConfig protocol{name, max_send, max_reply, max_notify};
        const bool shared_engine = src.Chance(1, 4);   // clients
        const bool all_on_one = src.Chance(1, 6);      // and the server
        const bool rough = src.Bool();                 // endings by the server, rejected connections, bad peers
        const bool restart_server = rough && src.Chance(1, 3);
        const int rejects = rough && src.Chance(1, 3) ? 1 + static_cast<int>(src.Below(2)) : 0;
        const unsigned rogues = rough && src.Chance(1, 2) ? static_cast<unsigned>(1U + src.Below(3)) : 0U;
        const bool late_server = src.Chance(1, 8);
        std::vector<unsigned> rogue_kinds;
        for (unsigned i = 0; i < rogues; ++i)
        {
            rogue_kinds.push_back(static_cast<unsigned>(src.Below(7)));
        }
        const unsigned handler_mode = static_cast<unsigned>(src.Below(3));  // void*, integer, handler
        const bool no_disconnect_callback = handler_mode != 2U && src.Chance(1, 10);
        const int accept_failures = src.Chance(1, 5) ? 1 + static_cast<int>(src.Below(3)) : 0;

        auto server_engine = MakeEngine();
        std::vector<std::shared_ptr<UnixDomainEngine>> engines;
        for (std::size_t c = 0; c < clients; ++c)
        {
            engines.push_back(all_on_one ? server_engine : shared_engine && c > 0U ? engines[0] : MakeEngine());
        }
        auto faulty = score::cpp::pmr::make_unique<FaultySocket>(score::cpp::pmr::get_default_resource(), std::move(server_engine->GetOsResources().socket));
        faulty->accept_failures = accept_failures;
        server_engine->GetOsResources().socket = std::move(faulty);

        if (rough)
        {
            for (auto& e : engines)
            {
                if (&e == &engines[0] || e != engines[0])
                {
                    e->GetOsResources().unistd = score::cpp::pmr::make_unique<LateClosing>(score::cpp::pmr::get_default_resource(), v);
                }
            }
        }

        // ---- server
        std::mutex m;
        std::condition_variable cv;
        std::deque<Conn> conns;
        int rejected{0}, to_reject{rejects};
        bool listening{false};
        struct Later
        {
            Conn* conn;
            Bytes request;
            unsigned notifications;
            bool disconnect;
            bool flush;
        };
        std::deque<Later> later;
        bool quit{false};
        std::uint32_t notify_salt{static_cast<std::uint32_t>(src.Below(1000))};
        const auto notify = [&](Conn& c) {
            // (the caller makes sure that the connection stays)
            std::lock_guard<std::mutex> g{m};
            const auto k = ++notify_salt;
            Bytes b = Pattern(k, k % 6U == 0U ? max_notify : k % 9U == 0U ? 0U : k * 31U % (std::min<std::uint32_t>(max_notify, 500U) + 1U));
            if (k % 11U == 0U)
            {
                const Bytes big(max_notify + 1U);
                const auto r = c.connection->Notify(Message{big.data(), big.size()});
                v.Must(!r.has_value() && r.error().GetOsDependentErrorCode() == EMSGSIZE, "a notification above the maximum size is not refused");
            }
            const auto r = c.connection->Notify(Message{b.data(), b.size()});
            if (r.has_value())
            {
                c.notified.push_back(b);
            }
        };
        const auto reply = [&](IServerConnection& c, const Bytes& request) {
            const auto r = ReplyTo(request, max_reply);
            return c.Reply(Message{r.data(), r.size()}).has_value();
        };
        std::function<score::cpp::expected_blank<Err>(Conn&, IServerConnection&, Message, bool)> on_message = [&](Conn& c, IServerConnection& sc, Message msg, bool request) -> score::cpp::expected_blank<Err> {
            v.Must(server_engine->IsOnCallbackThread(), "a message callback runs on another thread");
            v.Must(&sc == c.connection, "a message comes from another connection than the one of its user data");
            const Bytes b(msg.begin(), msg.end());
            Flag flag = kReplyNow;
            unsigned count{0};
            bool good{true};
            {
                std::lock_guard<std::mutex> g{m};
                v.Must(listening, "a message callback runs after the server has stopped listening");
                v.Must(c.disconnects == 0, "a message callback runs after the disconnection callback");
                if (c.client == -1)
                {
                    // the first message of a connection tells who it is
                    c.client = b.size() >= 2U ? b[0] : 250;
                    c.session = b.size() >= 2U ? b[1] : 0;
                }
                c.got.push_back({request, b});
                if (b.size() >= kHead)
                {
                    flag = static_cast<Flag>(b[5]);
                    count = b[6];
                }
                good = c.client < 200;
            }
            if (!good)
            {
                return {};
            }
            if (flag == kFail)
            {
                return score::cpp::make_unexpected(Err::createFromErrno(EINVAL));
            }
            if (flag == kDisconnect)
            {
                sc.RequestDisconnect();
                if (count % 2U == 0U)
                {
                    sc.RequestDisconnect();
                }
                if (count % 3U == 0U)
                {
                    return score::cpp::make_unexpected(Err::createFromErrno(EINVAL));
                }
            }
            if (flag == kNotify)
            {
                for (unsigned i = 0; i < count; ++i)
                {
                    notify(c);
                }
            }
            if (request && flag == kOversizeFirst)
            {
                const Bytes big(max_reply + 1U + count);
                const auto r = sc.Reply(Message{big.data(), big.size()});
                v.Must(!r.has_value() && r.error().GetOsDependentErrorCode() == EMSGSIZE, "a reply above the maximum size is not refused");
            }
            // (without a disconnection callback nobody else knows how long the connection stays)
            if (!no_disconnect_callback && (flag == kReplyLater || flag == kFlush || flag == kDisconnectLater))
            {
                std::lock_guard<std::mutex> g{m};
                later.push_back({&c, request ? b : Bytes{}, flag == kReplyLater ? count : 0U, flag == kDisconnectLater, request});
                cv.notify_all();
                return {};
            }
            if (request)
            {
                reply(sc, b);
            }
            return {};
        };
        const auto on_disconnect = [&](Conn& c, IServerConnection& sc) {
            v.Must(server_engine->IsOnCallbackThread(), "a disconnection callback runs on another thread");
            v.Must(&sc == c.connection, "the disconnection callback gets another connection");
            std::unique_lock<std::mutex> l{m};
            // whoever still uses the connection may do so until the end of this callback
            cv.wait(l, [&] { return std::none_of(later.begin(), later.end(), [&](const Later& x) { return x.conn == &c; }); });
            ++c.disconnects;
            cv.notify_all();
        };
        struct Handler final : IConnectionHandler
        {
            Conn* c{nullptr};
            decltype(on_message)* message{nullptr};
            std::function<void(Conn&, IServerConnection&)> disconnect{};
            Verdict* v{nullptr};
            score::cpp::expected_blank<Err> OnMessageSent(IServerConnection& sc, Message msg) noexcept override { return (*message)(*c, sc, msg, false); }
            score::cpp::expected_blank<Err> OnMessageSentWithReply(IServerConnection& sc, Message msg) noexcept override { return (*message)(*c, sc, msg, true); }
            void OnDisconnect(IServerConnection& sc) noexcept override { disconnect(*c, sc); }
            ~Handler() override
            {
                v->Must(c->disconnects == 1, "a handler is destroyed before its disconnection callback");
                c->handler_destroyed = true;
            }
        };
        const auto conn_of = [&](IServerConnection& sc) -> Conn& {
            auto& d = sc.GetUserData();
            if (handler_mode == 0U)
            {
                return *static_cast<Conn*>(std::get<void*>(d));
            }
            std::lock_guard<std::mutex> g{m};
            return conns[std::get<std::uintptr_t>(d)];
        };
        UnixDomainServerFactory server_factory{server_engine};
        auto server = server_factory.Create(protocol, IServerFactory::ServerConfig{});
        const auto listen = [&] {
            {
                std::lock_guard<std::mutex> g{m};
                listening = true;
            }
            DisconnectCallback dc{};
            if (!no_disconnect_callback)
            {
                dc = [&](IServerConnection& sc) { on_disconnect(conn_of(sc), sc); };
            }
            return server->StartListening(
                [&](IServerConnection& sc) -> score::cpp::expected<UserData, Err> {
                    v.Must(server_engine->IsOnCallbackThread(), "a connection callback runs on another thread");
                    const auto& id = sc.GetClientIdentity();
                    v.Must(id.pid == getpid() && id.uid == getuid() && id.gid == getgid(), "a client has a wrong identity");
                    std::lock_guard<std::mutex> g{m};
                    v.Must(listening, "a connection callback runs after the server has stopped listening");
                    if (to_reject > 0)
                    {
                        --to_reject;
                        ++rejected;
                        return score::cpp::make_unexpected(Err::createFromErrno(EACCES));
                    }
                    conns.emplace_back();
                    auto& c = conns.back();
                    c.id = static_cast<int>(conns.size()) - 1;
                    c.connection = &sc;
                    c.accepted = true;
                    if (handler_mode == 0U)
                    {
                        return UserData{static_cast<void*>(&c)};
                    }
                    if (handler_mode == 1U)
                    {
                        return UserData{static_cast<std::uintptr_t>(c.id)};
                    }
                    auto h = score::cpp::pmr::make_unique<Handler>(score::cpp::pmr::get_default_resource());
                    h->c = &c;
                    h->message = &on_message;
                    h->disconnect = on_disconnect;
                    h->v = &v;
                    c.has_handler = true;
                    return UserData{score::cpp::pmr::unique_ptr<IConnectionHandler>{std::move(h)}};
                },
                std::move(dc),
                [&](IServerConnection& sc, Message msg) { return on_message(conn_of(sc), sc, msg, false); },
                [&](IServerConnection& sc, Message msg) { return on_message(conn_of(sc), sc, msg, true); });
        };
        const auto stop_listening = [&] {
            server->StopListening();
            std::lock_guard<std::mutex> g{m};
            listening = false;
            for (auto& c : conns)
            {
                v.Must(no_disconnect_callback || c.disconnects == 1, "a connection has not been disconnected once when the server has stopped listening");
                v.Must(!c.has_handler || c.handler_destroyed, "a handler has not been destroyed when the server has stopped listening");
            }
        };
        std::thread worker{[&] {
            std::unique_lock<std::mutex> l{m};
            for (;;)
            {
                cv.wait(l, [&] { return quit || !later.empty(); });
                if (later.empty())
                {
                    break;
                }
                Later x = later.front();
                l.unlock();
                for (unsigned i = 0; i < x.notifications; ++i)
                {
                    notify(*x.conn);
                }
                if (x.disconnect)
                {
                    x.conn->connection->RequestDisconnect();
                }
                if (x.flush)
                {
                    reply(*x.conn->connection, x.request);
                }
                l.lock();
                later.pop_front();
                cv.notify_all();
            }
        }};

        // ---- clients
        struct Sent
        {
            unsigned kind;  // 0 send, 1 callback, 2 wait
            int thread;
            Bytes data;
            int error{-1};       // of the call
            int callbacks{0};
            int callback_error{-1};
        };
        struct Op
        {
            unsigned kind;
            std::size_t size;
            Flag flag;
            unsigned count;
        };
        struct Session
        {
            std::vector<Op> ops[2];
            std::deque<Sent> sent[2];  // of this session (callbacks refer to them)
            std::vector<Bytes> notified{};
            bool clean{false};
            StopReason reason{StopReason::kNone};
        };
        struct Client
        {
            IClientFactory::ClientConfig cfg{};
            std::deque<Session> sessions{};
            std::vector<State> states{};
            score::cpp::pmr::unique_ptr<IClientConnection> connection{};
            std::atomic<int> session{-1};
            std::mutex m{};
            std::condition_variable cv{};
            int ready{0}, stopped{0};
            bool in_stopped_callback{false};
        };
        std::deque<Client> cl(clients);
        for (std::size_t c = 0; c < clients; ++c)
        {
            auto& x = cl[c];
            x.cfg.max_async_replies = static_cast<std::uint32_t>(src.Below(5));
            x.cfg.max_queued_sends = static_cast<std::uint32_t>(src.Below(9));
            x.cfg.fully_ordered = src.Bool();
            x.cfg.truly_async = src.Chance(1, 3);
            x.cfg.sync_first_connect = src.Chance(1, 4);
            const auto count = 1U + src.Below(3);
            for (std::size_t s = 0; s < count; ++s)
            {
                x.sessions.emplace_back();
                auto& se = x.sessions.back();
                std::size_t bytes{90000U};
                for (int t = 0; t < (two_threads ? 2 : 1); ++t)
                {
                    for (auto k = src.Below(14); k > 0U; --k)
                    {
                        Op o{};
                        o.kind = static_cast<unsigned>(src.Below(3));
                        o.size = src.Chance(1, 6) ? max_send : src.Chance(1, 12) ? max_send + 1U + src.Below(3) : kHead + src.Below(std::min<std::size_t>(max_send - kHead, src.Bool() ? 40U : 9000U) + 1U);
                        if (!two_threads && src.Chance(1, 12))
                        {
                            o.size = src.Below(2) == 0U ? 0U : 2U + src.Below(kHead - 2U);
                        }
                        if (o.size > bytes)
                        {
                            continue;
                        }
                        bytes -= o.size;
                        o.flag = static_cast<Flag>(src.Weighted({8, 4, 4, rough ? 1U : 0U, rough ? 1U : 0U, rough ? 1U : 0U, 2}));
                        o.count = static_cast<unsigned>(src.Below(4));
                        se.ops[t].push_back(o);
                    }
                }
            }
        }
        const auto client_main = [&](std::size_t ci) {
            auto& x = cl[ci];
            UnixDomainClientFactory factory{engines[ci]};
            x.connection = factory.Create(protocol, x.cfg);
            v.Must(x.connection->GetState() == State::kStopped, "a connection is not stopped before it is started");
            const auto on_state = [&](State s) {
                std::lock_guard<std::mutex> g{x.m};
                x.states.push_back(s);
                x.ready += s == State::kReady ? 1 : 0;
                x.stopped += s == State::kStopped ? 1 : 0;
                x.cv.notify_all();
            };
            const auto on_notify = [&](Message msg) {
                v.Must(engines[ci]->IsOnCallbackThread(), "a notification callback runs on another thread");
                const int s = x.session;
                std::lock_guard<std::mutex> g{x.m};
                if (s >= 0)
                {
                    x.sessions[static_cast<std::size_t>(s)].notified.emplace_back(msg.begin(), msg.end());
                }
            };
            bool first{true};
            for (std::size_t si = 0; si < x.sessions.size(); ++si)
            {
                auto& se = x.sessions[si];
                // connect; again when the server rejects or ends it at once
                int ready_before{0}, stopped_before{0};
                const auto connect = [&] {
                    {
                        std::lock_guard<std::mutex> g{x.m};
                        ready_before = x.ready;
                        stopped_before = x.stopped;
                    }
                    x.session = static_cast<int>(si);
                    first ? x.connection->Start(on_state, on_notify) : x.connection->Restart();
                    first = false;
                    std::unique_lock<std::mutex> l{x.m};
                    x.cv.wait(l, [&] { return x.ready > ready_before || x.stopped > stopped_before; });
                };
                bool up{false};
                for (unsigned attempt = 0; attempt < 20U && !up; ++attempt)
                {
                    connect();
                    Bytes hello(kHead, 0U);
                    hello[0] = static_cast<std::uint8_t>(ci);
                    hello[1] = static_cast<std::uint8_t>(si);
                    hello[2] = 9U;
                    hello[6] = static_cast<std::uint8_t>(attempt);
                    Bytes room(max_reply + 4U, 0x77U);
                    const auto r = x.connection->SendWaitReply(Message{hello.data(), hello.size()}, score::cpp::span<std::uint8_t>{room.data(), max_reply});
                    up = r.has_value();
                    if (up)
                    {
                        v.Must(Bytes(r.value().begin(), r.value().end()) == ReplyTo(hello, max_reply), "the first request gets another reply than that to it");
                        v.Must(x.connection->GetState() != State::kStarting, "a connection is starting although it has exchanged a message");
                    }
                    else
                    {
                        v.Must(r.error().GetOsDependentErrorCode() == EPIPE || r.error().GetOsDependentErrorCode() == EINVAL || r.error().GetOsDependentErrorCode() == ECONNRESET || r.error().GetOsDependentErrorCode() == EBADF, "the first request fails for another reason than the end of the connection");
                        std::unique_lock<std::mutex> l{x.m};
                        x.cv.wait(l, [&] { return x.stopped > stopped_before; });
                        l.unlock();
                        v.Must(rough, "a connection is ended although nobody has asked for it");
                        std::lock_guard<std::mutex> g{x.m};
                        se.notified.clear();
                    }
                }
                if (!up)
                {
                    v.Must(false, "no connection in 20 attempts");
                    break;
                }
                const auto run = [&](int t) {
                    std::uint16_t seq{0};
                    for (auto& o : se.ops[t])
                    {
                        ++seq;
                        Bytes b = Pattern(ci * 1000U + si * 100U + static_cast<unsigned>(t) * 10000U + seq, o.size);
                        const Bytes head{static_cast<std::uint8_t>(ci), static_cast<std::uint8_t>(si), static_cast<std::uint8_t>(t), static_cast<std::uint8_t>(seq & 0xFFU), static_cast<std::uint8_t>(seq >> 8U), o.flag, static_cast<std::uint8_t>(o.count)};
                        std::copy_n(head.begin(), std::min(head.size(), b.size()), b.begin());
                        Sent* sent{nullptr};
                        {
                            std::lock_guard<std::mutex> g{x.m};
                            se.sent[t].push_back({o.kind, t, b});
                            sent = &se.sent[t].back();
                        }
                        int err{0};
                        if (o.kind == 0U)
                        {
                            const auto r = x.connection->Send(Message{b.data(), b.size()});
                            err = r.has_value() ? 0 : r.error().GetOsDependentErrorCode();
                        }
                        else if (o.kind == 1U)
                        {
                            const auto r = x.connection->SendWithCallback(Message{b.data(), b.size()}, [&, sent](score::cpp::expected<Message, Err> e) {
                                v.Must(engines[ci]->IsOnCallbackThread(), "a reply callback runs on another thread");
                                std::lock_guard<std::mutex> g{x.m};
                                ++sent->callbacks;
                                sent->callback_error = e.has_value() ? 0 : e.error().GetOsDependentErrorCode();
                                v.Must(!e.has_value() || Bytes(e.value().begin(), e.value().end()) == ReplyTo(sent->data, max_reply), "a reply callback gets another reply than that to its request");
                            });
                            err = r.has_value() ? 0 : r.error().GetOsDependentErrorCode();
                        }
                        else
                        {
                            Bytes room(max_reply + 4U, 0x77U);
                            const auto r = x.connection->SendWaitReply(Message{b.data(), b.size()}, score::cpp::span<std::uint8_t>{room.data(), max_reply});
                            err = r.has_value() ? 0 : r.error().GetOsDependentErrorCode();
                            v.Must(!r.has_value() || Bytes(r.value().begin(), r.value().end()) == ReplyTo(b, max_reply), "SendWaitReply returns another reply than that to its request");
                            v.Must(std::all_of(room.begin() + max_reply, room.end(), [](std::uint8_t z) { return z == 0x77U; }), "SendWaitReply writes behind the reply buffer");
                        }
                        v.Must((err == EMSGSIZE) == (o.size > max_send), "messages above the maximum size and only those are refused for their size");
                        std::lock_guard<std::mutex> g{x.m};
                        sent->error = err;
                    }
                };
                std::thread second;
                if (two_threads)
                {
                    second = std::thread{run, 1};
                }
                run(0);
                if (two_threads)
                {
                    second.join();
                }
                // everything before this one is done when it is answered
                Bytes flush(kHead, 0U);
                flush[0] = static_cast<std::uint8_t>(ci);
                flush[1] = static_cast<std::uint8_t>(si);
                flush[2] = 8U;
                flush[5] = kFlush;
                Bytes room(max_reply + 1U);
                for (;;)
                {
                    const auto r = x.connection->SendWaitReply(Message{flush.data(), flush.size()}, score::cpp::span<std::uint8_t>{room.data(), max_reply});
                    se.clean = r.has_value();
                    if (!r.has_value() && r.error().GetOsDependentErrorCode() == ENOBUFS)
                    {
                        // (a pool without entries while another request waits for its reply)
                        std::this_thread::sleep_for(std::chrono::microseconds(200));
                        continue;
                    }
                    break;
                }
                v.Must(se.clean || rough, "a session is ended although nobody has asked for it");
                if (si + 1U == x.sessions.size() && (ci % 2U == 0U))
                {
                    x.connection.reset();  // stops it, too
                    std::lock_guard<std::mutex> g{x.m};
                    v.Must(x.stopped > stopped_before, "a connection is destroyed before it is stopped");
                }
                else
                {
                    x.connection->Stop();
                    std::unique_lock<std::mutex> l{x.m};
                    x.cv.wait(l, [&] { return x.stopped > stopped_before; });
                    se.reason = x.connection->GetStopReason();
                    v.Must(!se.clean || rough || se.reason == StopReason::kUserRequested, "a stopped connection has another reason than the request of its user");
                }
            }
            if (x.connection)
            {
                // the destructor waits for the callbacks
                x.connection.reset();
            }
        };
        std::vector<std::thread> threads;
        if (!late_server)
        {
            PBT_CHECK(ctx, listen().has_value(), "the server cannot listen");
        }
        for (std::size_t c = 0; c < clients; ++c)
        {
            threads.emplace_back(client_main, c);
        }
        std::thread rogue{[&] {
            for (const auto kind : rogue_kinds)
            {
                const int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
                detail::UnixDomainSocketAddress a{name, true};
                if (::connect(fd, a.data(), a.size()) == 0)
                {
                    Bytes raw;
                    const auto header = [&](std::uint8_t code, std::uint16_t size) {
                        raw.push_back(code);
                        raw.push_back(static_cast<std::uint8_t>(size & 0xFFU));
                        raw.push_back(static_cast<std::uint8_t>(size >> 8U));
                    };
                    switch (kind)
                    {
                        case 0: break;
                        case 1: raw = {1U}; break;
                        case 2: raw = {1U, 9U}; break;
                        case 3: header(1U, 5U); raw.push_back(0U); break;
                        case 4: header(77U, 0U); break;
                        case 5: header(0U, 2U); raw.push_back(222U); raw.push_back(0U); break;
                        default: header(1U, 2U); raw.push_back(223U); raw.push_back(0U); break;
                    }
                    (void)!::send(fd, raw.data(), raw.size(), MSG_NOSIGNAL);
                }
                ::close(fd);
            }
        }};
        if (late_server)
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(src.Below(5)));
            PBT_CHECK(ctx, listen().has_value(), "the server cannot listen");
        }
        if (restart_server)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(src.Below(3000)));
            stop_listening();
            PBT_CHECK(ctx, listen().has_value(), "the server cannot listen again");
        }
        for (auto& t : threads)
        {
            t.join();
        }
        rogue.join();
        stop_listening();
        {
            std::lock_guard<std::mutex> g{m};
            quit = true;
            cv.notify_all();
        }
        worker.join();
        auto bad = v.Get();
        PBT_CHECK(ctx, bad.empty(), "%s", bad.c_str());
        PBT_CHECK(ctx, rejected <= rejects, "more connections rejected than there should be");

        // ---- what has arrived
        std::map<std::pair<int, int>, std::vector<Conn*>> by_session;
        for (auto& c : conns)
        {
            PBT_CHECK(ctx, no_disconnect_callback || c.disconnects == 1, "a connection is disconnected %d times", c.disconnects);
            if (c.client == -1)
            {
                continue;
            }
            if (c.client >= 200)
            {
                const bool known = (c.client == 222 && c.got.size() == 1U && !c.got[0].request) || (c.client == 223 && c.got.size() == 1U && c.got[0].request);
                PBT_CHECK(ctx, known, "a message arrives that nobody has sent completely");
                continue;
            }
            by_session[{c.client, c.session}].push_back(&c);
        }
        for (std::size_t ci = 0; ci < clients; ++ci)
        {
            auto& x = cl[ci];
            for (std::size_t si = 0; si < x.sessions.size(); ++si)
            {
                auto& se = x.sessions[si];
                auto& cs = by_session[{static_cast<int>(ci), static_cast<int>(si)}];
                PBT_CHECK(ctx, !cs.empty(), "no connection of a session is known to the server");
                auto& c = *cs.back();
                // attempts that were cut off have sent their first request only
                for (auto* o : cs)
                {
                    PBT_CHECK(ctx, o == &c || (o->got.size() == 1U && rough), "an earlier attempt to connect has sent %zu messages", o->got.size());
                    PBT_CHECK(ctx, !o->got.empty() && o->got[0].request && o->got[0].data.size() == kHead && o->got[0].data[2] == 9U, "the first message arrives changed");
                }
                const bool ordered = x.cfg.fully_ordered || x.cfg.truly_async;
                std::size_t next[2][2] = {{0, 0}, {0, 0}};  // by thread, by type
                std::size_t flushes{0};
                const auto same_kind = [&](const Sent& s, bool request) { return ordered || (s.kind != 0U) == request; };
                for (std::size_t i = 1; i < c.got.size(); ++i)
                {
                    auto& g = c.got[i];
                    if (g.data.size() >= kHead && g.data[2] == 8U)
                    {
                        ++flushes;
                        PBT_CHECK(ctx, g.request && g.data.size() == kHead, "the last request arrives changed");
                        continue;
                    }
                    const int t = two_threads ? (g.data.size() >= kHead ? g.data[2] : 7) : 0;
                    PBT_CHECK(ctx, t < 2, "an unknown message arrives");
                    auto& n = next[t][ordered ? 0 : g.request ? 1 : 0];
                    while (n < se.sent[t].size() && (se.sent[t][n].error == EMSGSIZE || se.sent[t][n].error == ENOBUFS || !same_kind(se.sent[t][n], g.request)))
                    {
                        ++n;
                    }
                    PBT_CHECK(ctx, n < se.sent[t].size(), "a message arrives that was not sent or was refused");
                    PBT_CHECK(ctx, se.sent[t][n].data == g.data && (se.sent[t][n].kind != 0U) == g.request, "another message arrives than the next one sent (%zu of thread %d)", n, t);
                    ++n;
                    ++delivered;
                }
                PBT_CHECK(ctx, flushes == (se.clean ? 1U : flushes) && flushes <= 1U, "the last request arrives %zu times", flushes);
                for (int t = 0; t < 2; ++t)
                {
                    for (std::size_t i = 0; i < se.sent[t].size(); ++i)
                    {
                        auto& s = se.sent[t][i];
                        const bool refused = s.error == EMSGSIZE || s.error == ENOBUFS;
                        const auto reached = next[t][ordered ? 0 : s.kind != 0U ? 1 : 0];
                        PBT_CHECK(ctx, !se.clean || s.error == 0 || refused, "a message of an undisturbed session fails with %d", s.error);
                        PBT_CHECK(ctx, !se.clean || refused || i < reached, "message %zu of thread %d of an undisturbed session is lost", i, t);
                        PBT_CHECK(ctx, s.error != ENOBUFS || s.kind == 2U || x.cfg.truly_async || x.cfg.fully_ordered || s.kind == 1U, "an unqueued message is refused for lack of queue entries");
                        if (s.kind == 1U)
                        {
                            PBT_CHECK(ctx, s.callbacks == (s.error == 0 ? 1 : 0), "the callback of a request is called %d times, the call returned %d", s.callbacks, s.error);
                            PBT_CHECK(ctx, s.callbacks == 0 || s.callback_error == 0 || (!se.clean && rough), "a request of an undisturbed session fails with %d", s.callback_error);
                            replies += s.callbacks == 1 && s.callback_error == 0 ? 1U : 0U;
                        }
                        PBT_CHECK(ctx, s.error == 0 || refused || s.error == EPIPE || s.error == EINVAL || s.error == ECONNRESET || s.error == EBADF, "a message fails with %d", s.error);
                        replies += s.kind == 2U && s.error == 0 ? 1U : 0U;
                    }
                }
                PBT_CHECK(ctx, se.notified.size() <= c.notified.size() && std::equal(se.notified.begin(), se.notified.end(), c.notified.begin()), "notifications arrive changed, in another order or twice");
                PBT_CHECK(ctx, !se.clean || se.notified.size() == c.notified.size(), "%zu of %zu notifications arrive", se.notified.size(), c.notified.size());
                notifications += se.notified.size();
                cut += se.clean ? 0U : 1U;
            }
            // states
            for (std::size_t i = 0; i < x.states.size(); ++i)
            {
                const State expected_after[] = {State::kReady, State::kStopping, State::kStopped, State::kStarting};
                if (i == 0U)
                {
                    PBT_CHECK(ctx, x.states[0] == State::kStarting, "the first state is not the start");
                    continue;
                }
                const auto a = x.states[i - 1U];
                PBT_CHECK(ctx, x.states[i] == expected_after[static_cast<int>(a)] || (a == State::kStarting && x.states[i] == State::kStopping), "state %d is told after state %d", static_cast<int>(x.states[i]), static_cast<int>(a));
            }
            PBT_CHECK(ctx, !x.states.empty() && x.states.back() == State::kStopped, "the last state is not the stop");
        }
        server.reset();
        bad = v.Get();
        PBT_CHECK(ctx, bad.empty(), "%s", bad.c_str());
        ctx.Label(rough ? "endings by the server" : "undisturbed");
        if (all_on_one)
        {
            ctx.Label("one engine for both sides");
        }
        if (two_threads)
        {
            ctx.Label("two threads per connection");
        }
    }
    PBT_CHECK(ctx, OpenDescriptors() == descriptors, "descriptors are left open");
    ctx.Count("delivered", delivered);
    ctx.Count("replies", replies);
    ctx.Count("notifications", notifications);
    ctx.Count("cut sessions", cut);
    if (delivered > 2U && replies > 0U)
    {
        ctx.NonTrivial();
    }
}
