// The client side of the message passing under owned schedules: the real ClientConnection against an engine and a server
// whose behaviour (results of connecting, sending and receiving, replies, closing) is generated.
#include "owned_sched.h"
#include "pbt.h"

#include "score/message_passing/client_connection.h"
#include "score/message_passing/client_server_communication.h"
#include "score/memory.hpp"

#include <condition_variable>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

using namespace score::message_passing;
using State = IClientConnection::State;
using StopReason = IClientConnection::StopReason;
using Bytes = std::vector<std::uint8_t>;
using Err = score::os::Error;

namespace
{
constexpr std::uint32_t kMaxSend = 24;
constexpr std::uint32_t kMaxReply = 40;

Bytes MakeBody(std::uint32_t id, std::size_t size, std::uint8_t salt)
{
    Bytes b(size);
    for (std::size_t i = 0; i < size; ++i)
    {
        b[i] = static_cast<std::uint8_t>((id * 37U + i * 11U + salt) & 0xFFU);
    }
    std::memcpy(b.data(), &id, sizeof(id));
    return b;
}
std::uint32_t IdOf(const std::uint8_t* p, std::size_t n)
{
    std::uint32_t id{0xFFFFFFFFU};
    if (n >= sizeof(id))
    {
        std::memcpy(&id, p, sizeof(id));
    }
    return id;
}
std::size_t ReplySize(std::uint32_t id)
{
    return 4U + id * 7U % (kMaxReply - 3U);
}

enum class Inbound
{
    data,
    closed,
    again,
    io_error
};
struct Packet
{
    Inbound kind{Inbound::data};
    std::uint8_t code{0};
    Bytes data{};
};
struct Received
{
    std::uint32_t id;
    bool request;
    int session;
};
enum class Act
{
    reply,
    notify,
    spurious,
    close,
    garbage,
    rogue,
    io_error
};

class World final : public ISharedResourceEngine
{
  public:
    World(pbt::Ctx& c, pbt::Src& s) : ctx{c}, src{s} {}

    // ---- ISharedResourceEngine
    score::cpp::pmr::memory_resource* GetMemoryResource() noexcept override { return score::cpp::pmr::get_default_resource(); }
    const LoggingCallback& GetLogger() & noexcept override { return logger; }
    bool IsOnCallbackThread() const noexcept override { return on_engine || (engine_task >= 0 && sched::Current() == engine_task); }
    score::cpp::expected<std::int32_t, Err> TryOpenClientConnection(std::string_view identifier) noexcept override
    {
        sched::Point();
        std::lock_guard<std::mutex> g{m};
        Must(identifier == "verif", "connects to a wrong identifier");
        ++opens;
        open_after_stop = stop_returned;
        const int e = connect_next < connect_script.size() ? connect_script[connect_next++] : 0;
        if (e != 0)
        {
            if (e != ENOENT && e != EAGAIN && e != ECONNREFUSED)
            {
                causes.insert(e == EACCES ? StopReason::kPermission : StopReason::kIoError);
            }
            return score::cpp::make_unexpected(Err::createFromErrno(e));
        }
        Must(fd == -1, "a second connection is opened while the first one is open");
        fd = next_fd++;
        ++session;
        peer_open = true;
        inbound.clear();
        requests.clear();
        return fd;
    }
    void CloseClientConnection(std::int32_t f) noexcept override
    {
        sched::Point();
        std::lock_guard<std::mutex> g{m};
        ctx.Note("close %d", f);
        Must(f == fd && f != -1, "closes a connection that is not open");
        Must(ep == nullptr, "closes a connection that is still polled");
        fd = -1;
        ++closes;
        peer_open = false;
        inbound.clear();
        requests.clear();
        cv.notify_all();
    }
    score::cpp::expected_blank<Err> SendProtocolMessage(const std::int32_t f, std::uint8_t code, const score::cpp::span<const std::uint8_t> message) noexcept override
    {
        sched::Point();
        std::lock_guard<std::mutex> g{m};
        const auto id = IdOf(message.data(), message.size());
        Must(code <= 1U, "sends an unknown kind of message");
        Must(message.size() <= kMaxSend, "sends a message above the maximum size");
        Must(Bytes(message.begin(), message.end()) == MakeBody(id, message.size(), 1U) && sizes.count(id) == 1U && sizes[id] == message.size(), "sends a message that differs from what was asked for");
        Must(is_request[id] == (code == 1U), "sends a message as the wrong kind");
        ++sends;
        ctx.Note("{%d} sends %s %u on %d", sched::Current(), code == 1U ? "request" : "message", id, f);
        if (f != fd || f == -1)
        {
            stale = stale || f != -1;
            failed_sends.insert(id);
            return score::cpp::make_unexpected(Err::createFromErrno(EBADF));
        }
        if (!peer_open)
        {
            ctx.Note("(the peer is gone)");
            failed_sends.insert(id);
            return score::cpp::make_unexpected(Err::createFromErrno(EPIPE));
        }
        if (!fail_script.empty() && fail_script[fail_next++ % fail_script.size()])
        {
            failed_sends.insert(id);
            injected.insert(id);
            return score::cpp::make_unexpected(Err::createFromErrno(EAGAIN));
        }
        if (waits.count(id) == 1U && waits[id] != session && sched::Current() != engine_task)
        {
            crossed = true;
        }
        received.push_back({id, code == 1U, session});
        if (code == 1U)
        {
            requests.push_back(id);
        }
        cv.notify_all();
        return {};
    }
    score::cpp::expected<score::cpp::span<const std::uint8_t>, Err> ReceiveProtocolMessage(const std::int32_t f, std::uint8_t& code) noexcept override
    {
        sched::Point();
        std::lock_guard<std::mutex> g{m};
        Must(f == fd, "receives from a connection that is not open");
        std::fill(buffer.begin(), buffer.end(), 0xEEU);
        if (inbound.empty())
        {
            return score::cpp::make_unexpected(Err::createFromErrno(EAGAIN));
        }
        Packet p = std::move(inbound.front());
        ctx.Note("receives %s", p.kind == Inbound::closed ? "the end" : p.kind == Inbound::io_error ? "an error" : p.kind == Inbound::again ? "nothing" : p.code == 0U ? "a reply" : p.code == 1U ? "a notification" : "garbage");
        switch (p.kind)
        {
            case Inbound::closed:
                causes.insert(StopReason::kClosedByPeer);
                return score::cpp::make_unexpected(Err::createFromErrno(EPIPE));
            case Inbound::io_error:
                causes.insert(StopReason::kIoError);
                return score::cpp::make_unexpected(Err::createFromErrno(EIO));
            case Inbound::again:
                inbound.pop_front();
                return score::cpp::make_unexpected(Err::createFromErrno(EAGAIN));
            default:
                break;
        }
        inbound.pop_front();
        code = p.code;
        if (code > 1U)
        {
            causes.insert(StopReason::kIoError);
        }
        if (p.data.size() > buffer.size())
        {
            buffer.resize(p.data.size());
        }
        std::copy(p.data.begin(), p.data.end(), buffer.begin());
        return score::cpp::span<const std::uint8_t>{buffer.data(), p.data.size()};
    }
    void EnqueueCommand(CommandQueueEntry& e, const TimePoint until, CommandCallback cb, const void* const owner) noexcept override
    {
        sched::Point();
        std::lock_guard<std::mutex> g{m};
        for (auto& c : commands)
        {
            Must(c.entry != &e, "puts a command entry into the queue that is already in it");
        }
        auto it = commands.begin();
        while (it != commands.end() && !(until < it->until))
        {
            ++it;
        }
        commands.insert(it, Command{&e, until, std::move(cb), owner, nullptr});
        cv.notify_all();
    }
    void RegisterPosixEndpoint(PosixEndpointEntry& endpoint) noexcept override
    {
        std::lock_guard<std::mutex> g{m};
        Must(IsOnCallbackThread(), "registers an endpoint on another thread");
        Must(ep == nullptr, "registers a second endpoint");
        Must(endpoint.fd == fd && fd != -1, "registers an endpoint that is not open");
        Must(endpoint.max_receive_size >= kMaxReply, "registers too small a receive size");
        ep = &endpoint;
        cv.notify_all();
    }
    void UnregisterPosixEndpoint(PosixEndpointEntry& endpoint) noexcept override
    {
        {
            std::lock_guard<std::mutex> g{m};
            Must(IsOnCallbackThread(), "unregisters an endpoint on another thread");
            if (ep != &endpoint)
            {
                return;
            }
            ep = nullptr;
        }
        if (!endpoint.disconnect.empty())
        {
            endpoint.disconnect();
        }
    }
    void CleanUpOwner(const void* const owner) noexcept override
    {
        sched::Point();
        if (!IsOnCallbackThread())
        {
            // the real engine does this on its thread and waits for it
            bool done{false};
            std::unique_lock<std::mutex> l{m};
            commands.push_front(Command{nullptr, TimePoint{}, {}, owner, &done});
            cv.notify_all();
            cv.wait(l, [&] { return done; });
            return;
        }
        Clean(owner);
    }
    void Clean(const void* owner)
    {
        std::list<Command> dropped;
        PosixEndpointEntry* e{nullptr};
        {
            std::lock_guard<std::mutex> g{m};
            if (ep != nullptr && ep->owner == owner)
            {
                e = ep;
                ep = nullptr;
            }
            for (auto it = commands.begin(); it != commands.end();)
            {
                const auto n = std::next(it);
                if (it->owner == owner && it->done == nullptr)
                {
                    dropped.splice(dropped.end(), commands, it);
                }
                it = n;
            }
        }
        if (e != nullptr && !e->disconnect.empty())
        {
            e->disconnect();
        }
    }

    // ---- the engine's thread
    bool Ready() const { return !commands.empty() || (ep != nullptr && !inbound.empty()); }
    bool Step(std::unique_lock<std::mutex>& l)
    {
        const bool input = ep != nullptr && !inbound.empty();
        const bool due = !commands.empty() && commands.front().until == TimePoint{};
        const bool timed = !commands.empty() && !due;
        if (input && !(due && src.Bool()) && !(timed && src.Chance(1, 4)))
        {
            auto* e = ep;
            ++depth;
            l.unlock();
            e->input();
            if (!on_engine && ep != nullptr && !inbound.empty() && (inbound.front().kind == Inbound::closed || inbound.front().kind == Inbound::io_error))
            {
                // nothing to be had here until the one who stops the connection goes on
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
            }
            l.lock();
            --depth;
            cv.notify_all();
            return true;
        }
        if (!commands.empty())
        {
            Command c = std::move(commands.front());
            commands.pop_front();
            if (c.done != nullptr)
            {
                l.unlock();
                Clean(c.owner);
                l.lock();
                *c.done = true;
                cv.notify_all();
                return true;
            }
            ++depth;
            l.unlock();
            {
                CommandCallback cb = std::move(c.callback);
                cb(Clock::now());
            }
            l.lock();
            --depth;
            cv.notify_all();
            return true;
        }
        return false;
    }
    void EngineTask()
    {
        std::unique_lock<std::mutex> l{m};
        for (;;)
        {
            cv.wait(l, [&] { return quit || Ready(); });
            if (!Step(l) && quit)
            {
                break;
            }
        }
    }
    /// runs the engine without a schedule
    void Drain(unsigned limit = 2000)
    {
        on_engine = true;
        std::unique_lock<std::mutex> l{m};
        while (limit-- > 0U && Step(l))
        {
        }
        l.unlock();
        on_engine = false;
    }
    // ---- the server
    void Reply(std::uint32_t id)
    {
        inbound.push_back({Inbound::data, 0U, MakeBody(id, ReplySize(id), 2U)});
    }
    void ServerTask()
    {
        std::unique_lock<std::mutex> l{m};
        std::size_t next{0};
        for (;;)
        {
            cv.wait(l, [&] { return quit || (peer_open && (!requests.empty() || (next < acts.size() && acts[next] != Act::reply))); });
            if (quit)
            {
                break;
            }
            const Act a = next < acts.size() ? acts[next++] : Act::reply;
            switch (a)
            {
                case Act::reply:
                    Reply(requests.front());
                    requests.pop_front();
                    break;
                case Act::notify:
                    ++notified;
                    inbound.push_back({Inbound::data, 1U, MakeBody(notified, 4U + notified % 20U, 3U)});
                    break;
                case Act::spurious:
                    inbound.push_back({Inbound::again, 0U, {}});
                    break;
                case Act::close:
                    peer_open = false;
                    requests.clear();
                    inbound.push_back({Inbound::closed, 0U, {}});
                    ++endings;
                    break;
                case Act::garbage:
                    inbound.push_back({Inbound::data, static_cast<std::uint8_t>(2U + next % 200U), MakeBody(0, 8U, 9U)});
                    ++endings;
                    break;
                case Act::rogue:
                    rogue = true;
                    causes.insert(StopReason::kIoError);
                    inbound.push_back({Inbound::data, 0U, MakeBody(0xFFFFU, 9U, 2U)});
                    ++endings;
                    break;
                case Act::io_error:
                    inbound.push_back({Inbound::io_error, 0U, {}});
                    ++endings;
                    break;
            }
            cv.notify_all();
            l.unlock();
            sched::Point();
            l.lock();
        }
    }
    /// the library runs through noexcept functions, so a violation seen inside is kept and reported later
    void Must(bool ok, const char* what)
    {
        if (!ok && violation.empty())
        {
            violation = what;
        }
    }

    struct Command
    {
        CommandQueueEntry* entry;
        TimePoint until;
        CommandCallback callback;
        const void* owner;
        bool* done;
    };
    pbt::Ctx& ctx;
    pbt::Src& src;
    LoggingCallback logger{};
    std::mutex m{};
    std::condition_variable cv{};
    std::list<Command> commands{};
    PosixEndpointEntry* ep{nullptr};
    int fd{-1};
    int next_fd{100};
    int session{0};
    bool peer_open{false};
    std::deque<Packet> inbound{};
    std::deque<std::uint32_t> requests{};
    std::vector<Received> received{};
    Bytes buffer = Bytes(kMaxReply, 0xEEU);
    std::vector<int> connect_script{};
    std::size_t connect_next{0};
    std::vector<bool> fail_script{};
    std::size_t fail_next{0};
    std::vector<Act> acts{};
    std::set<std::uint32_t> failed_sends{};
    std::set<std::uint32_t> injected{};
    std::map<std::uint32_t, std::size_t> sizes{};
    std::map<std::uint32_t, bool> is_request{};
    std::set<StopReason> causes{};
    std::uint32_t notified{0};
    std::string violation{};
    bool quit{false};
    bool on_engine{false};
    bool rogue{false};
    bool crossed{false}, stale{false};
    std::map<std::uint32_t, int> waits{};  // session in which a SendWaitReply was called
    bool stop_returned{false};
    bool open_after_stop{false};
    int engine_task{-1};
    int opens{0}, closes{0}, endings{0}, depth{0};
    std::uint64_t sends{0};
};

enum class Kind
{
    send,
    callback,
    wait
};
struct Message
{
    Kind kind{Kind::send};
    int thread{0};
    bool called{false};
    bool accepted{false};
    bool returned{false};
    int error{0};
    int endings_at_call{0};      // causes of the end of the connection up to the call
    int endings_at_return{0};
    int calls{0};
    bool answered{false};
    std::uint64_t callback_order{0};
};
}  // namespace

/// Stack memory left behind by a returned call must not be written any more.
__attribute__((noinline)) static bool StackStaysQuiet(unsigned points)
{
    volatile std::uint8_t area[3000];
    for (auto& b : area)
    {
        b = 0x5AU;
    }
    for (unsigned i = 0; i < points; ++i)
    {
        sched::Point();
    }
    for (auto& b : area)
    {
        if (b != 0x5AU)
        {
            return false;
        }
    }
    return true;
}

PBT_PROPERTY(client_schedules, 1500000, 40000000)
{
    auto world = std::make_shared<World>(ctx, src);
    World& w = *world;
    IClientFactory::ClientConfig cfg{};
    cfg.max_async_replies = static_cast<std::uint32_t>(src.Below(4));
    cfg.max_queued_sends = static_cast<std::uint32_t>(src.Below(4));
    cfg.fully_ordered = src.Bool();
    cfg.truly_async = src.Bool();
    cfg.sync_first_connect = src.Chance(1, 3);
    const bool ordered = cfg.fully_ordered || cfg.truly_async;
    const std::size_t pool = static_cast<std::size_t>(cfg.max_async_replies) + cfg.max_queued_sends;
    const ServiceProtocolConfig protocol{"verif", kMaxSend, kMaxReply, static_cast<std::uint32_t>(src.Below(kMaxReply))};

    for (unsigned i = static_cast<unsigned>(src.Below(4)); i > 0U && src.Chance(1, 3); --i)
    {
        w.connect_script.push_back(src.PickOf<int>({ENOENT, ECONNREFUSED, EAGAIN, 0, EACCES, EIO}));
    }
    if (src.Chance(1, 4))
    {
        for (unsigned i = 0; i < 7; ++i)
        {
            w.fail_script.push_back(src.Chance(1, 4));
        }
    }
    const bool calm = src.Chance(1, 3);  // neither closing nor stopping before the end
    for (unsigned i = static_cast<unsigned>(src.Below(8)); i > 0U; --i)
    {
        w.acts.push_back(calm ? src.PickOf<Act>({Act::reply, Act::reply, Act::notify, Act::spurious})
                              : static_cast<Act>(src.Weighted({8, 3, 1, 3, 1, 1, 1})));
    }

    // what the callbacks do, consumed in order
    std::vector<unsigned> state_plan, reply_plan, notify_plan;
    for (unsigned i = 0; i < 6; ++i)
    {
        state_plan.push_back(src.Chance(1, 3) ? static_cast<unsigned>(src.Below(4)) : 9U);
        reply_plan.push_back(src.Chance(1, 3) ? static_cast<unsigned>(src.Below(4)) : 9U);
        notify_plan.push_back(src.Chance(1, 2) ? static_cast<unsigned>(src.Below(4)) : 9U);
    }
    // the connection is destroyed while its callbacks may still run; none of them stops or restarts it then
    const bool abrupt = src.Chance(1, 5);
    if (abrupt)
    {
        for (auto* plan : {&state_plan, &reply_plan, &notify_plan})
        {
            std::replace(plan->begin(), plan->end(), plan == &state_plan ? 0U : 3U, 9U);
        }
    }
    std::size_t state_i{0}, reply_i{0}, notify_i{0};

    std::map<std::uint32_t, Message> messages;
    std::uint32_t next_id{1};
    auto* const raw = new detail::ClientConnection(world, protocol, cfg);  // leaked when a check fails: its destructor waits
    if (src.Bool())
    {
        sched::Watch(raw, sizeof(*raw), "connection");
    }
    std::vector<State> states;
    int restarts{0}, stopped_callbacks{0};
    int starting{0};
    int stopped_running{0};  // nesting of state callbacks
    bool stop_called{false};
    bool overlap{false};
    int restart_window{0}, stops_running{0}, user_stops{0};
    std::uint32_t last_notified{0};
    std::uint64_t order{0};
    bool destroyed{false};
    bool destroying{false};
    bool alive{true};

    auto stop = [&](int thread) {
        {
            // a Stop on another thread while Start or Restart still runs is left out
            std::lock_guard<std::mutex> g{w.m};
            // (and so is one in a callback while the connection is being destroyed)
            if ((thread != -2 && restart_window > 0) || (thread < 0 && destroying))
            {
                return;
            }
            ++stops_running;
            user_stops += thread > 0 ? 1 : 0;
        }
        ++w.endings;
        w.causes.insert(StopReason::kUserRequested);
        ctx.Note("[%d] stop", thread);
        const int cycle = starting;
        stop_called = true;
        // a Stop that meets the very beginning of a start may be told before or after it
        overlap = overlap || restart_window > 0;
        raw->Stop();
        --stops_running;
        user_stops -= thread > 0 ? 1 : 0;
        const bool others = stops_running > 0;
        const auto s = destroyed ? State::kStopped : raw->GetState();
        const auto reason = destroyed ? StopReason::kUserRequested : raw->GetStopReason();
        if (cycle == starting && cycle > 0 && restart_window == 0)
        {
            w.stop_returned = w.stop_returned || !others;
            w.Must(others || s == State::kStopping || s == State::kStopped || (reason != StopReason::kNone && reason != StopReason::kUserRequested), "the connection is not stopping after Stop");
        }
    };
    std::function<void(unsigned, int, std::size_t)> issue = [&](unsigned op, int thread, std::size_t size) {
        const auto id = next_id++;
        const bool too_big = size > kMaxSend;
        Bytes body = MakeBody(id, size, 1U);
        auto& x = messages[id];
        w.sizes[id] = size;
        w.is_request[id] = op != 0U;
        x.kind = op == 0U ? Kind::send : op == 1U ? Kind::callback : Kind::wait;
        x.thread = thread;
        x.called = true;
        if (op == 2U)
        {
            w.waits[id] = w.session;
        }
        x.endings_at_call = w.endings + w.closes;
        int err{0};
        if (op == 0U)
        {
            const auto r = raw->Send(body);
            err = r.has_value() ? 0 : r.error().GetOsDependentErrorCode();
        }
        else if (op == 1U)
        {
            const auto r = raw->SendWithCallback(body, [&, id](score::cpp::expected<score::cpp::span<const std::uint8_t>, Err> m) {
                auto& y = messages[id];
                ++y.calls;
                y.callback_order = ++order;
                w.Must(w.IsOnCallbackThread(), "a reply callback runs on another thread");
                if (m.has_value())
                {
                    y.answered = true;
                    const Bytes got(m.value().begin(), m.value().end());
                    w.Must(w.rogue || got == MakeBody(id, ReplySize(id), 2U), "a reply callback gets another reply than that to its request");
                }
                else
                {
                    y.error = m.error().GetOsDependentErrorCode();
                }
                const auto plan = reply_i < reply_plan.size() ? reply_plan[reply_i++] : 9U;
                if (plan < 3U)
                {
                    issue(plan, -1, 4U + id % 20U);
                }
                else if (plan == 3U && !calm)
                {
                    stop(-1);
                }
            });
            err = r.has_value() ? 0 : r.error().GetOsDependentErrorCode();
        }
        else
        {
            const std::size_t room = id % 5U == 0U ? ReplySize(id) - 1U : kMaxReply;
            Bytes reply(room + 8U, 0x77U);
            const auto r = raw->SendWaitReply(body, score::cpp::span<std::uint8_t>{reply.data(), room});
            if (!StackStaysQuiet(3U))
            {
                w.Must(false, "the stack of a finished SendWaitReply is written");
            }
            if (r.has_value())
            {
                x.answered = true;
                w.Must(r.value().data() == reply.data(), "SendWaitReply returns another buffer");
                const Bytes got(r.value().begin(), r.value().end());
                w.Must(w.rogue || got == MakeBody(id, ReplySize(id), 2U), "SendWaitReply returns another reply than that to its request");
            }
            else
            {
                err = r.error().GetOsDependentErrorCode();
                w.Must(thread != -1 || err == EAGAIN, "SendWaitReply does not refuse to wait on the callback thread");
            }
            w.Must(thread != -1 || !r.has_value(), "SendWaitReply waits on the callback thread");
            for (std::size_t i = room; i < reply.size(); ++i)
            {
                w.Must(reply[i] == 0x77U, "SendWaitReply writes behind the reply buffer");
            }
            if (err == EMSGSIZE && !too_big)
            {
                w.Must(room < ReplySize(id) || w.rogue, "SendWaitReply refuses a reply that fits");
                x.answered = true;
            }
        }
        auto& y = messages[id];
        y.accepted = err == 0;
        y.returned = true;
        if (y.calls == 0)
        {
            y.error = err;
        }
        y.endings_at_return = w.endings + w.closes;
        w.Must(!too_big || (err == EMSGSIZE || thread == -1), "a message above the maximum size is not refused");
        ctx.Note("[%d] %s %u (%zu) -> %d", thread, op == 0U ? "send" : op == 1U ? "request" : "wait", id, size, err);
    };
    auto on_state = [&](State s) {
        ctx.Note("state %d", static_cast<int>(s));
        states.push_back(s);
        const auto plan = state_i < state_plan.size() && s != State::kStopping ? state_plan[state_i++] : 9U;
        switch (s)
        {
            case State::kStarting:
                ++starting;
                w.stop_returned = false;
                // (a Stop here and a Restart in the callback of that stop would be a second start within this one)
                if (plan == 0U && !calm && !w.IsOnCallbackThread())
                {
                    stop(-2);
                }
                break;
            case State::kReady:
                // (a Restart while the callback of the previous start still runs on the user's thread is left out)
                w.Must(!w.open_after_stop, "connects after Stop has returned");
                if (plan == 0U && !calm)
                {
                    stop(-2);
                }
                else if (plan == 1U || plan == 2U)
                {
                    // with a synchronous connect this runs on the user's thread
                    issue(plan - 1U, w.IsOnCallbackThread() ? -1 : -3, 8U);
                }
                break;
            case State::kStopping:
                break;
            default:
            {
                ctx.Note("reason %d", static_cast<int>(raw->GetStopReason()));
                w.Must(raw->GetState() == State::kStopped, "told to be stopped while it is not");
                w.Must((w.rogue && raw->GetStopReason() == StopReason::kIoError) ||
                           (raw->GetStopReason() == StopReason::kUserRequested ? stop_called || destroying : w.causes.count(raw->GetStopReason()) == 1U),
                        "stopped with a reason that did not occur");
                w.Must(w.fd == -1, "stopped with an open connection");
                w.Must(w.ep == nullptr, "stopped with a polled connection");
                ++stopped_callbacks;
                bool again{false};
                {
                    std::lock_guard<std::mutex> g{w.m};
                    again = plan == 0U && restarts < 2 && !destroying && restart_window == 0 && user_stops == 0;
                    restart_window += again ? 1 : 0;
                }
                if (again)
                {
                    ++restarts;
                    w.causes.clear();
                    raw->Restart();
                    --restart_window;
                }
                break;
            }
        }
    };
    auto on_state_guarded = [&](State s) {
        {
            std::lock_guard<std::mutex> g{w.m};
            ++stopped_running;
        }
        on_state(s);
        sched::Point();
        sched::Point();
        w.Must(!destroyed, "the connection is destroyed while its state callback runs");
        std::lock_guard<std::mutex> g{w.m};
        --stopped_running;
        w.cv.notify_all();
    };
    auto on_notify = [&](score::cpp::span<const std::uint8_t> m) {
        const auto id = IdOf(m.data(), m.size());
        w.Must(Bytes(m.begin(), m.end()) == MakeBody(id, m.size(), 3U) && m.size() == 4U + id % 20U, "a notification differs from the one sent");
        w.Must(id > last_notified && id <= w.notified, "a notification is delivered twice or out of order");
        w.Must(w.IsOnCallbackThread(), "a notification is delivered on another thread");
        last_notified = id;
        const auto plan = notify_i < notify_plan.size() ? notify_plan[notify_i++] : 9U;
        if (plan < 3U)
        {
            issue(plan, -1, 4U + id % 20U);
        }
        else if (plan == 3U && !calm)
        {
            stop(-1);
        }
        w.Must(Bytes(m.begin(), m.end()) == MakeBody(id, m.size(), 3U), "a notification changes while it is handled");
    };

    // programs of the users; user 0 owns the life of the connection
    const auto users = 1 + src.Below(3);
    struct Op
    {
        unsigned op;
        std::size_t size;
    };
    std::vector<std::vector<Op>> programs(users);
    for (std::size_t u = 0; u < users; ++u)
    {
        for (unsigned i = static_cast<unsigned>(1 + src.Below(7)); i > 0U; --i)
        {
            Op o{};
            o.op = static_cast<unsigned>(src.Weighted({4, 4, 3, calm || cfg.sync_first_connect ? 0U : 1U, u == 0 && !calm ? 2U : 0U}));
            o.size = src.Chance(1, 12) ? kMaxSend + 1U : 4U + src.Below(kMaxSend - 3U);
            programs[u].push_back(o);
        }
    }
    const bool destroy = abrupt || src.Chance(1, 3);
    const bool early = src.Chance(1, 4);  // users do not wait for the connection
    std::size_t running{users};
    auto started = [&] { return raw->GetState() != State::kStarting && stopped_running == 0; };

    std::vector<std::function<void()>> tasks;
    w.engine_task = 0;
    tasks.emplace_back([&] { w.EngineTask(); });
    tasks.emplace_back([&] { w.ServerTask(); });
    for (std::size_t u = 0; u < users; ++u)
    {
        tasks.emplace_back([&, u] {
            const int me = static_cast<int>(u) + 1;
            if (u == 0)
            {
                ++restart_window;
                raw->Start(on_state_guarded, on_notify);
                --restart_window;
            }
            if (!early)
            {
                std::unique_lock<std::mutex> l{w.m};
                w.cv.wait(l, [&] { return starting > 0 && started(); });
            }
            for (auto& o : programs[u])
            {
                sched::Point();
                if (o.op < 3U)
                {
                    issue(o.op, me, o.size);
                }
                else if (o.op == 3U)
                {
                    if (starting > 0 && restart_window == 0)
                    {
                        stop(me);
                    }
                }
                else
                {
                    // restart: only once the stopped callback is over
                    std::unique_lock<std::mutex> l{w.m};
                    if (raw->GetState() == State::kStopped && stopped_running == 0 && starting > 0 && stopped_callbacks == starting && restarts < 4 && stops_running == 0 && restart_window == 0)
                    {
                        ++restarts;
                        w.causes.clear();
                        ++restart_window;
                        l.unlock();
                        ctx.Note("[%d] restart", me);
                        raw->Restart();
                        --restart_window;
                    }
                }
            }
            std::unique_lock<std::mutex> l{w.m};
            --running;
            w.cv.notify_all();
            if (u == 0)
            {
                w.cv.wait(l, [&] { return running == 0U && (abrupt || (stopped_running == 0 && w.depth == 0)); });
                if (destroy)
                {
                    ++w.endings;
                    w.causes.insert(StopReason::kUserRequested);
                    destroying = true;
                    l.unlock();
                    ++stops_running;
                    stop_called = true;
                    ctx.Note("destroy");
                    delete raw;
                    destroyed = true;
                    alive = false;
                    l.lock();
                    w.Must(w.fd == -1, "a destroyed connection is still open");
                    w.Must(w.ep == nullptr, "a destroyed connection is still polled");
                    w.Must(w.commands.empty(), "a destroyed connection has commands left");
                }
                else
                {
                    // let the server answer what it has
                    w.cv.wait(l, [&] { return w.requests.empty() || !w.peer_open; });
                }
                w.quit = true;
                w.cv.notify_all();
            }
        });
    }
    sched::Options opt{};
    opt.detect_races = false;
    const auto st = sched::Run(src, tasks, opt);
    sched::ClearWatches();
    if (w.stale)
    {
        // a message is sent over a descriptor that has been closed in the meantime, its number may belong to another one
        ctx.Known("send-on-closed-descriptor");
    }
    if (w.crossed)
    {
        // a SendWaitReply that was called before the connection ended sends its request over the restarted connection,
        // where nobody waits for the reply
        ctx.Known("request-crosses-restart");
        return;
    }
    PBT_CHECK(ctx, w.violation.empty(), "%s", w.violation.c_str());
    PBT_CHECK(ctx, !st.deadlock, "deadlock: a waiter is never woken up");
    PBT_CHECK(ctx, !st.overrun, "no progress: a task never ends");

    if (alive)
    {
        // everything is quiet: what is left of the engine's work, then a full round of the queue
        w.engine_task = -1;
        w.acts.clear();
        w.fail_script.clear();
        w.connect_script.clear();
        state_plan.clear();
        reply_plan.clear();
        notify_plan.clear();
        w.Drain();
        auto settle = [&] {
            for (unsigned i = 0; i < 50 && (!w.requests.empty() || w.Ready()); ++i)
            {
                if (!w.requests.empty())
                {
                    w.Reply(w.requests.front());
                    w.requests.pop_front();
                }
                w.Drain();
            }
        };
        settle();
        if (raw->GetState() == State::kStopped)
        {
            w.causes.clear();
            raw->Restart();
            w.Drain();
        }
        PBT_CHECK(ctx, w.violation.empty(), "%s", w.violation.c_str());
        PBT_CHECK(ctx, raw->GetState() == State::kReady, "the connection is in state %d at rest", static_cast<int>(raw->GetState()));
        // the pool holds exactly what was configured, again and again
        for (unsigned round = 0; round < 2U; ++round)
        {
            const auto before = w.received.size();
            const auto first = next_id;
            if (!cfg.truly_async)
            {
                issue(1U, 90, 8U);
                PBT_CHECK(ctx, messages[first].accepted, "a request of an idle connection is refused (%d)", messages[first].error);
            }
            std::size_t n{0};
            for (; n < pool + 3U; ++n)
            {
                const auto id = next_id;
                issue(ordered && n % 2U == 0U ? 0U : 1U, 90, 4U + n % 20U);
                if (!messages[id].accepted)
                {
                    PBT_CHECK(ctx, messages[id].error == ENOBUFS, "queueing fails with %d", messages[id].error);
                    break;
                }
            }
            PBT_CHECK(ctx, n == pool, "%zu messages can be queued, %zu are configured", n, pool);
            settle();
            w.Drain();
            settle();
            PBT_CHECK(ctx, w.violation.empty(), "%s", w.violation.c_str());
            PBT_CHECK(ctx, w.received.size() == before + n + (cfg.truly_async ? 0U : 1U), "%zu of %zu messages arrive", w.received.size() - before, n);
            for (std::size_t i = before; i + 1U < w.received.size(); ++i)
            {
                PBT_CHECK(ctx, w.received[i].id < w.received[i + 1U].id, "queued messages arrive out of order");
            }
        }
        // a last stop
        stop_called = true;
        const int before_stop = stopped_callbacks;
        ++w.endings;
        w.causes.insert(StopReason::kUserRequested);
        raw->Stop();
        w.Drain();
        PBT_CHECK(ctx, raw->GetState() == State::kStopped, "not stopped at the end");
        PBT_CHECK(ctx, stopped_callbacks == before_stop + 1, "%d stopped callbacks for one stop", stopped_callbacks - before_stop);
        delete raw;
        PBT_CHECK(ctx, w.commands.empty(), "a destroyed connection has commands left");
    }
    PBT_CHECK(ctx, w.violation.empty(), "%s", w.violation.c_str());
    PBT_CHECK(ctx, w.fd == -1 && w.ep == nullptr, "a connection is left open");

    // every message
    std::map<std::uint32_t, int> arrived;
    std::map<std::pair<int, int>, std::uint32_t> last;
    for (auto& r : w.received)
    {
        auto& x = messages[r.id];
        PBT_CHECK(ctx, ++arrived[r.id] == 1, "message %u arrives twice", r.id);
        PBT_CHECK(ctx, x.accepted || x.kind == Kind::wait, "refused message %u (%d) arrives", r.id, x.error);
        auto& l = last[{x.thread, ordered ? 0 : x.kind == Kind::send ? 0 : 1}];
        PBT_CHECK(ctx, l < r.id, "message %u of a thread arrives after its message %u", r.id, l);
        l = r.id;
    }
    std::uint64_t answered{0}, refused{0}, cancelled{0};
    for (auto& kv : messages)
    {
        auto& x = kv.second;
        const auto id = kv.first;
        if (x.kind == Kind::callback)
        {
            PBT_CHECK(ctx, x.calls == (x.accepted ? 1 : 0), "the callback of %s request %u is called %d times", x.accepted ? "accepted" : "refused", id, x.calls);
        }
        if (x.accepted && arrived.count(id) == 0U)
        {
            // lost: only because its own send failed or because the connection ended
            PBT_CHECK(ctx, w.failed_sends.count(id) == 1U || w.endings + w.closes > x.endings_at_call, "message %u is lost", id);
        }
        if (x.kind != Kind::send && x.accepted)
        {
            if (x.answered)
            {
                ++answered;
                PBT_CHECK(ctx, arrived.count(id) == 1U || w.rogue, "request %u is answered although the server never got it", id);
            }
            else
            {
                ++cancelled;
                PBT_CHECK(ctx, w.endings + w.closes > x.endings_at_call || w.injected.count(id) == 1U, "request %u fails with %d although nothing happened", id, x.error);
                PBT_CHECK(ctx, x.error == EPIPE || ((x.error == EAGAIN || x.error == EBADF) && w.failed_sends.count(id) == 1U), "request %u fails with %d", id, x.error);
            }
        }
        refused += x.accepted ? 0U : 1U;
    }
    // states
    for (std::size_t i = 0; i + 1U < states.size(); ++i)
    {
        const auto a = states[i];
        const auto b = states[i + 1U];
        const bool legal = (a == State::kStarting && (b == State::kReady || b == State::kStopping)) || (a == State::kReady && b == State::kStopping) ||
                           (a == State::kStopping && b == State::kStopped) || (a == State::kStopped && b == State::kStarting);
        // Stop on another thread may overtake the callback that tells of the connection
        const bool overtaken = (a == State::kStopping && b == State::kReady) || (a == State::kReady && b == State::kStopped) ||
                               (a == State::kStopped && b == State::kReady) || (a == State::kReady && b == State::kStarting);
        PBT_CHECK(ctx, legal || overlap || (overtaken && stop_called), "state %d is told after state %d", static_cast<int>(b), static_cast<int>(a));
    }
    const auto count = [&](State s) { return std::count(states.begin(), states.end(), s); };
    PBT_CHECK(ctx, overlap || count(State::kStarting) == count(State::kStopped) || destroyed, "%ld starts, %ld stops are told", count(State::kStarting), count(State::kStopped));
    PBT_CHECK(ctx, overlap || count(State::kStopping) == count(State::kStopped) || destroyed, "%ld beginnings, %ld ends of stopping are told", count(State::kStopping), count(State::kStopped));
    PBT_CHECK(ctx, count(State::kReady) <= count(State::kStarting), "ready is told twice");
    ctx.Count("answered", answered);
    ctx.Count("cancelled", cancelled);
    ctx.Count("refused", refused);
    ctx.Count("preemptions", st.preemptions);
    if (answered > 0U && st.preemptions > 0U)
    {
        ctx.NonTrivial();
    }
    ctx.Label(cfg.truly_async ? "queued sends" : cfg.fully_ordered ? "ordered sends" : "direct sends");
    if (cancelled > 0U)
    {
        ctx.Label("requests cancelled by the end of the connection");
    }
}
