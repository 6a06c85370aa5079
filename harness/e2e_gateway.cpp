// G03: two domains, each with its own files and shared memory names, joined by two gateway applications. The provider
// and the source gateway live in a process of their own; the destination gateway and the consumers in this one.
#include "remote.h"

#include "score/mw/com/gateway/gateway_application/gateway_application.h"
#include "score/mw/com/gateway/gateway_application/gateway_error.h"
#include "score/mw/com/gateway/transport_layer/transport.h"

#include <map>
#include <mutex>
#include <set>
#include <sstream>

using namespace e2e;
namespace gw = ::score::mw::com::gateway;

namespace
{
/// A sample whose size no alignment divides.
struct Odd
{
    std::uint8_t b[3];
    static Odd Make(std::uint64_t v) { return {{static_cast<std::uint8_t>(v), static_cast<std::uint8_t>(v >> 8U), static_cast<std::uint8_t>(0x5A ^ v)}}; }
    bool Valid() const { return b[2] == (0x5A ^ b[0]); }
    std::uint64_t seq() const { return b[0] | (static_cast<std::uint64_t>(b[1]) << 8U); }
};

template <typename T>
class Iface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Event<Payload> ev{*this, "ev"};
    typename T::template Event<Odd> small{*this, "small"};
};
using Proxy = com::AsProxy<Iface>;
using Skeleton = com::AsSkeleton<Iface>;

constexpr std::size_t kInstances{3};
std::string Name(std::size_t i)
{
    constexpr const char* kNames[kInstances]{"v/inst", "v/inst1", "v/inst10"};
    return kNames[i];
}

std::string Cfg(bool destination, bool asil_b, unsigned slots)
{
    const std::string asil = asil_b ? "B" : "QM";
    std::string insts;
    for (std::size_t i = 0; i < kInstances; ++i)
    {
        insts += (i == 0 ? "" : ",") + std::string{R"({"instanceSpecifier":")"} + Name(i) + R"(","serviceTypeName":"/v/If","version":{"major":1,"minor":0},"instances":[{"instanceId":)" +
                 std::to_string(i + 1) + R"(,"asil-level":")" + asil + R"(","binding":"SHM","interVmSupport":true,"interVmForwarded":)" + (destination ? "true" : "false") +
                 R"(,"events":[)";
        for (const char* e : {"ev", "small"})
        {
            insts += std::string{e[0] == 'e' ? "" : ","} + "{\"eventName\":\"" + e + "\",\"numberOfSampleSlots\":" + std::to_string(slots) + ",\"maxSubscribers\":5,\"enforceMaxSamples\":true}";
        }
        insts += "]}]}";
    }
    return R"({"serviceTypes":[{"serviceTypeName":"/v/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":5200,"events":[{"eventName":"ev","eventId":3},{"eventName":"small","eventId":4}]}]}],
"serviceInstances":[)" +
           insts + R"(],"global":{"asil-level":")" + asil + R"(","applicationID":)" + (destination ? "4711" : "815") + "}}";
}

bool SendAll(int fd, const std::string& s)
{
    const std::uint32_t n = static_cast<std::uint32_t>(s.size());
    std::string b(reinterpret_cast<const char*>(&n), sizeof n);
    b += s;
    std::size_t at{0};
    while (at < b.size())
    {
        const auto w = ::send(fd, b.data() + at, b.size() - at, MSG_NOSIGNAL);
        if (w <= 0)
        {
            return false;
        }
        at += static_cast<std::size_t>(w);
    }
    return true;
}
bool RecvAll(int fd, std::string& s)
{
    auto exact = [fd](void* to, std::size_t n) {
        auto* p = static_cast<char*>(to);
        while (n > 0)
        {
            const auto r = ::recv(fd, p, n, 0);
            if (r <= 0)
            {
                return false;
            }
            p += r;
            n -= static_cast<std::size_t>(r);
        }
        return true;
    };
    std::uint32_t n{0};
    if (!exact(&n, sizeof n))
    {
        return false;
    }
    s.resize(n);
    return exact(&s[0], n);
}

/// A transport over two socket pairs, one for the requests of either side. Requests are answered by the other side's
/// GatewayCore on a thread of this class.
class PipeTransport : public gw::Transport
{
  public:
    PipeTransport(int requests, int served) : out_{requests}, in_{served} {}
    ~PipeTransport() override
    {
        if (server_.joinable())
        {
            server_.join();
        }
    }
    gw::GatewayCore* core{nullptr};
    std::atomic<int> fail_provide{0};
    std::atomic<unsigned> provided{0};
    std::atomic<unsigned> waiting{0};
    /// What the other side was asked to report updates of (its last answer was positive).
    bool Registered(const std::string& spec, const std::string& name)
    {
        std::lock_guard<std::mutex> g{reg_m_};
        return registered_.count(spec + " " + name) != 0;
    }

    void Forget(const std::string& spec)
    {
        std::lock_guard<std::mutex> g{reg_m_};
        for (const char* name : {"ev", "small"})
        {
            registered_.erase(spec + " " + name);
        }
    }

    bool IsMemorySharingSupported() const override { return true; }
    score::Result<void> Setup() override
    {
        server_ = std::thread{[this] { Serve(); }};
        return {};
    }
    void Shutdown() override
    {
        ::shutdown(in_, SHUT_RDWR);
        ::shutdown(out_, SHUT_RDWR);
        if (server_.joinable())
        {
            server_.join();
        }
    }
    score::Result<void> ProvideService(com::InstanceSpecifier s, std::vector<com::EventInfo> e) override
    {
        if (fail_provide.load() > 0)
        {
            --fail_provide;
            ++provided;
            return score::MakeUnexpected(gw::GatewayErrorc::kSkeletonCreationFailed);
        }
        std::ostringstream o;
        o << "P " << s.ToString();
        for (const auto& i : e)
        {
            o << ' ' << i.name << ' ' << i.data_type_meta_info.size << ' ' << i.data_type_meta_info.alignment;
        }
        auto r = Ask(o.str());
        ++provided;
        return r;
    }
    score::Result<void> OfferService(com::InstanceSpecifier s) override { return Ask("O " + std::string{s.ToString()}); }
    score::Result<void> StopOfferService(com::InstanceSpecifier s) override { return Ask("X " + std::string{s.ToString()}); }
    score::Result<void> NotifyUpdate(com::InstanceSpecifier s, com::impl::ServiceElementType t, std::string n) override { return Ask("N", s, t, n); }
    score::Result<void> RegisterUpdateNotification(com::InstanceSpecifier s, com::impl::ServiceElementType t, std::string n) override
    {
        const auto key = std::string{s.ToString()} + " " + n;
        auto r = Ask("R", s, t, n);
        if (r.has_value())
        {
            std::lock_guard<std::mutex> g{reg_m_};
            registered_.insert(key);
        }
        return r;
    }
    score::Result<void> UnregisterUpdateNotification(com::InstanceSpecifier s, com::impl::ServiceElementType t, std::string n) override
    {
        {
            std::lock_guard<std::mutex> g{reg_m_};
            registered_.erase(std::string{s.ToString()} + " " + n);
        }
        return Ask("U", s, t, n);
    }

  private:
    score::Result<void> Ask(const char* op, const com::InstanceSpecifier& s, com::impl::ServiceElementType t, const std::string& n)
    {
        return Ask(std::string{op} + " " + std::string{s.ToString()} + " " + std::to_string(static_cast<int>(t)) + " " + n);
    }
    score::Result<void> Ask(const std::string& m)
    {
        ++waiting;
        std::lock_guard<std::mutex> g{m_};
        std::string r;
        const bool answered = SendAll(out_, m) && RecvAll(out_, r);
        --waiting;
        if (!answered)
        {
            return score::MakeUnexpected(gw::GatewayErrorc::kNotificationFailed);
        }
        if (r == "ok")
        {
            return {};
        }
        return score::MakeUnexpected(static_cast<gw::GatewayErrorc>(std::stoi(r)));
    }
    void Serve()
    {
        std::string m;
        while (RecvAll(in_, m))
        {
            std::istringstream i{m};
            std::string op, spec;
            i >> op >> spec;
            score::Result<void> r{};
            if (op == "P")
            {
                std::vector<std::string> names;
                std::vector<com::DataTypeMetaInfo> infos;
                std::string n;
                com::DataTypeMetaInfo d{};
                while (i >> n >> d.size >> d.alignment)
                {
                    names.push_back(n);
                    infos.push_back(d);
                }
                std::vector<com::EventInfo> e;
                for (std::size_t k = 0; k < names.size(); ++k)
                {
                    e.push_back(com::EventInfo{names[k], infos[k]});
                }
                r = core->ProvideService(Spec(spec), std::move(e));
            }
            else if (op == "O")
            {
                r = core->OfferService(Spec(spec));
            }
            else if (op == "X")
            {
                core->StopOfferService(Spec(spec));
            }
            else
            {
                int t{0};
                std::string n;
                i >> t >> n;
                const auto type = static_cast<com::impl::ServiceElementType>(t);
                r = op == "N" ? core->NotifyUpdate(Spec(spec), type, n) : op == "R" ? core->RegisterUpdateNotification(Spec(spec), type, n) : core->UnregisterUpdateNotification(Spec(spec), type, n);
            }
            if (!SendAll(in_, r.has_value() ? std::string{"ok"} : std::to_string(*r.error())))
            {
                return;
            }
        }
    }
    std::mutex m_;
    std::mutex reg_m_;
    std::set<std::string> registered_;
    int out_;
    int in_;
    std::thread server_;
};

struct Gateway
{
    PipeTransport* transport{nullptr};
    std::unique_ptr<gw::GatewayApplication> app;
    Gateway(std::vector<std::string> forwarded, std::vector<std::string> received, int requests, int served)
    {
        auto t = std::make_unique<PipeTransport>(requests, served);
        transport = t.get();
        app = std::make_unique<gw::GatewayApplication>(gw::GatewayConfiguration{std::move(forwarded), std::move(received), "none", ""}, std::move(t));
        transport->core = app.get();
    }
    bool Run() { return app->Setup().has_value() && app->Start().has_value(); }
};

/// The source domain: providers and a gateway.
struct SourceSide
{
    std::unique_ptr<Skeleton> sk[kInstances];
    std::unique_ptr<Proxy> local[kInstances];
    std::unique_ptr<Gateway> gateway;
    std::uint64_t operator()(char op, std::uint64_t a, std::uint64_t b)
    {
        const auto i = a & 0xF;
        switch (op)
        {
            case 'o':
                if (!sk[i])
                {
                    sk[i] = std::make_unique<Skeleton>(Skeleton::Create(Spec(Name(i))).value());
                }
                return sk[i]->OfferService().has_value();
            case 'x':
                sk[i]->StopOfferService();
                return 1;
            case 'd':
                sk[i].reset();
                return 1;
            case 's':
                return (a & 0x10) != 0 ? sk[i]->small.Send(Odd::Make(b)).has_value() : sk[i]->ev.Send(Payload::Make(b)).has_value();
            case 'f':
                gateway->transport->fail_provide = static_cast<int>(a);
                return 1;
            case 'p':
                return gateway->transport->provided.load();
            case 'w':
                return gateway->transport->waiting.load();
            case 'q':
                Quiesce();
                return static_cast<std::uint64_t>(gateway->transport->fail_provide.load());
            case 'l':
                local[i] = std::make_unique<Proxy>(Proxy::Create(Proxy::FindService(Spec(Name(i))).value().at(0)).value());
                return 1;
            case 'c':
            {
                // can so many samples be subscribed to?
                auto room = [&](auto& ev) {
                    const bool ok = ev.Subscribe(b).has_value() && Eventually([&] { return ev.GetSubscriptionState() == com::SubscriptionState::kSubscribed; }, 2.0);
                    ev.Unsubscribe();
                    return ok;
                };
                return (a & 0x10) != 0 ? room(local[i]->small) : room(local[i]->ev);
            }
            case 'e':
                // the gateway application ends while providers go on
                gateway.reset();
                return 1;
            default:
                return 0;
        }
    }
};

template <typename T>
struct Sub
{
    bool on{false};
    unsigned k{0};
    std::uint64_t last{0};
    bool handler{false};
    std::shared_ptr<std::atomic<unsigned>> calls;
};
struct Consumer
{
    std::unique_ptr<Proxy> p;
    std::size_t instance{0};
    Sub<Payload> ev;
    Sub<Odd> small;
};
std::uint64_t Value(const Payload& p)
{
    return p.Valid() ? p.seq : ~std::uint64_t{0};
}
std::uint64_t Value(const Odd& p)
{
    return p.Valid() ? p.seq() : ~std::uint64_t{0};
}
}  // namespace

PBT_PROPERTY_EX(two_domains, 3000, 200000, true, 120, 3, 0)
{
    Scratch scratch;
    const auto a = Mk(scratch.root + "/a");
    const auto b = Mk(scratch.root + "/b");
    for (const auto& d : {a, b})
    {
        Mk(d + "/dev");
        Mk(d + "/tmp");
    }
    // what a hypervisor does: both domains see the same shared memory objects, and nothing else of each other
    Mk(a + "/dev/shm");
    if (::symlink((a + "/dev/shm").c_str(), (b + "/dev/shm").c_str()) != 0)
    {
        ctx.Fail("cannot set up the scratch directory");
    }
    const bool asil_b = src.Chance(1, 4);
    const auto slots = static_cast<unsigned>(8 + src.Below(4));
    std::vector<std::string> forwarded, received;
    bool pass[kInstances];
    for (std::size_t i = 0; i < kInstances; ++i)
    {
        const bool f = i == 0 || src.Chance(2, 3);
        const bool r = i == 0 || src.Chance(2, 3);
        pass[i] = f && r;
        if (f)
        {
            forwarded.push_back(Name(i));
        }
        if (r)
        {
            received.push_back(Name(i));
        }
        ctx.Note("%s%s%s", Name(i).c_str(), f ? " forwarded" : "", r ? " expected" : "");
        if (f && !r)
        {
            ctx.Label("forwarded but not expected");
        }
    }
    int down[2], up[2];
    if (::socketpair(AF_UNIX, SOCK_STREAM, 0, down) != 0 || ::socketpair(AF_UNIX, SOCK_STREAM, 0, up) != 0)
    {
        ctx.Fail("no sockets");
    }
    Remote source{[&] {
        ::close(down[1]);
        ::close(up[1]);
        verif_shim::OsControl::Get().root = a;
        verif_shim::OsControl::Get().domain = 'a';
        std::ofstream(a + "/cfg.json") << Cfg(false, asil_b, slots);
        ::score::mw::com::runtime::RuntimeConfiguration rc{score::filesystem::Path{"/cfg.json"}};
        ::score::mw::com::runtime::InitializeRuntime(rc);
        auto side = std::make_shared<SourceSide>();
        side->gateway = std::make_unique<Gateway>(forwarded, std::vector<std::string>{}, down[0], up[0]);
        side->gateway->Run();
        return Remote::Serve{[side](char op, std::uint64_t x, std::uint64_t y) { return (*side)(op, x, y); }};
    }};
    ::close(down[0]);
    ::close(up[0]);
    const auto outer_root = scratch.root;
    verif_shim::OsControl::Get().root = b;
    verif_shim::OsControl::Get().domain = 'b';
    std::ofstream(b + "/cfg.json") << Cfg(true, asil_b, slots);
    ::score::mw::com::runtime::RuntimeConfiguration rc{score::filesystem::Path{"/cfg.json"}};
    ::score::mw::com::runtime::InitializeRuntime(rc);
    auto destination = std::make_unique<Gateway>(std::vector<std::string>{}, received, up[1], down[1]);
    PBT_CHECK(ctx, destination->Run(), "the destination gateway cannot be set up");

    bool offered[kInstances] = {}, refused[kInstances] = {};
    // Known finding: offering a forwarded service writes the pid of the destination gateway into the shared memory, where
    // the source gateway finds it when it learns of the next offer (of an ASIL-B service: of its second flag file).
    // A proxy in the source domain keeps the shared memory while the source gateway has none (once its provision failed).
    bool held[kInstances] = {};
    bool proxied[kInstances] = {}, misled[kInstances] = {}, probed{false};
    std::vector<Consumer> consumers(3);
    std::uint64_t seq{0};
    unsigned received_samples{0}, notified{0}, reoffers{0};
    auto alive = [&] { PBT_CHECK(ctx, !source.Lost(), "the process with the provider and the source gateway ended"); };
    auto visible = [&](std::size_t i) { return com::GenericProxy::FindService(Spec(Name(i))).value().size() == 1; };
    auto expect_visible = [&](std::size_t i) { return offered[i] && pass[i] && !refused[i]; };
    auto settle = [&] {
        for (std::size_t i = 0; i < kInstances; ++i)
        {
            const bool want = expect_visible(i);
            PBT_CHECK(ctx, Eventually([&] { return visible(i) == want; }), "%s is %s the destination domain although the provider %s, it is %sforwarded and expected%s",
                      Name(i).c_str(), want ? "not found in" : "still found in", offered[i] ? "offers it" : "stopped offering it", pass[i] ? "" : "not both ",
                      refused[i] ? " and its provision failed" : "");
        }
        // nothing is under way between the gateways
        PBT_CHECK(ctx, Eventually([&] { return source.Lost() || (source.Do('w') == 0 && destination->transport->waiting == 0); }), "the gateways do not come to rest");
        alive();
    };
    bool left_while_stopped[kInstances][2] = {};
    auto handlers = [&](std::size_t i, bool small) {
        bool any{false};
        for (auto& u : consumers)
        {
            any = any || (u.p && u.instance == i && (small ? u.small.handler : u.ev.handler));
        }
        return any;
    };
    // the source gateway is asked for updates as long as somebody waits for them
    auto registrations = [&](std::size_t i) {
        for (const bool small : {false, true})
        {
            const bool want = handlers(i, small);
            // handlers that go while the service is not offered are not noticed (by the next offer, all is registered again)
            bool& stale = left_while_stopped[i][small ? 1 : 0];
            stale = stale && !want;
            if (stale)
            {
                continue;
            }
            PBT_CHECK(ctx, Eventually([&] { return destination->transport->Registered(Name(i), small ? "small" : "ev") == want; }),
                      "the source gateway is %s for updates of %s of %s although %s receive handler is set in the destination domain", want ? "not asked" : "still asked",
                      small ? "small" : "ev", Name(i).c_str(), want ? "a" : "no");
        }
    };
    auto with = [&](Consumer& c, bool small, auto&& f) {
        if (small)
        {
            f(c.p->small, c.small);
        }
        else
        {
            f(c.p->ev, c.ev);
        }
    };
    auto users = [&](std::size_t i) {
        std::size_t n{0};
        for (auto& c : consumers)
        {
            n += c.p && c.instance == i ? 1U : 0U;
        }
        return n;
    };
    // takes what is there; the last one must be what was sent last
    auto receive = [&](Consumer& c, bool small, bool must) {
        with(c, small, [&](auto& ev, auto& s) {
            std::vector<std::uint64_t> got;
            const auto r = ev.GetNewSamples([&](auto p) { got.push_back(Value(*p)); }, 10);
            PBT_CHECK(ctx, r.has_value() && r.value() == got.size(), "GetNewSamples failed");
            for (const auto v : got)
            {
                PBT_CHECK(ctx, v != ~std::uint64_t{0}, "a sample arrived corrupt in the destination domain");
                PBT_CHECK(ctx, v > s.last && v <= seq, "sample %llu arrived after %llu", (unsigned long long)v, (unsigned long long)s.last);
                s.last = v;
            }
            received_samples += static_cast<unsigned>(got.size());
            if (must)
            {
                PBT_CHECK(ctx, s.last == seq, "the sample sent last (%llu) did not arrive in the destination domain, got %llu", (unsigned long long)seq, (unsigned long long)s.last);
            }
        });
    };
    auto send = [&](std::size_t i, bool small) {
        ++seq;
        const auto ok = source.Do('s', i | (small ? 0x10U : 0U), seq);
        alive();
        PBT_CHECK(ctx, ok == 1, "Send failed in the source domain");
    };

    // one consumer with a handler for one event, or for both
    const unsigned warm_steps = src.PickOf<unsigned>({0, 4, 6});
    const bool warm_small = src.Chance(1, 3);
    const auto steps = 10 + src.Below(60);
    for (std::uint64_t step = 0; step < steps; ++step)
    {
        const bool start = step < warm_steps;
        const auto i = static_cast<std::size_t>(start || src.Chance(3, 4) ? 0 : src.Below(kInstances));
        auto& c = consumers[start ? 0 : src.Below(consumers.size())];
        const bool small = start ? (step >= 4) != warm_small : src.Chance(1, 3);
        constexpr std::size_t kStart[]{0, 3, 4, 5, 4, 5};
        switch (start ? kStart[step] : src.Weighted({5, 2, 9, 6, 7, 6, 2, 1, 2}))
        {
            case 0:
                if (!offered[i])
                {
                    int fail{0};
                    if (src.Chance(1, 4) && (users(i) == 0 || held[i]) && pass[i])
                    {
                        fail = 1;
                        source.Do('f', 1);
                        ctx.Label(users(i) == 0 ? "provision failed" : "provision failed with consumers");
                        // the source gateway forgets the service, and with it who asked for updates
                        destination->transport->Forget(Name(i));
                    }
                    ctx.Note("offer %zu%s", i, fail != 0 ? " (provision fails)" : "");
                    const auto provided = source.Do('p');
                    PBT_CHECK(ctx, source.Do('o', i) == 1, "OfferService failed in the source domain");
                    offered[i] = true;
                    refused[i] = fail != 0;
                    misled[i] = proxied[i] || asil_b;
                    proxied[i] = fail == 0;
                    if (pass[i])
                    {
                        PBT_CHECK(ctx, Eventually([&] { return source.Do('p') != provided || source.Lost(); }), "the source gateway did not provide a service that was offered");
                    }
                    if (!expect_visible(i))
                    {
                        source.Do('q');
                    }
                    settle();
                    if (fail == 0 && !held[i] && src.Chance(1, 2))
                    {
                        held[i] = source.Do('l', i) == 1;
                        ctx.Note("consumer of %zu in the source domain", i);
                    }
                    if (expect_visible(i) && users(i) > 0)
                    {
                        ++reoffers;
                        for (auto& u : consumers)
                        {
                            if (u.p && u.instance == i)
                            {
                                for (const bool sm : {false, true})
                                {
                                    with(u, sm, [&](auto& ev, auto& s) {
                                        PBT_CHECK(ctx, !s.on || Eventually([&] { return ev.GetSubscriptionState() == com::SubscriptionState::kSubscribed; }),
                                                  "a subscription did not come back when the service was offered again");
                                    });
                                }
                            }
                        }
                        registrations(i);
                    }
                }
                break;
            case 1:
                if (offered[i])
                {
                    ctx.Note("stop %zu", i);
                    source.Do('x', i);
                    offered[i] = false;
                    refused[i] = false;
                    source.Do('q');
                    settle();
                    if (src.Chance(1, 3))
                    {
                        ctx.Note("destroy provider %zu", i);
                        source.Do('d', i);
                    }
                }
                break;
            case 2:
                if (offered[i])
                {
                    const auto n = src.Range<int>(1, 3);
                    ctx.Note("send %zu %s x%d", i, small ? "small" : "ev", n);
                    for (int k = 0; k < n; ++k)
                    {
                        std::vector<unsigned> before;
                        for (auto& u : consumers)
                        {
                            before.push_back(u.p && u.instance == i && expect_visible(i) ? (small ? (u.small.handler ? u.small.calls->load() : 0) : (u.ev.handler ? u.ev.calls->load() : 0)) : 0);
                        }
                        send(i, small);
                        for (std::size_t x = 0; x < consumers.size(); ++x)
                        {
                            auto& u = consumers[x];
                            if (!u.p || u.instance != i || !expect_visible(i))
                            {
                                continue;
                            }
                            with(u, small, [&](auto&, auto& s) {
                                if (!s.on)
                                {
                                    return;
                                }
                                if (s.handler)
                                {
                                    const bool told = !(misled[i] && probed) && Eventually([&] { return s.calls->load() != before[x]; }, misled[i] ? 0.15 : 20.0);
                                    PBT_CHECK(ctx, told || misled[i], "a consumer in the destination domain was not notified of a sample");
                                    if (told)
                                    {
                                        ++notified;
                                    }
                                    else
                                    {
                                        probed = true;
                                        ctx.Known("updates-not-forwarded-after-reoffer");
                                    }
                                }
                            });
                        }
                        for (auto& u : consumers)
                        {
                            if (u.p && u.instance == i && expect_visible(i) && (small ? u.small.on : u.ev.on) && src.Chance(2, 3))
                            {
                                receive(u, small, true);
                            }
                        }
                    }
                }
                break;
            case 3:
                if (!c.p && expect_visible(i))
                {
                    const auto h = com::GenericProxy::FindService(Spec(Name(i))).value();
                    auto r = Proxy::Create(h.at(0));
                    PBT_CHECK(ctx, r.has_value(), "no proxy can be made of a forwarded service");
                    c.p = std::make_unique<Proxy>(std::move(r).value());
                    c.instance = i;
                    c.ev = {};
                    c.small = {};
                    ctx.Note("consumer of %zu", i);
                }
                break;
            case 4:
                if (c.p && expect_visible(c.instance))
                {
                    with(c, small, [&](auto& ev, auto& s) {
                        if (!s.on)
                        {
                            s.k = 1;
                            PBT_CHECK(ctx, ev.Subscribe(s.k).has_value(), "Subscribe failed");
                            // a proxy that was there before the service was offered again may learn of it later
                            PBT_CHECK(ctx, Eventually([&] { return ev.GetSubscriptionState() == com::SubscriptionState::kSubscribed; }), "a subscription did not become active");
                            s.on = true;
                            s.last = 0;
                            ctx.Note("subscribe %s of %zu", small ? "small" : "ev", c.instance);
                        }
                    });
                }
                break;
            case 5:
                if (c.p && expect_visible(c.instance))
                {
                    with(c, small, [&](auto& ev, auto& s) {
                        if (s.on && !s.handler)
                        {
                            auto calls = std::make_shared<std::atomic<unsigned>>(0U);
                            PBT_CHECK(ctx, ev.SetReceiveHandler([calls]() noexcept { ++*calls; }).has_value(), "SetReceiveHandler failed");
                            s.calls = calls;
                            s.handler = true;
                            registrations(c.instance);
                            ctx.Note("handler for %s of %zu", small ? "small" : "ev", c.instance);
                        }
                        else if (s.on && src.Bool())
                        {
                            PBT_CHECK(ctx, ev.UnsetReceiveHandler().has_value(), "UnsetReceiveHandler failed");
                            s.handler = false;
                            ctx.Note("no handler for %s of %zu", small ? "small" : "ev", c.instance);
                            registrations(c.instance);
                        }
                    });
                }
                break;
            case 6:
                if (c.p && expect_visible(c.instance))
                {
                    with(c, small, [&](auto& ev, auto& s) {
                        if (s.on)
                        {
                            ev.Unsubscribe();
                            s.on = false;
                            s.handler = false;
                            ctx.Note("unsubscribe %s of %zu", small ? "small" : "ev", c.instance);
                            registrations(c.instance);
                        }
                    });
                }
                break;
            case 7:
                if (c.p)
                {
                    if (!expect_visible(c.instance))
                    {
                        left_while_stopped[c.instance][0] |= c.ev.handler;
                        left_while_stopped[c.instance][1] |= c.small.handler;
                    }
                    c.p.reset();
                    ctx.Note("consumer of %zu gone", c.instance);
                    c.ev = {};
                    c.small = {};
                    if (expect_visible(c.instance))
                    {
                        registrations(c.instance);
                    }
                }
                break;
            default:
                settle();
                if (held[i] && expect_visible(i))
                {
                    // the source gateway takes up a sample of the events it was asked for, and of no others
                    registrations(i);
                    for (const bool sm : {false, true})
                    {
                        unsigned taken = handlers(i, sm) ? 1U : 0U;
                        for (auto& u : consumers)
                        {
                            taken += u.p && u.instance == i && (sm ? u.small.on : u.ev.on) ? 1U : 0U;
                        }
                        if (!left_while_stopped[i][sm ? 1 : 0] && taken < slots)
                        {
                            PBT_CHECK(ctx, Eventually([&] { return source.Do('c', i | (sm ? 0x10U : 0U), slots - taken) == 1; }), "in the source domain %u samples of %s of %s cannot be subscribed to, %u of %u are taken",
                                      slots - taken, sm ? "small" : "ev", Name(i).c_str(), taken, slots);
                            ctx.Label("room in the source domain");
                        }
                    }
                }
                break;
        }
    }
    settle();
    if (src.Chance(1, 3))
    {
        // the source gateway ends first, with whatever it has subscribed to
        source.Do('e');
        alive();
        ctx.Label("source gateway ends first");
    }
    for (auto& c : consumers)
    {
        c.p.reset();
    }
    destination.reset();
    alive();
    if (notified > 0 && received_samples > 0)
    {
        ctx.NonTrivial();
    }
    if (reoffers > 0)
    {
        ctx.Label("offered again to consumers");
    }
    ctx.Count("samples received", received_samples);
    ctx.Count("notifications", notified);
    verif_shim::OsControl::Get().root = outer_root;
}
