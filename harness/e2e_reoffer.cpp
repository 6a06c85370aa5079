// S03/S04/E06: proxies that live through StopOfferService, re-offers, provider crashes and restarts in other processes.
#include "remote.h"

#include <map>
#include <mutex>
#include <set>

using namespace e2e;

namespace
{
template <typename T>
class Iface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Event<Payload> ev{*this, "ev"};
    typename T::template Method<std::uint64_t(std::uint64_t)> echo{*this, "echo"};
};
using Proxy = com::AsProxy<Iface>;
using Skeleton = com::AsSkeleton<Iface>;

std::string Cfg(const ElementCfg& a)
{
    const std::string asil = a.asil_b ? "B" : "QM";
    return R"({"serviceTypes":[{"serviceTypeName":"/v/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":5003,"events":[{"eventName":"ev","eventId":3}],"methods":[{"methodName":"echo","methodId":9}]}]}],
"serviceInstances":[{"instanceSpecifier":"v/inst","serviceTypeName":"/v/If","version":{"major":1,"minor":0},"instances":[{"instanceId":1,"asil-level":")" +
           asil + R"(","binding":"SHM","events":[{"eventName":"ev","numberOfSampleSlots":)" + std::to_string(a.slots) + ",\"maxSubscribers\":" + std::to_string(a.max_subs) +
           ",\"enforceMaxSamples\":" + (a.enforce ? "true" : "false") + R"(}],"methods":[{"methodName":"echo","queueSize":1}]}]}],"global":{"asil-level":")" + asil + "\"}}";
}

std::uint64_t Echo(std::uint64_t gen, std::uint64_t x)
{
    return x * 3 + gen;
}

/// The provider side, in whichever process.
struct ProviderSide
{
    std::unique_ptr<Skeleton> sk;
    std::vector<com::SampleAllocateePtr<Payload>> held;
    std::uint64_t gen;
    explicit ProviderSide(std::uint64_t g) : gen{g}
    {
        sk = std::make_unique<Skeleton>(Skeleton::Create(Spec("v/inst")).value());
        auto h = [g](std::uint64_t& r, const std::uint64_t& x) { r = Echo(g, x); };
        (void)sk->echo.RegisterHandler(std::move(h));
    }
    std::uint64_t operator()(char op, std::uint64_t a, std::uint64_t)
    {
        switch (op)
        {
            case 'o':
                return sk->OfferService().has_value();
            case 'x':
                held.clear();
                sk->StopOfferService();
                return 1;
            case 's':
                return sk->ev.Send(Payload::Make(a)).has_value();
            case 'a':
            {
                auto r = sk->ev.Allocate();
                if (r.has_value())
                {
                    *r.value() = Payload::Make(0xDEAD0000 + held.size());
                    held.push_back(std::move(r).value());
                    return 1;
                }
                return 0;
            }
            case 'd':
                held.pop_back();
                return 1;
            case 'S':
            {
                *held.back() = Payload::Make(a);
                const auto ok = sk->ev.Send(std::move(held.back())).has_value();
                held.pop_back();
                return ok;
            }
            default:
                return 0;
        }
    }
};

struct Consumer
{
    std::unique_ptr<Proxy> p;
    bool sub{false};
    std::size_t k{0};
    std::uint64_t last{0};
    struct Held
    {
        com::SamplePtr<Payload> s;
        std::uint64_t seq;
    };
    std::vector<Held> held;
    bool handler{false};
    std::shared_ptr<std::atomic<std::uint64_t>> calls;
    bool warm{false};  // a notification was seen since the handler was set and the provider was (re-)offered
    std::shared_ptr<std::pair<std::mutex, std::vector<com::SubscriptionState>>> states;
};
}  // namespace

PBT_PROPERTY_EX(reoffer_histories, 20000, 1000000, true, 90, 3, 0)
{
    Scratch scratch;
    ElementCfg cfg;
    cfg.slots = static_cast<unsigned>(1 + src.Below(5));
    cfg.max_subs = static_cast<unsigned>(2 + src.Below(2));
    cfg.enforce = !src.Chance(1, 4);
    cfg.asil_b = src.Bool();
    const bool remote = src.Chance(2, 3);
    std::vector<std::unique_ptr<Remote>> procs;
    std::ofstream(scratch.root + "/cfg.json") << Cfg(cfg);
    if (remote)
    {
        for (std::uint64_t g = 0; g < 3; ++g)
        {
            procs.push_back(std::make_unique<Remote>([g] {
                ::score::mw::com::runtime::RuntimeConfiguration rc{score::filesystem::Path{"/cfg.json"}};
                ::score::mw::com::runtime::InitializeRuntime(rc);
                auto side = std::make_shared<ProviderSide>(g);
                return Remote::Serve{[side](char op, std::uint64_t a, std::uint64_t b) { return (*side)(op, a, b); }};
            }));
        }
    }
    Start(scratch, Cfg(cfg));
    std::unique_ptr<ProviderSide> local;
    std::size_t gen{0};
    if (!remote)
    {
        local = std::make_unique<ProviderSide>(0);
    }
    auto provider = [&](char op, std::uint64_t a = 0) {
        if (!remote)
        {
            return (*local)(op, a, 0);
        }
        const auto r = procs[gen]->Do(op, a);
        PBT_CHECK(ctx, !procs[gen]->Lost(), "the provider process died while serving '%c'", op);
        return r;
    };
    ctx.Note("%s slots=%u subs=%u enforce=%d %s", cfg.asil_b ? "B" : "QM", cfg.slots, cfg.max_subs, cfg.enforce, remote ? "remote" : "local");
    enum class Up
    {
        kDown,
        kUp,
        kCrashed
    };
    Up up{Up::kDown};
    std::vector<Consumer> cs(2);
    std::uint64_t next{1};
    std::size_t allocated{0}, offers{0}, crashes{0}, survived{0};
    std::uint64_t newest{0};           // newest sample sent
    bool newest_in_memory{false};      // and not lost with its memory
    std::set<std::uint64_t> sent;
    bool lost_latest{false};           // the provider restarted without knowing the newest timestamp
    bool may_be_overwritten{false};    // an allocation since the newest sample may have taken its slot

    auto distinct_held = [&] {
        std::set<std::uint64_t> s;
        for (auto& c : cs)
        {
            for (auto& h : c.held)
            {
                s.insert(h.seq);
            }
        }
        return s.size();
    };
    auto anyone = [&] {
        for (auto& c : cs)
        {
            if (c.p)
            {
                return true;
            }
        }
        return false;
    };
    auto check_held = [&] {
        for (auto& c : cs)
        {
            for (auto& h : c.held)
            {
                PBT_CHECK(ctx, h.s->Valid() && h.s->seq == h.seq, "a held sample changed: sample %llu now reads as %llu", (unsigned long long)h.seq, (unsigned long long)h.s->seq);
            }
        }
    };
    auto check_states = [&] {
        Quiesce();
        for (std::size_t i = 0; i < cs.size(); ++i)
        {
            auto& c = cs[i];
            if (!c.p)
            {
                continue;
            }
            const auto st = c.p->ev.GetSubscriptionState();
            const auto want = !c.sub ? com::SubscriptionState::kNotSubscribed : (up == Up::kDown ? com::SubscriptionState::kSubscriptionPending : com::SubscriptionState::kSubscribed);
            PBT_CHECK(ctx, st == want, "subscription state of c%zu is %d, expected %d", i, (int)st, (int)want);
            if (c.states)
            {
                std::lock_guard<std::mutex> g{c.states->first};
                PBT_CHECK(ctx, c.states->second.empty() || c.states->second.back() == st, "the state change handler of c%zu was last told %d, the state is %d", i,
                          (int)c.states->second.back(), (int)st);
                for (std::size_t j = 1; j < c.states->second.size(); ++j)
                {
                    PBT_CHECK(ctx, c.states->second[j] != c.states->second[j - 1], "the state change handler of c%zu was told the same state twice in a row", i);
                }
            }
        }
    };
    auto receive = [&](std::size_t i, std::size_t max, bool keep) {
        auto& c = cs[i];
        std::vector<Consumer::Held> got;
        const auto before = c.held.size();
        auto r = c.p->ev.GetNewSamples(
            [&](com::SamplePtr<Payload> s) noexcept {
                const auto seq = s->seq;
                got.push_back(Consumer::Held{std::move(s), seq});
            },
            max);
        if (before == c.k)
        {
            PBT_CHECK(ctx, got.empty(), "c%zu got samples although it holds as many as it subscribed for", i);
            return got.size();
        }
        PBT_CHECK(ctx, r.has_value(), "GetNewSamples of c%zu failed", i);
        PBT_CHECK(ctx, got.size() == r.value() && got.size() <= max && got.size() + before <= c.k, "GetNewSamples of c%zu returned %zu and delivered %zu of at most %zu", i,
                  (std::size_t)r.value(), got.size(), max);
        for (auto& g : got)
        {
            PBT_CHECK(ctx, g.s->Valid(), "c%zu received a torn sample", i);
            PBT_CHECK(ctx, sent.count(g.seq) == 1, "c%zu received sample %llu which was never sent", i, (unsigned long long)g.seq);
            PBT_CHECK(ctx, g.seq > c.last, "c%zu received sample %llu after %llu", i, (unsigned long long)g.seq, (unsigned long long)c.last);
            c.last = g.seq;
        }
        const auto n = got.size();
        if (keep)
        {
            for (auto& g : got)
            {
                c.held.push_back(std::move(g));
            }
        }
        return n;
    };
    /// sends a sample and follows it to every subscribed consumer
    auto send = [&](bool allocated_one, bool follow) {
        const auto held = distinct_held() + allocated - (allocated_one ? 1U : 0U);
        const auto seq = next++;
        if (allocated_one)
        {
            --allocated;
        }
        std::vector<std::uint64_t> before;
        for (auto& c : cs)
        {
            before.push_back(c.calls ? c.calls->load() : 0);
        }
        sent.insert(seq);
        const bool ok = provider(allocated_one ? 'S' : 's', seq) == 1;
        const bool room = allocated_one || held < cfg.slots;
        PBT_CHECK(ctx, ok == room, "Send %s with %zu of %u slots in use", ok ? "succeeded" : "failed", held, cfg.slots);
        ctx.Note("send %llu -> %d", (unsigned long long)seq, ok);
        if (!ok)
        {
            sent.erase(seq);
            return;
        }
        newest = seq;
        newest_in_memory = true;
        may_be_overwritten = false;
        for (std::size_t i = 0; i < cs.size(); ++i)
        {
            auto& c = cs[i];
            if (!c.p || !c.sub)
            {
                continue;
            }
            if (c.handler)
            {
                bool told = Eventually([&] { return c.calls->load() > before[i]; }, c.warm ? 20.0 : 0.2);
                if (c.warm)
                {
                    PBT_CHECK(ctx, told, "the receive handler of c%zu was not called for sample %llu", i, (unsigned long long)seq);
                }
                if (told)
                {
                    c.warm = true;
                    ctx.Label("notified");
                }
            }
            if (follow && c.held.size() < c.k)
            {
                receive(i, c.k, src.Chance(1, 3));
                if (c.last != seq && lost_latest)
                {
                    // the crashed provider was overwriting the slot of the newest sample, see sample_after_crash_while_writing
                    ctx.Label("newest timestamp lost in the crash");
                    continue;
                }
                PBT_CHECK(ctx, c.last == seq, "c%zu did not get sample %llu that was just sent, its last one is %llu", i, (unsigned long long)seq, (unsigned long long)c.last);
                ctx.Label("received");
            }
        }
    };
    auto offer = [&] {
        PBT_CHECK(ctx, provider('o') == 1, "OfferService failed");
        ++offers;
        if (anyone())
        {
            ++survived;
        }
        up = Up::kUp;
        allocated = 0;
        if (!anyone())
        {
            newest_in_memory = false;
        }
        for (auto& c : cs)
        {
            c.warm = false;
        }
        Quiesce();
    };
    const auto steps = 10 + src.Below(40);
    for (std::uint64_t n = 0; n < steps; ++n)
    {
        check_held();
        if (up != Up::kUp)
        {
            const auto what = src.Below(6);
            if (what < 2 || (up == Up::kCrashed && what < 4))
            {
                if (up == Up::kCrashed)
                {
                    ++gen;
                    if (gen >= procs.size())
                    {
                        break;
                    }
                }
                ctx.Note("offer gen %zu", gen);
                offer();
                check_states();
                continue;
            }
        }
        const auto i = src.Below(cs.size());
        auto& c = cs[i];
        switch (src.Weighted({5, 4, 4, 6, 3, 2, 2, 3, 3, 3, 2, 1, 2}))
        {
            case 0:
                if (!c.p && up == Up::kUp)
                {
                    Quiesce();  // see reoffer_under_stale_cache
                    const auto handles = Proxy::FindService(Spec("v/inst")).value();
                    PBT_CHECK(ctx, handles.size() == 1, "offered instance not found");
                    auto r = Proxy::Create(handles[0]);
                    PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed");
                    c = Consumer{};
                    c.p = std::make_unique<Proxy>(std::move(r).value());
                    if (src.Bool())
                    {
                        c.states = std::make_shared<std::pair<std::mutex, std::vector<com::SubscriptionState>>>();
                        auto st = c.states;
                        (void)c.p->ev.SetSubscriptionStateChangeHandler([st](com::SubscriptionState s) {
                            std::lock_guard<std::mutex> g{st->first};
                            st->second.push_back(s);
                            return true;
                        });
                    }
                    ctx.Note("c%llu create", (unsigned long long)i);
                }
                break;
            case 1:
                if (c.p && !c.sub && up != Up::kCrashed)
                {
                    const auto k = 1 + src.Below(3);
                    std::size_t taken{0}, subs{0};
                    for (auto& o : cs)
                    {
                        taken += o.sub ? o.k : 0;
                        subs += o.sub ? 1U : 0U;
                    }
                    const bool want = !cfg.enforce || taken + k <= cfg.slots;
                    const bool ok = c.p->ev.Subscribe(k).has_value();
                    PBT_CHECK(ctx, ok == (want && subs < cfg.max_subs), "Subscribe(%llu) %s", (unsigned long long)k, ok ? "succeeded" : "failed");
                    ctx.Note("c%llu subscribe %llu -> %d", (unsigned long long)i, (unsigned long long)k, ok);
                    if (ok)
                    {
                        c.sub = true;
                        c.k = k;
                        c.last = 0;
                        c.handler = false;
                        c.warm = false;
                        check_states();
                    }
                }
                break;
            case 2:
                if (c.p && c.sub && !c.handler)
                {
                    c.calls = std::make_shared<std::atomic<std::uint64_t>>(0);
                    auto calls = c.calls;
                    PBT_CHECK(ctx, c.p->ev.SetReceiveHandler([calls]() noexcept { ++*calls; }).has_value(), "SetReceiveHandler failed");
                    c.handler = true;
                    c.warm = false;
                    ctx.Note("c%llu handler", (unsigned long long)i);
                    if (up == Up::kUp)
                    {
                        // once it is registered with the provider, every sample is announced
                        for (int t = 0; t < 200 && !c.warm && distinct_held() + allocated < cfg.slots; ++t)
                        {
                            send(false, false);
                        }
                        PBT_CHECK(ctx, c.warm || distinct_held() + allocated >= cfg.slots, "the receive handler of c%llu is never called", (unsigned long long)i);
                    }
                }
                else if (c.p && c.handler && src.Chance(1, 3))
                {
                    PBT_CHECK(ctx, c.p->ev.UnsetReceiveHandler().has_value(), "UnsetReceiveHandler failed");
                    const auto v = c.calls->load();
                    c.handler = false;
                    ctx.Note("c%llu unset handler", (unsigned long long)i);
                    if (up == Up::kUp)
                    {
                        send(false, false);
                    }
                    PBT_CHECK(ctx, c.calls->load() == v, "the receive handler of c%llu was called after it was unset", (unsigned long long)i);
                }
                break;
            case 3:
                if (up == Up::kUp)
                {
                    send(allocated > 0 && src.Bool(), true);
                }
                break;
            case 4:
                if (c.p && c.sub)
                {
                    const auto m = 1 + src.Below(3);
                    const auto got = receive(i, m, true);
                    ctx.Note("c%llu takes %zu of %llu", (unsigned long long)i, got, (unsigned long long)m);
                }
                break;
            case 5:
                if (!c.held.empty())
                {
                    const auto h = src.Below(c.held.size());
                    c.held.erase(c.held.begin() + static_cast<long>(h));
                    ctx.Note("c%llu drops one", (unsigned long long)i);
                }
                break;
            case 6:
                if (c.p && c.sub)
                {
                    c.held.clear();
                    c.p->ev.Unsubscribe();
                    c.sub = false;
                    c.handler = false;
                    ctx.Note("c%llu unsubscribe", (unsigned long long)i);
                    check_states();
                }
                break;
            case 7:
                if (c.p && up != Up::kCrashed)
                {
                    Quiesce();
                    const auto x = src.Below(1000);
                    auto r = c.p->echo(x);
                    if (up == Up::kUp)
                    {
                        PBT_CHECK(ctx, r.has_value(), "a call of c%llu failed although the service is offered", (unsigned long long)i);
                        PBT_CHECK(ctx, *r.value() == Echo(gen, x), "a call of c%llu was answered with %llu", (unsigned long long)i, (unsigned long long)*r.value());
                        ctx.Label("called");
                    }
                    else
                    {
                        PBT_CHECK(ctx, !r.has_value(), "a call of c%llu succeeded although the service is not offered", (unsigned long long)i);
                    }
                    ctx.Note("c%llu call", (unsigned long long)i);
                }
                break;
            case 8:
                if (up == Up::kUp)
                {
                    ctx.Note("stop-offer");
                    allocated = 0;
                    (void)provider('x');
                    up = Up::kDown;
                    check_states();
                }
                break;
            case 9:
                if (up == Up::kUp && remote && gen + 1 < procs.size())
                {
                    ctx.Note("provider crashes with %zu allocated", allocated);
                    procs[gen]->Kill();
                    up = Up::kCrashed;
                    ++crashes;
                    lost_latest = lost_latest || may_be_overwritten;
                    ctx.Label(anyone() ? "crash with consumers" : "crash");
                }
                break;
            case 10:
                if (up == Up::kUp)
                {
                    const auto in_use = distinct_held() + allocated;
                    const bool ok = provider('a') == 1;
                    PBT_CHECK(ctx, ok == (in_use < cfg.slots), "Allocate %s with %zu of %u slots in use", ok ? "succeeded" : "failed", in_use, cfg.slots);
                    allocated += ok ? 1U : 0U;
                    may_be_overwritten = may_be_overwritten || ok;
                    ctx.Note("allocate -> %d", ok);
                }
                break;
            case 11:
                if (c.p)
                {
                    c.held.clear();
                    c.p.reset();
                    c = Consumer{};
                    ctx.Note("c%llu destroy", (unsigned long long)i);
                }
                break;
            default:
                if (up == Up::kUp && allocated > 0)
                {
                    (void)provider('d');
                    --allocated;
                    ctx.Note("drop allocated");
                }
                break;
        }
    }
    check_held();
    check_states();
    for (auto& c : cs)
    {
        c.held.clear();
        c.p.reset();
    }
    if (survived > 0 && offers > 1)
    {
        ctx.NonTrivial();
        ctx.Label(crashes > 0 ? "restart after crash survived" : "re-offer survived");
    }
}

/// A provider that dies while it overwrites the slot of the newest sample takes the newest timestamp along. The samples
/// sent after its restart have to reach the consumers nevertheless.
PBT_PROPERTY_EX(sample_after_crash_while_writing, 24, 200, true, 60, 1, 0)
{
    Scratch scratch;
    ElementCfg cfg;
    cfg.slots = 1;
    cfg.max_subs = 2;
    cfg.enforce = true;
    cfg.asil_b = src.Bool();
    const auto sends = 1 + src.Below(4);
    const auto crash_writing = src.Bool();
    std::vector<std::unique_ptr<Remote>> procs;
    for (std::uint64_t g = 0; g < 2; ++g)
    {
        procs.push_back(std::make_unique<Remote>([&scratch, g, cfg]() -> Remote::Serve {
            Start(scratch, Cfg(cfg));
            auto p = std::make_shared<ProviderSide>(g);
            return [p](char op, std::uint64_t a, std::uint64_t b) { return (*p)(op, a, b); };
        }));
    }
    Start(scratch, Cfg(cfg));
    PBT_CHECK(ctx, procs[0]->Do('o') == 1, "OfferService failed");
    Quiesce();
    auto proxy = Proxy::Create(Proxy::FindService(Spec("v/inst")).value().at(0)).value();
    PBT_CHECK(ctx, proxy.ev.Subscribe(1).has_value(), "Subscribe failed");
    std::uint64_t last{0};
    auto take = [&] {
        (void)proxy.ev.GetNewSamples([&](com::SamplePtr<Payload> s) noexcept { last = s->seq; }, 1);
        return last;
    };
    std::uint64_t seq{0};
    for (std::uint64_t n = 0; n < sends; ++n)
    {
        PBT_CHECK(ctx, procs[0]->Do('s', ++seq) == 1 && take() == seq, "sample %llu did not arrive", (unsigned long long)seq);
    }
    if (crash_writing)
    {
        PBT_CHECK(ctx, procs[0]->Do('a') == 1, "Allocate failed");
    }
    procs[0]->Kill();
    PBT_CHECK(ctx, procs[1]->Do('o') == 1, "OfferService after the crash failed");
    Quiesce();
    ctx.NonTrivial();
    ctx.Note("%s, %llu samples, crash %s", cfg.asil_b ? "B" : "QM", (unsigned long long)sends, crash_writing ? "while writing" : "idle");
    PBT_CHECK(ctx, procs[1]->Do('s', ++seq) == 1, "Send failed after the restart");
    if (take() != seq)
    {
        if (crash_writing)
        {
            { ctx.Known("samples-missed-after-crash-while-writing"); return; }
        }
        ctx.Fail("the sample sent after the restart did not arrive");
    }
}

/// A proxy that is created while the end of the offer has not been noticed yet. Once stop and re-offer have been noticed
/// together, the proxy has to be usable.
PBT_PROPERTY_EX(reoffer_under_stale_cache, 24, 200, true, 60, 1, 0)
{
    Scratch scratch;
    ElementCfg cfg;
    cfg.slots = 2;
    cfg.max_subs = 2;
    cfg.enforce = true;
    cfg.asil_b = src.Bool();
    Start(scratch, Cfg(cfg));
    ProviderSide prov{0};
    auto& inotify = verif_shim::InotifyControl::Get();
    PBT_CHECK(ctx, prov('o', 0, 0) == 1, "OfferService failed");
    Quiesce();
    // another proxy keeps the directory watched and the instance cached
    auto other = Proxy::Create(Proxy::FindService(Spec("v/inst")).value().at(0)).value();
    Quiesce();
    const auto handle = Proxy::FindService(Spec("v/inst")).value().at(0);
    (void)prov('x', 0, 0);
    Quiesce();
    const bool hold = src.Bool();
    inotify.hold = hold;
    PBT_CHECK(ctx, prov('o', 0, 0) == 1, "OfferService failed");
    auto r = Proxy::Create(handle);
    PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed although the service is offered");
    auto late = std::make_unique<Proxy>(std::move(r).value());
    const auto again = src.Below(3);
    for (std::uint64_t n = 0; n < again; ++n)
    {
        (void)prov('x', 0, 0);
        PBT_CHECK(ctx, prov('o', 0, 0) == 1, "OfferService failed");
    }
    inotify.hold = false;
    Quiesce();
    ctx.Note("%s%llu re-offers after the creation", hold ? "events held " : "", (unsigned long long)again);
    auto a = other.echo(7);
    PBT_CHECK(ctx, a.has_value() && *a.value() == Echo(0, 7), "a call of the earlier proxy failed after the re-offer");
    if (late)
    {
        ctx.NonTrivial();
        auto b = late->echo(8);
        if (!b.has_value())
        {
            if (again > 0)
            {
                { ctx.Known("reconnect-missed-after-stale-cache"); return; }
            }
            ctx.Fail("a call of the proxy failed although the service is offered");
        }
        PBT_CHECK(ctx, *b.value() == Echo(0, 8), "wrong answer");
    }
}
