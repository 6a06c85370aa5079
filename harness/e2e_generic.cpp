// G02: type-erased events. Generic skeletons and generic proxies, alone and against typed counterparts, next to the
// reference model of the slot ring; sample sizes and alignments are chosen at run time.
#include "event_model.h"

#include <map>
#include <set>

#include "score/mw/com/impl/com_error.h"

using namespace e2e;

namespace
{
template <typename T>
class Iface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Event<Payload> ev{*this, "ev"};
    typename T::template Event<std::uint8_t> small{*this, "small"};
};
using Proxy = com::AsProxy<Iface>;
using Skeleton = com::AsSkeleton<Iface>;

/// What is known about the samples of one event.
struct Shape
{
    std::string name;
    std::size_t size;
    std::size_t align;
    enum
    {
        kBytes,
        kPayload,
        kByte
    } kind;
    void Fill(void* to, std::uint64_t v) const
    {
        if (kind == kPayload)
        {
            const auto p = Payload::Make(v);
            std::memcpy(to, &p, sizeof p);
            return;
        }
        auto* b = static_cast<std::uint8_t*>(to);
        for (std::size_t i = 0; i < size; ++i)
        {
            b[i] = kind == kByte ? static_cast<std::uint8_t>(v) : static_cast<std::uint8_t>(pbt::Mix(v * 1031 + i / 8) >> (8 * (i % 8)));
        }
    }
    bool Same(const void* p, std::uint64_t v) const
    {
        std::vector<std::uint8_t> want(size);
        Fill(want.data(), v);
        return reinterpret_cast<std::uintptr_t>(p) % align == 0 && std::memcmp(p, want.data(), size) == 0;
    }
};

struct Raw
{
    std::uint64_t v;
};
}  // namespace

namespace e2e
{
template <>
inline Raw MakeOf<Raw>(std::uint64_t s)
{
    return Raw{s};
}
}  // namespace e2e

namespace
{
/// The bytes of a sample.
struct View
{
    const Shape* shape;
    const void* at;
};
std::uint64_t SeqOf(const View& p)
{
    std::uint64_t r{0};
    std::memcpy(&r, p.at, std::min<std::size_t>(8, p.shape->size));
    return r;
}
bool ValidOf(const View& p)
{
    return p.at != nullptr && reinterpret_cast<std::uintptr_t>(p.at) % p.shape->align == 0;
}
struct RawAlloc
{
    const Shape* shape;
    com::SampleAllocateePtr<void> p;
    struct Ref
    {
        const Shape* shape;
        void* to;
        Ref& operator=(const Raw& r)
        {
            shape->Fill(to, r.v);
            return *this;
        }
    };
    Ref operator*() { return Ref{shape, p.Get()}; }
};
struct RawRecv
{
    const Shape* shape{nullptr};
    com::SamplePtr<void> p{};
    View operator*() const { return {shape, p.get()}; }
    RawRecv& operator=(std::nullptr_t)
    {
        p = nullptr;
        return *this;
    }
    RawRecv() = default;
    RawRecv(const Shape* s, com::SamplePtr<void> q) : shape{s}, p{std::move(q)} {}
    RawRecv(RawRecv&&) = default;
    RawRecv& operator=(RawRecv&&) = default;
};
bool SameAs(const RawRecv& r, std::uint64_t v)
{
    return r.shape->Same(r.p.get(), v);
}
}  // namespace

namespace e2e
{
template <>
struct PtrOf<Raw>
{
    using Alloc = RawAlloc;
    using Recv = RawRecv;
};
}  // namespace e2e

namespace
{
/// A generic skeleton's event with the interface the driver uses.
struct RawSkEvent
{
    std::unique_ptr<com::GenericSkeleton>& sk;
    const Shape* shape;
    com::GenericSkeletonEvent& Ev()
    {
        auto m = sk->GetEvents();
        return const_cast<com::GenericSkeletonEvent&>(m.find(shape->name)->second);
    }
    score::Result<RawAlloc> Allocate()
    {
        auto r = Ev().Allocate();
        if (!r.has_value())
        {
            return score::Unexpected{r.error()};
        }
        return RawAlloc{shape, std::move(r).value()};
    }
    score::Result<void> Send(RawAlloc a) { return Ev().Send(std::move(a.p)); }
    score::Result<void> Send(const Raw& r)
    {
        auto a = Allocate();
        if (!a.has_value())
        {
            return score::Unexpected{a.error()};
        }
        *a.value() = r;
        return Send(std::move(a).value());
    }
};
struct RawPrEvent
{
    com::GenericProxyEvent* e;
    const Shape* shape;
    auto Subscribe(std::size_t k) { return e->Subscribe(k); }
    void Unsubscribe() { e->Unsubscribe(); }
    auto GetSubscriptionState() { return e->GetSubscriptionState(); }
    auto GetNumNewSamplesAvailable() { return e->GetNumNewSamplesAvailable(); }
    auto GetFreeSampleCount() { return e->GetFreeSampleCount(); }
    template <typename F>
    auto GetNewSamples(F&& f, std::size_t n)
    {
        return e->GetNewSamples([&f, s = shape](com::SamplePtr<void> p) { f(RawRecv{s, std::move(p)}); }, n);
    }
};

std::string Cfg(const std::vector<std::pair<std::string, ElementCfg>>& evs, bool asil_b, const char* mode)
{
    std::string types, insts;
    unsigned id{3};
    for (const auto& [n, c] : evs)
    {
        types += (types.empty() ? "" : ",") + std::string{"{\"eventName\":\""} + n + "\",\"eventId\":" + std::to_string(id++) + "}";
        insts += (insts.empty() ? "" : ",") + std::string{"{\"eventName\":\""} + n + "\",\"numberOfSampleSlots\":" + std::to_string(c.slots) +
                 ",\"maxSubscribers\":" + std::to_string(c.max_subs) + ",\"enforceMaxSamples\":" + (c.enforce ? "true" : "false") + "}";
    }
    const std::string asil = asil_b ? "B" : "QM";
    return R"({"serviceTypes":[{"serviceTypeName":"/v/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":5100,"events":[)" + types +
           R"(]}]}],"serviceInstances":[{"instanceSpecifier":"v/inst","serviceTypeName":"/v/If","version":{"major":1,"minor":0},"instances":[{"instanceId":1,"asil-level":")" + asil +
           R"(","binding":"SHM","events":[)" + insts + R"(]}]}],"global":{"asil-level":")" + asil + R"(","shm-size-calc-mode":")" + mode + "\"}}";
}

/// One event under test, whatever the types of its two ends.
struct Track
{
    std::function<void(const std::vector<std::size_t>&)> step;
    std::function<void(std::size_t)> lose;       // a proxy goes away
    std::function<void()> drop_allocs;
    std::function<bool()> idle;                  // nobody is subscribed, nothing is held
    std::function<void()> fresh;                 // the region was created anew
    std::function<void()> not_offered;           // sending must fail
    std::function<unsigned()> delivered;
    std::function<void(std::size_t)> receive;
    std::function<void(std::size_t, std::size_t)> transfer;  // one proxy takes the place of another
    std::function<void()> subscribed_again;
};

template <typename D>
Track TrackOf(std::shared_ptr<D> d, unsigned extra = 0)
{
    Track t;
    t.step = [d](const auto& alive) { d->Step(alive); };
    t.lose = [d](std::size_t i) {
        d->DropAll(i);
        d->Forget(d->subs[i]);
    };
    t.drop_allocs = [d] {
        for (auto& a : d->allocs)
        {
            d->m.slots[a.slot] = Model::Slot{};
        }
        d->allocs.clear();
    };
    t.idle = [d] { return d->m.subs == 0; };
    t.fresh = [d, extra] { d->m = Model{d->m.cfg, extra}; };
    t.not_offered = [d] {
        const auto a = d->sk.Allocate();
        PBT_CHECK(d->ctx, !a.has_value() && a.error() == com::impl::ComErrc::kNotOffered, "Allocate %s although the service is not offered", a.has_value() ? "succeeded" : "reports another error");
        if constexpr (std::is_same_v<std::decay_t<decltype(d->sk)>, RawSkEvent>)
        {
            const auto s = d->sk.Ev().Send(com::impl::SampleAllocateePtr<void>{nullptr});
            PBT_CHECK(d->ctx, !s.has_value() && s.error() == com::impl::ComErrc::kNotOffered, "Send %s although the service is not offered", s.has_value() ? "succeeded" : "reports another error");
            const auto n = d->sk.Ev().Notify();
            PBT_CHECK(d->ctx, !n.has_value() && n.error() == com::impl::ComErrc::kNotOffered, "Notify %s although the service is not offered", n.has_value() ? "succeeded" : "reports another error");
        }
    };
    t.receive = [d](std::size_t i) {
        d->Receive(i);
        if (!d->subs[i].held.empty() && d->src.Bool())
        {
            d->DropSample(i);
        }
    };
    t.transfer = [d](std::size_t from, std::size_t to) {
        d->subs[to] = std::move(d->subs[from]);
        d->subs[from] = std::decay_t<decltype(d->subs[from])>{};
    };
    t.subscribed_again = [d] {
        for (std::size_t i = 0; i < d->subs.size(); ++i)
        {
            if (d->subs[i].subscribed)
            {
                PBT_CHECK(d->ctx, Eventually([&] { return d->get(i).GetSubscriptionState() == com::SubscriptionState::kSubscribed; }), "p%zu is not subscribed after the service was offered again", i);
            }
        }
    };
    t.delivered = [d] { return d->delivered; };
    return t;
}

ElementCfg RandomCfg(pbt::Src& src)
{
    ElementCfg c;
    c.slots = static_cast<unsigned>(1 + src.Below(src.Chance(1, 6) ? 40 : 6));
    c.max_subs = static_cast<unsigned>(1 + src.Below(src.Chance(1, 6) ? 20 : 3));
    c.enforce = !src.Chance(1, 4);
    return c;
}
}  // namespace

PBT_PROPERTY_EX(type_erased, 60000, 2000000, true, 30, 1, 0)
{
    Scratch scratch;
    const auto mode = src.Weighted({4, 2, 2});  // generic/generic, typed skeleton/generic proxies, generic skeleton/typed proxies
    const bool generic_sk = mode != 1;
    const bool generic_pr = mode != 2;
    const bool asil_b = src.Bool();
    std::vector<Shape> shapes;
    if (mode == 0)
    {
        const auto n = 1 + src.Below(3);
        const char* names[] = {"ev", "small", "third"};
        for (std::size_t i = 0; i < n; ++i)
        {
            const std::size_t align = std::size_t{1} << src.Below(5);
            const std::size_t count = 1 + (src.Chance(1, 4) ? src.Below(600) : src.Below(12));
            shapes.push_back(Shape{names[i], align * count, align, Shape::kBytes});
        }
    }
    else
    {
        shapes.push_back(Shape{"ev", sizeof(Payload), alignof(Payload), Shape::kPayload});
        shapes.push_back(Shape{"small", 1, 1, Shape::kByte});
    }
    std::vector<ElementCfg> cfgs;
    std::vector<std::pair<std::string, ElementCfg>> configured;
    for (const auto& s : shapes)
    {
        cfgs.push_back(RandomCfg(src));
        configured.emplace_back(s.name, cfgs.back());
    }
    const bool spare = mode == 0 && src.Chance(1, 3);
    if (spare)
    {
        configured.emplace_back("spare", RandomCfg(src));
    }
    const bool analysis = src.Bool();
    Start(scratch, Cfg(configured, asil_b, analysis ? "ANALYSIS" : "SIMULATION"));
    ctx.Label(mode == 0 ? "generic skeleton, generic proxies" : mode == 1 ? "typed skeleton, generic proxies" : "generic skeleton, typed proxies");
    ctx.Label(analysis ? "sizes by analysis" : "sizes by simulation");
    for (std::size_t i = 0; i < shapes.size(); ++i)
    {
        ctx.Note("%s size=%zu align=%zu slots=%u subs=%u enforce=%d", shapes[i].name.c_str(), shapes[i].size, shapes[i].align, cfgs[i].slots, cfgs[i].max_subs, cfgs[i].enforce);
    }
    const auto spec = Spec("v/inst");
    std::unique_ptr<com::GenericSkeleton> gsk;
    std::unique_ptr<Skeleton> tsk;
    if (generic_sk)
    {
        std::vector<com::EventInfo> infos;
        for (const auto& s : shapes)
        {
            infos.push_back(com::EventInfo{s.name, com::DataTypeMetaInfo{s.size, s.align}});
        }
        if (src.Chance(1, 3))
        {
            // descriptions that are not usable are refused, and do not stand in the way of a usable one
            auto bad = infos;
            const auto at = src.Below(bad.size());
            auto want = com::impl::ComErrc::kInvalidConfiguration;
            std::string unknown{"nope"};
            switch (src.Below(4))
            {
                case 0:
                    bad[at].data_type_meta_info.alignment = src.PickOf<std::size_t>({0, 3, 6, 12, 24});
                    break;
                case 1:
                    bad[at].data_type_meta_info.alignment = 16;
                    bad[at].data_type_meta_info.size = 16 * (1 + src.Below(5)) + 1 + src.Below(15);
                    break;
                case 2:
                    bad.push_back(bad[at]);
                    want = com::impl::ComErrc::kServiceElementAlreadyExists;
                    break;
                default:
                    bad[at].name = unknown;
                    want = com::impl::ComErrc::kBindingFailure;
                    break;
            }
            com::GenericSkeletonServiceElementInfo in;
            in.events = bad;
            auto r = com::GenericSkeleton::Create(spec, in);
            PBT_CHECK(ctx, !r.has_value() && r.error() == want, "an unusable event description was %s", r.has_value() ? "accepted" : "refused with another error");
            ctx.Label("unusable description first");
        }
        com::GenericSkeletonServiceElementInfo in;
        // the names the caller gives need not outlive the call
        std::vector<std::string> lent;
        for (const auto& s : shapes)
        {
            lent.push_back(s.name);
        }
        for (std::size_t i = 0; i < shapes.size(); ++i)
        {
            infos[i].name = lent[i];
        }
        in.events = infos;
        auto r = com::GenericSkeleton::Create(spec, in);
        for (auto& l : lent)
        {
            for (auto& ch : l)
            {
                ch = 'x';
            }
        }
        PBT_CHECK(ctx, r.has_value(), "GenericSkeleton::Create failed");
        gsk = std::make_unique<com::GenericSkeleton>(std::move(r).value());
        std::set<std::string> names;
        auto events = gsk->GetEvents();
        for (auto it = events.cbegin(); it != events.cend(); ++it)
        {
            names.insert(std::string{it->first});
        }
        for (const auto& s : shapes)
        {
            PBT_CHECK(ctx, names.count(s.name) == 1, "the generic skeleton has no event %s", s.name.c_str());
            const auto m = events.find(s.name)->second.GetSizeInfo();
            PBT_CHECK(ctx, m.size == s.size && m.alignment == s.align, "event %s of the generic skeleton has size %zu alignment %zu", s.name.c_str(), m.size, m.alignment);
        }
        PBT_CHECK(ctx, names.size() == shapes.size(), "the generic skeleton has %zu events", names.size());
    }
    else
    {
        tsk = std::make_unique<Skeleton>(Skeleton::Create(spec).value());
    }
    auto offer = [&] { return generic_sk ? gsk->OfferService().has_value() : tsk->OfferService().has_value(); };
    auto stop = [&] {
        if (generic_sk)
        {
            gsk->StopOfferService();
        }
        else
        {
            tsk->StopOfferService();
        }
    };

    constexpr std::size_t kProxies{3};
    std::vector<std::unique_ptr<com::GenericProxy>> gprs(kProxies);
    std::vector<std::unique_ptr<Proxy>> tprs(kProxies);
    auto exists = [&](std::size_t i) { return gprs[i] != nullptr || tprs[i] != nullptr; };

    std::vector<Track> tracks;
    std::list<RawSkEvent> raw_sk;
    std::vector<std::map<std::size_t, RawPrEvent>> raw_pr(shapes.size());
    auto raw_get = [&](std::size_t e) {
        return [&, e](std::size_t i) -> RawPrEvent& {
            auto m = gprs[i]->GetEvents();
            raw_pr[e][i] = RawPrEvent{const_cast<com::GenericProxyEvent*>(&m.find(shapes[e].name)->second), &shapes[e]};
            return raw_pr[e][i];
        };
    };
    auto get_ev = [&](std::size_t i) -> auto& { return tprs[i]->ev; };
    auto get_small = [&](std::size_t i) -> auto& { return tprs[i]->small; };
    std::function<void()> bind;
    if (mode == 0)
    {
        for (std::size_t e = 0; e < shapes.size(); ++e)
        {
            raw_sk.push_back(RawSkEvent{gsk, &shapes[e]});
            auto g = raw_get(e);
            tracks.push_back(TrackOf(std::make_shared<EventDriver<Raw, RawSkEvent, decltype(g)>>(src, ctx, raw_sk.back(), cfgs[e], g, kProxies)));
        }
    }
    else if (mode == 1)
    {
        auto g0 = raw_get(0);
        auto g1 = raw_get(1);
        tracks.push_back(TrackOf(std::make_shared<EventDriver<Payload, decltype(tsk->ev), decltype(g0), Raw>>(src, ctx, tsk->ev, cfgs[0], g0, kProxies)));
        tracks.push_back(TrackOf(std::make_shared<EventDriver<std::uint8_t, decltype(tsk->small), decltype(g1), Raw>>(src, ctx, tsk->small, cfgs[1], g1, kProxies)));
    }
    else
    {
        raw_sk.push_back(RawSkEvent{gsk, &shapes[0]});
        raw_sk.push_back(RawSkEvent{gsk, &shapes[1]});
        tracks.push_back(TrackOf(std::make_shared<EventDriver<Raw, RawSkEvent, decltype(get_ev), Payload>>(src, ctx, raw_sk.front(), cfgs[0], get_ev, kProxies)));
        tracks.push_back(TrackOf(std::make_shared<EventDriver<Raw, RawSkEvent, decltype(get_small), std::uint8_t>>(src, ctx, raw_sk.back(), cfgs[1], get_small, kProxies)));
    }
    for (auto& t : tracks)
    {
        t.not_offered();
    }
    PBT_CHECK(ctx, offer(), "OfferService failed");
    auto handles = com::GenericProxy::FindService(spec).value();
    PBT_CHECK(ctx, handles.size() == 1, "the offered instance was not found");

    const auto steps = 8 + src.Below(80);
    unsigned offers{1};
    for (std::uint64_t i = 0; i < steps; ++i)
    {
        std::vector<std::size_t> alive;
        for (std::size_t p = 0; p < kProxies; ++p)
        {
            if (exists(p))
            {
                alive.push_back(p);
            }
        }
        const auto what = src.Below(24);
        if (what == 23)
        {
            bool idle{true};
            for (auto& t : tracks)
            {
                idle = idle && t.idle();
            }
            {
                for (auto& t : tracks)
                {
                    t.drop_allocs();
                }
                ctx.Note("stop, offer");
                stop();
                for (auto& t : tracks)
                {
                    t.not_offered();
                }
                if (alive.empty())
                {
                    for (auto& t : tracks)
                    {
                        t.fresh();
                    }
                }
                else
                {
                    Quiesce();
                    for (auto n = src.Below(5); n > 0; --n)
                    {
                        // what was sent can be received, with and without a provider
                        src.Pick(tracks).receive(src.Pick(alive));
                    }
                    if (!idle)
                    {
                        ctx.Label("offered again to subscribers");
                    }
                }
                PBT_CHECK(ctx, offer(), "offering again failed");
                ++offers;
                handles = com::GenericProxy::FindService(spec).value();
                PBT_CHECK(ctx, handles.size() == 1, "the instance offered again was not found");
                Quiesce();
                for (auto& t : tracks)
                {
                    t.subscribed_again();
                }
            }
            continue;
        }
        if (what == 22 && generic_sk)
        {
            gsk = std::make_unique<com::GenericSkeleton>(std::move(*gsk));
            ctx.Note("move skeleton");
            continue;
        }
        if (what == 21 || alive.empty())
        {
            const auto p = src.Below(kProxies);
            if (!exists(p))
            {
                if (generic_pr)
                {
                    auto r = com::GenericProxy::Create(handles[0]);
                    PBT_CHECK(ctx, r.has_value(), "GenericProxy::Create failed");
                    gprs[p] = std::make_unique<com::GenericProxy>(std::move(r).value());
                    std::size_t found{0};
                    auto events = gprs[p]->GetEvents();
                    for (auto it = events.cbegin(); it != events.cend(); ++it)
                    {
                        ++found;
                    }
                    PBT_CHECK(ctx, found == shapes.size(), "the generic proxy has %zu events, %zu are provided", found, shapes.size());
                    for (const auto& s : shapes)
                    {
                        const auto it = events.find(s.name);
                        PBT_CHECK(ctx, it != events.cend(), "the generic proxy has no event %s", s.name.c_str());
                        PBT_CHECK(ctx, it->second.GetSampleSize() == s.size, "event %s has samples of %zu bytes, the proxy says %zu", s.name.c_str(), s.size, it->second.GetSampleSize());
                        PBT_CHECK(ctx, !it->second.HasSerializedFormat(), "event %s is said to be serialized", s.name.c_str());
                    }
                }
                else
                {
                    auto r = Proxy::Create(handles[0]);
                    PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed");
                    tprs[p] = std::make_unique<Proxy>(std::move(r).value());
                }
                ctx.Note("p%zu create", (std::size_t)p);
            }
            else if (src.Bool())
            {
                for (auto& t : tracks)
                {
                    t.lose(p);
                }
                gprs[p].reset();
                tprs[p].reset();
                ctx.Note("p%zu destroy", (std::size_t)p);
            }
            else if (const auto q = src.Below(kProxies); q != p && exists(q) && src.Bool())
            {
                for (auto& t : tracks)
                {
                    t.lose(p);
                    t.transfer(q, p);
                }
                if (gprs[p])
                {
                    *gprs[p] = std::move(*gprs[q]);
                    gprs[q].reset();
                }
                else
                {
                    *tprs[p] = std::move(*tprs[q]);
                    tprs[q].reset();
                }
                ctx.Label("a proxy takes the place of another");
                ctx.Note("p%zu = move(p%zu)", (std::size_t)p, (std::size_t)q);
            }
            else
            {
                if (gprs[p])
                {
                    gprs[p] = std::make_unique<com::GenericProxy>(std::move(*gprs[p]));
                }
                else
                {
                    tprs[p] = std::make_unique<Proxy>(std::move(*tprs[p]));
                }
                ctx.Note("p%zu move", (std::size_t)p);
            }
            continue;
        }
        src.Pick(tracks).step(alive);
    }
    unsigned delivered{0};
    for (auto& t : tracks)
    {
        delivered += t.delivered();
        t.drop_allocs();
        for (std::size_t p = 0; p < kProxies; ++p)
        {
            t.lose(p);
        }
    }
    if (delivered >= 3)
    {
        ctx.NonTrivial();
    }
    if (offers > 1)
    {
        ctx.Label("offered again");
    }
    ctx.Count("samples delivered", delivered);
}
