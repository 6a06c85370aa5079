// E01: event delivery through the public API against a sequential reference model of the slot ring.
#include "event_model.h"

using namespace e2e;

namespace
{
template <typename T>
class Iface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Event<Payload> ev{*this, "ev"};
    typename T::template Event<std::uint8_t> small{*this, "small"};
};
using Proxy = com::AsProxy<Iface>;
using Skeleton = com::AsSkeleton<Iface>;

std::string Cfg(const ElementCfg& a, const ElementCfg& b)
{
    auto ev = [](const char* n, const ElementCfg& c) {
        return std::string{"{\"eventName\":\""} + n + "\",\"numberOfSampleSlots\":" + std::to_string(c.slots) + ",\"maxSubscribers\":" + std::to_string(c.max_subs) +
               ",\"enforceMaxSamples\":" + (c.enforce ? "true" : "false") + "}";
    };
    const std::string asil = a.asil_b ? "B" : "QM";
    return R"({"serviceTypes":[{"serviceTypeName":"/v/If","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":5000,"events":[{"eventName":"ev","eventId":3},{"eventName":"small","eventId":4}]}]}],
"serviceInstances":[{"instanceSpecifier":"v/inst","serviceTypeName":"/v/If","version":{"major":1,"minor":0},"instances":[{"instanceId":1,"asil-level":")" +
           asil + R"(","binding":"SHM","events":[)" + ev("ev", a) + "," + ev("small", b) + R"(]}]}],"global":{"asil-level":")" + asil + "\"}}";
}

}  // namespace

PBT_PROPERTY_EX(event_histories, 60000, 2000000, true, 30, 1, 0)
{
    Scratch scratch;
    ElementCfg a, b;
    a.slots = static_cast<unsigned>(1 + src.Below(6));
    a.max_subs = static_cast<unsigned>(1 + src.Below(3));
    a.enforce = !src.Chance(1, 4);
    b.slots = static_cast<unsigned>(1 + src.Below(4));
    b.max_subs = static_cast<unsigned>(1 + src.Below(3));
    a.asil_b = b.asil_b = src.Bool();
    Start(scratch, Cfg(a, b));
    const auto spec = Spec("v/inst");
    auto sk = Skeleton::Create(spec).value();
    {
        PBT_CHECK(ctx, !sk.ev.Send(Payload::Make(1)).has_value(), "Send before OfferService succeeded");
        PBT_CHECK(ctx, !sk.ev.Allocate().has_value(), "Allocate before OfferService succeeded");
    }
    PBT_CHECK(ctx, sk.OfferService().has_value(), "OfferService failed");
    const auto handles = Proxy::FindService(spec).value();
    PBT_CHECK(ctx, handles.size() == 1, "offered instance not found");
    std::vector<std::unique_ptr<Proxy>> proxies(3);
    auto get_a = [&](std::size_t i) -> auto& { return proxies[i]->ev; };
    auto get_b = [&](std::size_t i) -> auto& { return proxies[i]->small; };
    EventDriver<Payload, decltype(sk.ev), decltype(get_a)> da{src, ctx, sk.ev, a, get_a, 3};
    EventDriver<std::uint8_t, decltype(sk.small), decltype(get_b)> db{src, ctx, sk.small, b, get_b, 3};
    ctx.Note("%s slots=%u/%u subs=%u/%u enforce=%d", a.asil_b ? "B" : "QM", a.slots, b.slots, a.max_subs, b.max_subs, a.enforce);
    const auto steps = 5 + src.Below(60);
    for (std::uint64_t i = 0; i < steps; ++i)
    {
        std::vector<std::size_t> alive;
        for (std::size_t p = 0; p < proxies.size(); ++p)
        {
            if (proxies[p])
            {
                alive.push_back(p);
            }
        }
        const auto what = src.Below(20);
        if (what == 19 || alive.empty())
        {
            const auto p = src.Below(proxies.size());
            if (!proxies[p])
            {
                auto r = Proxy::Create(handles[0]);
                PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed");
                proxies[p] = std::make_unique<Proxy>(std::move(r).value());
                ctx.Note("p%zu create", (std::size_t)p);
            }
            else if (src.Bool())
            {
                // a proxy that goes away without Unsubscribe releases its subscriptions
                da.DropAll(p);
                db.DropAll(p);
                proxies[p].reset();
                da.Forget(da.subs[p]);
                db.Forget(db.subs[p]);
                ctx.Note("p%zu destroy", (std::size_t)p);
            }
            else
            {
                // moving a proxy must not disturb its subscriptions
                auto n = std::make_unique<Proxy>(std::move(*proxies[p]));
                proxies[p] = std::move(n);
                ctx.Note("p%zu move", (std::size_t)p);
            }
            continue;
        }
        if (what >= 15)
        {
            db.Step(alive);
        }
        else
        {
            da.Step(alive);
        }
    }
    if (da.delivered + db.delivered >= 3)
    {
        ctx.NonTrivial();
    }
    if (da.refused + db.refused > 0)
    {
        ctx.Label("allocation refused");
    }
    ctx.Count("samples delivered", da.delivered + db.delivered);
    ctx.Label(a.asil_b ? "ASIL-B" : "QM");
    da.allocs.clear();
    db.allocs.clear();
    for (std::size_t p = 0; p < proxies.size(); ++p)
    {
        da.DropAll(p);
        db.DropAll(p);
    }
}
