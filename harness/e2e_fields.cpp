// F01: fields through the public API: value on offer, Update, Get, Set and notification against a reference model.
#include "event_model.h"

#include <atomic>

using namespace e2e;

namespace
{
template <typename T>
class Iface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Field<Payload, com::WithGetter, com::WithSetter, com::WithNotifier> full{*this, "full"};
    typename T::template Field<std::uint8_t, com::WithNotifier> note{*this, "note"};
    typename T::template Field<std::uint64_t, com::WithGetter> get{*this, "get"};
    typename T::template Field<Payload, com::WithGetter, com::WithSetter> gs{*this, "gs"};
};
using Proxy = com::AsProxy<Iface>;
using Skeleton = com::AsSkeleton<Iface>;

struct FieldCfg : ElementCfg
{
    bool use_get{true};
    bool use_set{true};
};

std::string Cfg(const FieldCfg (&f)[4])
{
    const char* names[4] = {"full", "note", "get", "gs"};
    std::string types, inst;
    for (int i = 0; i < 4; ++i)
    {
        types += (i ? "," : "") + std::string{"{\"fieldName\":\""} + names[i] + "\",\"fieldId\":" + std::to_string(11 + i) + "}";
        inst += (i ? "," : "") + std::string{"{\"fieldName\":\""} + names[i] + "\",\"numberOfSampleSlots\":" + std::to_string(f[i].slots) + ",\"maxSubscribers\":" +
                std::to_string(f[i].max_subs) + ",\"enforceMaxSamples\":" + (f[i].enforce ? "true" : "false") + ",\"useGetIfAvailable\":" + (f[i].use_get ? "true" : "false") +
                ",\"useSetIfAvailable\":" + (f[i].use_set ? "true" : "false") + "}";
    }
    const std::string asil = f[0].asil_b ? "B" : "QM";
    return R"({"serviceTypes":[{"serviceTypeName":"/v/F","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":5002,"fields":[)" + types +
           R"(]}]}],"serviceInstances":[{"instanceSpecifier":"v/inst","serviceTypeName":"/v/F","version":{"major":1,"minor":0},"instances":[{"instanceId":1,"asil-level":")" + asil +
           R"(","binding":"SHM","fields":[)" + inst + R"(]}]}],"global":{"asil-level":")" + asil + "\"}}";
}

/// What the provider's set handler does with a desired value.
std::uint64_t Applied(unsigned mode, std::uint64_t want)
{
    switch (mode)
    {
        case 0:
            return want;
        case 1:
            return std::min<std::uint64_t>(want, 100);
        default:
            return want * 3 + 1;
    }
}

template <typename F, typename T>
struct FieldSk
{
    F& f;
    auto Send(const T& v)
    {
        return f.Update(v);
    }
    auto Send(com::SampleAllocateePtr<T> p)
    {
        return f.Update(std::move(p));
    }
    auto Allocate()
    {
        return f.Allocate();
    }
};

struct Client
{
    explicit Client(Proxy p) : proxy{std::move(p)} {}
    Proxy proxy;
    using RFull = decltype(std::declval<Proxy&>().full.Get());
    std::optional<RFull> kept;      // return storage of full.Get() kept by the caller
    std::uint64_t kept_value{0};
    std::optional<RFull> kept_set;  // return storage of full.Set()
    std::uint64_t kept_set_value{0};
};
}  // namespace

PBT_PROPERTY_EX(field_histories, 60000, 2000000, true, 30, 1, 0)
{
    Scratch scratch;
    FieldCfg f[4];
    const bool asil_b = src.Bool();
    for (auto& c : f)
    {
        c.slots = static_cast<unsigned>(1 + src.Below(5));
        c.max_subs = static_cast<unsigned>(1 + src.Below(3));
        c.enforce = !src.Chance(1, 4);
        c.use_get = !src.Chance(1, 8);
        c.use_set = !src.Chance(1, 8);
        c.asil_b = asil_b;
    }
    Start(scratch, Cfg(f));
    const auto spec = Spec("v/inst");
    const auto mode_full = static_cast<unsigned>(src.Below(3));
    const auto mode_gs = static_cast<unsigned>(src.Below(3));
    std::atomic<unsigned> set_calls{0};
    std::atomic<std::uint64_t> set_wanted{0};
    auto box = std::make_unique<Skeleton>(Skeleton::Create(spec).value());
    std::uint64_t init[4] = {0, 0, 0, 0};
    bool has_init[4] = {false, false, false, false};
    bool has_handler[2] = {false, false};
    // the preparation in random order, with offers that must be refused in between
    for (unsigned guard = 0; guard < 1000; ++guard)
    {
        const bool complete = has_init[0] && has_init[1] && has_init[2] && has_init[3] && has_handler[0] && has_handler[1];
        if (complete)
        {
            break;
        }
        auto what = src.Below(guard > 20 ? 6 : 9);
        if (what == 8)
        {
            const auto r = box->OfferService();
            PBT_CHECK(ctx, !r.has_value(), "OfferService succeeded although a field has no initial value or no set handler");
            PBT_CHECK(ctx, Proxy::FindService(spec).value().empty(), "a service whose OfferService failed is visible");
            ctx.Label("offer refused");
            // A field that was prepared already has lost its value; offering this skeleton object again is a known limitation.
            box.reset();
            box = std::make_unique<Skeleton>(Skeleton::Create(spec).value());
            std::fill(std::begin(has_init), std::end(has_init), false);
            std::fill(std::begin(has_handler), std::end(has_handler), false);
            ctx.Note("offer refused");
            continue;
        }
        if (what == 7)
        {
            box = std::make_unique<Skeleton>(std::move(*box));
            continue;
        }
        if (what == 6)
        {
            PBT_CHECK(ctx, !box->full.Allocate().has_value(), "Allocate of a field succeeded before OfferService");
            continue;
        }
        if (guard > 20)
        {
            // finish
            for (std::size_t i = 0; i < 6; ++i)
            {
                if ((i < 4 && !has_init[i]) || (i >= 4 && !has_handler[i - 4]))
                {
                    what = i;
                }
            }
        }
        if (what == 4 || what == 5)
        {
            auto handler = [&set_calls, &set_wanted, mode = what == 4 ? mode_full : mode_gs](Payload& p) {
                ++set_calls;
                set_wanted = p.Valid() ? p.seq : ~0ull;
                p = Payload::Make(Applied(mode, p.seq));
            };
            if (what == 4)
            {
                PBT_CHECK(ctx, box->full.RegisterSetHandler(std::move(handler)).has_value(), "RegisterSetHandler failed");
            }
            else
            {
                PBT_CHECK(ctx, box->gs.RegisterSetHandler(std::move(handler)).has_value(), "RegisterSetHandler failed");
            }
            has_handler[what - 4] = true;
            continue;
        }
        const auto v = src.Below(200);
        has_init[what] = true;
        init[what] = v;
        bool ok{false};
        switch (what)
        {
            case 0:
                ok = box->full.Update(Payload::Make(v)).has_value();
                break;
            case 1:
                ok = box->note.Update(static_cast<std::uint8_t>(v)).has_value();
                break;
            case 2:
                ok = box->get.Update(std::uint64_t{v}).has_value();
                break;
            default:
                ok = box->gs.Update(Payload::Make(v)).has_value();
                break;
        }
        PBT_CHECK(ctx, ok, "Update before OfferService failed");
    }
    PBT_CHECK(ctx, box->OfferService().has_value(), "OfferService failed");
    auto& sk = *box;
    ctx.Note("%s slots %u/%u/%u/%u init %llu", asil_b ? "B" : "QM", f[0].slots, f[1].slots, f[2].slots, f[3].slots, (unsigned long long)init[0]);
    const auto handles = Proxy::FindService(spec).value();
    PBT_CHECK(ctx, handles.size() == 1, "offered instance not found");
    std::vector<std::unique_ptr<Client>> clients(2);
    FieldSk<decltype(sk.full), Payload> sk_full{sk.full};
    FieldSk<decltype(sk.note), std::uint8_t> sk_note{sk.note};
    auto get_full = [&](std::size_t i) -> auto& { return clients[i]->proxy.full; };
    auto get_note = [&](std::size_t i) -> auto& { return clients[i]->proxy.note; };
    EventDriver<Payload, decltype(sk_full), decltype(get_full)> df{src, ctx, sk_full, f[0], get_full, 2, 2};
    EventDriver<std::uint8_t, decltype(sk_note), decltype(get_note)> dn{src, ctx, sk_note, f[1], get_note, 2, 0};
    Model mg{f[2], 1};
    Model mgs{f[3], 2};
    df.m.Ready(*df.m.Alloc(), init[0]);
    dn.m.Ready(*dn.m.Alloc(), init[1]);
    mg.Ready(*mg.Alloc(), init[2]);
    mgs.Ready(*mgs.Alloc(), init[3]);
    df.next = dn.next = 1000;
    std::uint64_t next{5000};
    unsigned gets{0}, sets{0};
    auto latest = [](const Model& m) -> std::optional<std::uint64_t> {
        const auto n = m.Newer(0);
        if (n.empty())
        {
            return std::nullopt;
        }
        return m.slots[n.back()].value;
    };
    const auto steps = 5 + src.Below(60);
    for (std::uint64_t i = 0; i < steps; ++i)
    {
        std::vector<std::size_t> alive;
        for (std::size_t p = 0; p < clients.size(); ++p)
        {
            if (clients[p])
            {
                alive.push_back(p);
            }
        }
        if (alive.empty() || src.Chance(1, 20))
        {
            const auto p = src.Below(clients.size());
            if (!clients[p])
            {
                auto r = Proxy::Create(handles[0]);
                PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed");
                clients[p] = std::make_unique<Client>(std::move(r).value());
                ctx.Note("p%llu create", (unsigned long long)p);
            }
            else
            {
                df.DropAll(p);
                dn.DropAll(p);
                clients[p]->kept.reset();
                clients[p]->kept_set.reset();
                if (src.Bool())
                {
                    clients[p].reset();
                    df.Forget(df.subs[p]);
                    dn.Forget(dn.subs[p]);
                    ctx.Note("p%llu destroy", (unsigned long long)p);
                }
                else
                {
                    clients[p] = std::make_unique<Client>(std::move(clients[p]->proxy));
                    ctx.Note("p%llu move", (unsigned long long)p);
                }
            }
            continue;
        }
        auto& c = *clients[src.Pick(alive)];
        switch (src.Weighted({9, 4, 6, 6, 3, 2, 4, 4}))
        {
            case 0:
                df.Step(alive);
                break;
            case 1:
                dn.Step(alive);
                break;
            case 2:
            {
                const auto want = latest(df.m);
                auto r = c.proxy.full.Get();
                const bool ok = f[0].use_get && !c.kept && want;
                ctx.Note("get%s%s", c.kept ? " (held)" : "", want ? "" : " (none)");
                PBT_CHECK(ctx, r.has_value() == ok, "Get returned %d (enabled %d, earlier result held %d, a value exists %d)", r.has_value(), f[0].use_get, c.kept.has_value(),
                          want.has_value());
                if (ok)
                {
                    PBT_CHECK(ctx, r.value()->Valid() && r.value()->seq == *want, "Get returned %llu, the latest value is %llu", (unsigned long long)r.value()->seq,
                              (unsigned long long)*want);
                    ++gets;
                    if (src.Chance(1, 5))
                    {
                        c.kept_value = *want;
                        c.kept.emplace(std::move(r));
                    }
                }
                break;
            }
            case 3:
            {
                const auto v = src.Below(2) ? src.Below(300) : next++;
                const auto calls = set_calls.load();
                auto r = c.proxy.full.Set(Payload::Make(v));
                ctx.Note("set %llu%s", (unsigned long long)v, c.kept_set ? " (held)" : "");
                if (!f[0].use_set || c.kept_set)
                {
                    PBT_CHECK(ctx, !r.has_value() && set_calls == calls, "Set of a disabled or busy setter went through");
                    break;
                }
                const auto slot = df.m.Alloc();
                PBT_CHECK(ctx, r.has_value() == slot.has_value(), "Set returned %d, a reusable slot %s", r.has_value(), slot ? "exists" : "does not exist");
                PBT_CHECK(ctx, set_calls == calls + 1 && set_wanted == v, "the set handler ran %u times", set_calls - calls);
                if (slot)
                {
                    const auto a = Applied(mode_full, v);
                    df.m.Ready(*slot, a);
                    PBT_CHECK(ctx, r.value()->Valid() && r.value()->seq == a, "Set returned %llu, the provider applied %llu", (unsigned long long)r.value()->seq,
                              (unsigned long long)a);
                    ++sets;
                    if (src.Chance(1, 5))
                    {
                        c.kept_set_value = a;
                        c.kept_set.emplace(std::move(r));
                    }
                }
                else
                {
                    ctx.Label("set refused: no slot");
                }
                break;
            }
            case 4:
                c.kept.reset();
                break;
            case 5:
                c.kept_set.reset();
                break;
            case 6:
            {
                if (src.Bool())
                {
                    const auto v = next++;
                    const auto slot = mg.Alloc();
                    PBT_CHECK(ctx, sk.get.Update(std::uint64_t{v}).has_value() == slot.has_value(), "Update of a getter-only field failed");
                    if (slot)
                    {
                        mg.Ready(*slot, v);
                    }
                }
                auto r = c.proxy.get.Get();
                PBT_CHECK(ctx, r.has_value() == f[2].use_get, "Get of a getter-only field returned %d (enabled %d)", r.has_value(), f[2].use_get);
                if (r.has_value())
                {
                    PBT_CHECK(ctx, *r.value() == *latest(mg), "Get of a getter-only field returned %llu, the latest value is %llu", (unsigned long long)*r.value(),
                              (unsigned long long)*latest(mg));
                    ++gets;
                }
                break;
            }
            default:
            {
                const auto v = next++;
                if (src.Bool())
                {
                    const auto slot = mgs.Alloc();
                    PBT_CHECK(ctx, sk.gs.Update(Payload::Make(v)).has_value() == slot.has_value(), "Update of a field without notifier failed");
                    mgs.Ready(*slot, v);
                }
                else
                {
                    auto r = c.proxy.gs.Set(Payload::Make(v));
                    PBT_CHECK(ctx, r.has_value() == f[3].use_set, "Set returned %d (enabled %d)", r.has_value(), f[3].use_set);
                    if (r.has_value())
                    {
                        const auto slot = mgs.Alloc();
                        mgs.Ready(*slot, Applied(mode_gs, v));
                        PBT_CHECK(ctx, r.value()->seq == Applied(mode_gs, v), "Set returned a wrong value");
                        ++sets;
                    }
                }
                auto r = c.proxy.gs.Get();
                PBT_CHECK(ctx, r.has_value() == f[3].use_get, "Get returned %d (enabled %d)", r.has_value(), f[3].use_get);
                if (r.has_value())
                {
                    PBT_CHECK(ctx, r.value()->Valid() && r.value()->seq == *latest(mgs), "Get returned %llu, the latest value is %llu", (unsigned long long)r.value()->seq,
                              (unsigned long long)*latest(mgs));
                    ++gets;
                }
                break;
            }
        }
        for (auto& o : clients)
        {
            if (o)
            {
                PBT_CHECK(ctx, !o->kept || (o->kept->value()->Valid() && o->kept->value()->seq == o->kept_value), "a kept result of Get changed");
                PBT_CHECK(ctx, !o->kept_set || (o->kept_set->value()->Valid() && o->kept_set->value()->seq == o->kept_set_value), "a kept result of Set changed");
            }
        }
    }
    if (gets + sets + df.delivered + dn.delivered >= 4)
    {
        ctx.NonTrivial();
    }
    ctx.Count("gets", gets);
    ctx.Count("sets", sets);
    ctx.Count("samples delivered", df.delivered + dn.delivered);
    df.allocs.clear();
    dn.allocs.clear();
    for (std::size_t p = 0; p < clients.size(); ++p)
    {
        df.DropAll(p);
        dn.DropAll(p);
    }
    clients.clear();
}

// A field keeps having a value over stop-offer, re-offer and refused offers.
PBT_PROPERTY_EX(field_reoffer, 20000, 400000, true, 30, 1, 0)
{
    Scratch scratch;
    FieldCfg f[4];
    for (auto& c : f)
    {
        c.slots = static_cast<unsigned>(1 + src.Below(4));
        c.asil_b = false;
    }
    f[0].asil_b = src.Bool();
    for (auto& c : f)
    {
        c.asil_b = f[0].asil_b;
    }
    Start(scratch, Cfg(f));
    const auto spec = Spec("v/inst");
    auto sk = Skeleton::Create(spec).value();
    auto handler = [](Payload&) {};
    sk.full.RegisterSetHandler(handler);
    std::ignore = sk.note.Update(std::uint8_t{7});
    std::uint64_t next{10};
    std::uint64_t get_value = next++, gs_value = next++;
    std::ignore = sk.get.Update(get_value);
    std::ignore = sk.gs.Update(Payload::Make(gs_value));
    auto handler2 = [](Payload&) {};
    sk.gs.RegisterSetHandler(handler2);
    bool lost{false};  // the last published value was in memory that is gone
    if (src.Chance(1, 4))
    {
        PBT_CHECK(ctx, !sk.OfferService().has_value(), "OfferService succeeded although a field has no initial value");
        ctx.Note("offer refused");
        lost = true;
    }
    std::uint64_t full_value = next++;
    std::ignore = sk.full.Update(Payload::Make(full_value));
    bool full_lost{false};
    std::unique_ptr<Proxy> p;
    const auto rounds = 1 + src.Below(4);
    for (std::uint64_t r = 0; r < rounds; ++r)
    {
        PBT_CHECK(ctx, sk.OfferService().has_value(), "OfferService number %llu failed", (unsigned long long)r + 1);
        const auto handles = Proxy::FindService(spec).value();
        PBT_CHECK(ctx, handles.size() == 1, "offered instance not found");
        if (src.Chance(2, 3))
        {
            full_value = next++;
            get_value = next++;
            gs_value = next++;
            PBT_CHECK(ctx, sk.full.Update(Payload::Make(full_value)).has_value() && sk.get.Update(get_value).has_value() && sk.gs.Update(Payload::Make(gs_value)).has_value(),
                      "Update failed while offered");
            lost = full_lost = false;
            ctx.Note("update");
        }
        const bool fresh = !p;
        if (fresh)
        {
            Quiesce();  // a stale discovery cache is the business of S03
            p = std::make_unique<Proxy>(Proxy::Create(handles[0]).value());
            ctx.Note("create");
        }
        auto check = [&](auto& field, auto value, bool gone, const char* name) {
            bool have{false};
            decltype(value) got{};
            // a proxy that was there before is re-connected asynchronously
            const bool ok = Eventually(
                [&] {
                    auto g = field.Get();
                    if (g.has_value())
                    {
                        have = true;
                        got = *g.value();
                    }
                    return g.has_value();
                },
                gone ? 0.02 : (fresh ? 0.0 : 20.0));
            if (gone && !have)
            {
                ctx.Known("reoffer-without-value");
                return;
            }
            PBT_CHECK(ctx, ok, "Get of %s failed in round %llu", name, (unsigned long long)r + 1);
            PBT_CHECK(ctx, std::memcmp(&got, &value, sizeof got) == 0, "Get of %s returned something else than the last value in round %llu", name, (unsigned long long)r + 1);
        };
        check(p->full, Payload::Make(full_value), full_lost, "full");
        check(p->get, get_value, lost, "get");
        check(p->gs, Payload::Make(gs_value), lost, "gs");
        if (src.Bool())
        {
            p.reset();
            ctx.Note("destroy");
        }
        sk.StopOfferService();
        ctx.Note("stop-offer");
        if (!p)
        {
            lost = full_lost = true;
        }
        else if (src.Chance(1, 3))
        {
            p.reset();
            lost = full_lost = true;
            ctx.Note("destroy");
        }
    }
    if (rounds > 1)
    {
        ctx.NonTrivial();
    }
}
