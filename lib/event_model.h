// Sequential reference model of one event (or notifying field) and a driver that runs random operations against it.
#pragma once
#include "e2e.h"

#include <deque>
#include <list>

namespace e2e
{
inline std::uint64_t SeqOf(const Payload& p)
{
    return p.seq;
}
inline std::uint64_t SeqOf(const std::uint8_t& p)
{
    return p;
}
inline bool ValidOf(const Payload& p)
{
    return p.Valid();
}
inline bool ValidOf(const std::uint8_t&)
{
    return true;
}
template <typename T>
T MakeOf(std::uint64_t s);
template <>
inline Payload MakeOf<Payload>(std::uint64_t s)
{
    return Payload::Make(s);
}
template <>
inline std::uint8_t MakeOf<std::uint8_t>(std::uint64_t s)
{
    return static_cast<std::uint8_t>(s);
}

/// True when what a pointer refers to is the sample sent as number `v`.
template <typename P>
bool SameAs(const P& p, std::uint64_t v)
{
    return ValidOf(*p) && SeqOf(*p) == (sizeof(*p) == 1 ? (v & 0xFF) : v);
}

/// The pointers a user gets for samples of type T.
template <typename T>
struct PtrOf
{
    using Alloc = com::SampleAllocateePtr<T>;
    using Recv = com::SamplePtr<T>;
};

/// Reference model of one event.
struct Model
{
    struct Slot
    {
        enum
        {
            kInvalid,
            kWriting,
            kReady
        } st{kInvalid};
        std::uint64_t ts{0};
        std::uint64_t value{0};
        unsigned refs{0};
    };
    std::vector<Slot> slots;
    ElementCfg cfg;
    std::uint64_t ts{0};
    unsigned subs{0};
    unsigned sub_slots{0};
    explicit Model(const ElementCfg& c, unsigned extra = 0) : slots(c.slots + extra), cfg{c} {}
    std::optional<std::size_t> Alloc()
    {
        std::optional<std::size_t> best;
        for (std::size_t i = 0; i < slots.size(); ++i)
        {
            if (slots[i].st == Slot::kInvalid)
            {
                best = i;
                break;
            }
            if (slots[i].st == Slot::kReady && slots[i].refs == 0 && (!best || slots[i].ts < slots[*best].ts))
            {
                best = i;
            }
        }
        if (best)
        {
            slots[*best] = Slot{};
            slots[*best].st = Slot::kWriting;
        }
        return best;
    }
    void Ready(std::size_t i, std::uint64_t v)
    {
        slots[i].st = Slot::kReady;
        slots[i].ts = ++ts;
        slots[i].value = v;
        slots[i].refs = 0;
    }
    std::vector<std::size_t> Newer(std::uint64_t last) const
    {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < slots.size(); ++i)
        {
            if (slots[i].st == Slot::kReady && slots[i].ts > last)
            {
                r.push_back(i);
            }
        }
        std::sort(r.begin(), r.end(), [&](auto a, auto b) { return slots[a].ts < slots[b].ts; });
        return r;
    }
};

template <typename T, typename ProxyEvent>
struct Sub
{
    bool subscribed{false};
    unsigned k{0};
    std::uint64_t last{0};
    struct Held
    {
        typename PtrOf<T>::Recv p;
        std::size_t slot;
        std::uint64_t value;
    };
    std::vector<Held> held;
};

template <typename T, typename SkEv, typename GetProxyEv, typename CT = T>
struct EventDriver
{
    EventDriver(pbt::Src& s, pbt::Ctx& c, SkEv& e, const ElementCfg& cfg, GetProxyEv g, std::size_t max_proxies, unsigned extra_slots = 0)
        : src{s}, ctx{c}, sk{e}, m{cfg, extra_slots}, get{g}, subs(max_proxies)
    {
    }
    pbt::Src& src;
    pbt::Ctx& ctx;
    SkEv& sk;
    Model m;
    GetProxyEv get;
    std::vector<Sub<CT, int>> subs;
    struct Alloc
    {
        typename PtrOf<T>::Alloc p;
        std::size_t slot;
        std::uint64_t value;
    };
    std::vector<Alloc> allocs;
    std::uint64_t next{1};
    unsigned delivered{0};
    unsigned refused{0};

    void CheckHeld()
    {
        for (auto& s : subs)
        {
            for (auto& h : s.held)
            {
                PBT_CHECK(ctx, SameAs(h.p, h.value), "a held sample changed: expected %llu found %llu", (unsigned long long)h.value, (unsigned long long)SeqOf(*h.p));
            }
        }
    }
    void Send()
    {
        const auto v = next++;
        const auto want = m.Alloc();
        const auto r = sk.Send(MakeOf<T>(v));
        ctx.Note("send %llu%s", (unsigned long long)v, want ? "" : " (full)");
        PBT_CHECK(ctx, r.has_value() == want.has_value(), "Send returned %d, a reusable slot %s", r.has_value(), want ? "exists" : "does not exist");
        if (want)
        {
            m.Ready(*want, v);
        }
        else
        {
            ++refused;
        }
    }
    void Allocate()
    {
        const auto want = m.Alloc();
        auto r = sk.Allocate();
        ctx.Note("allocate%s", want ? "" : " (full)");
        PBT_CHECK(ctx, r.has_value() == want.has_value(), "Allocate returned %d, a reusable slot %s", r.has_value(), want ? "exists" : "does not exist");
        if (want)
        {
            const auto v = next++;
            *r.value() = MakeOf<T>(v);
            allocs.push_back(Alloc{std::move(r).value(), *want, v});
        }
        else
        {
            ++refused;
        }
    }
    void SendAllocated()
    {
        const auto i = src.Below(allocs.size());
        auto a = std::move(allocs[i]);
        allocs.erase(allocs.begin() + static_cast<std::ptrdiff_t>(i));
        ctx.Note("send-allocated %llu", (unsigned long long)a.value);
        const auto r = sk.Send(std::move(a.p));
        PBT_CHECK(ctx, r.has_value(), "zero-copy Send failed");
        m.Ready(a.slot, a.value);
    }
    void DropAllocated()
    {
        const auto i = src.Below(allocs.size());
        ctx.Note("drop-allocated %llu", (unsigned long long)allocs[i].value);
        m.slots[allocs[i].slot] = Model::Slot{};
        allocs.erase(allocs.begin() + static_cast<std::ptrdiff_t>(i));
    }
    void Subscribe(std::size_t i)
    {
        auto& ev = get(i);
        auto& s = subs[i];
        const auto k = static_cast<unsigned>(1 + (src.Chance(1, 5) ? src.Below(m.cfg.slots + 1) : src.Below((m.cfg.slots + 1) / 2)));
        const auto r = ev.Subscribe(k);
        ctx.Note("p%zu subscribe %u", i, k);
        if (s.subscribed)
        {
            PBT_CHECK(ctx, r.has_value() == (k == s.k), "re-subscribe with %u while subscribed with %u gave %d", k, s.k, r.has_value());
            return;
        }
        bool want = m.subs < m.cfg.max_subs && (!m.cfg.enforce || m.sub_slots + k <= m.cfg.slots);
        if (!want && m.slots.size() > m.cfg.slots && m.subs < m.cfg.max_subs && m.sub_slots + k <= m.slots.size() && r.has_value())
        {
            // recorded finding: the slots kept back for getter and setter can be reserved by subscribers
            ctx.Known("subscribe-into-reserved-slots");
            want = true;
        }
        PBT_CHECK(ctx, r.has_value() == want, "Subscribe(%u) gave %d with %u of %u subscribers and %u of %u slots", k, r.has_value(), m.subs, m.cfg.max_subs, m.sub_slots,
                  m.cfg.slots);
        const bool is = ev.GetSubscriptionState() == com::SubscriptionState::kSubscribed;
        PBT_CHECK(ctx, is == want, "subscription state %d after Subscribe gave %d", is, want);
        if (want)
        {
            s.subscribed = true;
            s.k = k;
            s.last = 0;
            ++m.subs;
            m.sub_slots += k;
        }
        else
        {
            ctx.Label("subscription refused");
        }
    }
    void DropAll(std::size_t i)
    {
        while (!subs[i].held.empty())
        {
            --m.slots[subs[i].held.back().slot].refs;
            subs[i].held.pop_back();
        }
    }
    void Unsubscribe(std::size_t i)
    {
        auto& s = subs[i];
        DropAll(i);
        ctx.Note("p%zu unsubscribe", i);
        get(i).Unsubscribe();
        PBT_CHECK(ctx, get(i).GetSubscriptionState() == com::SubscriptionState::kNotSubscribed, "still subscribed after Unsubscribe");
        Forget(s);
    }
    template <typename S>
    void Forget(S& s)
    {
        if (s.subscribed)
        {
            s.subscribed = false;
            --m.subs;
            m.sub_slots -= s.k;
        }
    }
    void Receive(std::size_t i)
    {
        auto& ev = get(i);
        auto& s = subs[i];
        const auto maxn = static_cast<std::size_t>(src.Below(m.cfg.slots + 3));
        const auto free_before = s.k - s.held.size();
        std::vector<typename Sub<CT, int>::Held> got;
        if (!s.subscribed)
        {
            bool unexpected{false};
            const auto r0 = ev.GetNewSamples([&](typename PtrOf<CT>::Recv) noexcept { unexpected = true; }, maxn);
            PBT_CHECK(ctx, !r0.has_value() && !unexpected, "GetNewSamples succeeded without a subscription");
            ctx.Note("p%zu receive unsubscribed", i);
            return;
        }
        const auto avail = m.Newer(s.last);
        const auto rep = ev.GetNumNewSamplesAvailable();
        PBT_CHECK(ctx, rep.has_value() && rep.value() == avail.size(), "GetNumNewSamplesAvailable reports %zu of %zu", rep.has_value() ? rep.value() : 9999, avail.size());
        PBT_CHECK(ctx, ev.GetFreeSampleCount() == free_before, "GetFreeSampleCount %zu, expected %zu", ev.GetFreeSampleCount(), (std::size_t)free_before);
        const auto r = ev.GetNewSamples([&](typename PtrOf<CT>::Recv p) { got.push_back({std::move(p), 0, 0}); }, maxn);
        const auto cap = std::min<std::size_t>(maxn, free_before);
        ctx.Note("p%zu receive max %zu -> %zu (%zu new, %zu free)", i, maxn, got.size(), avail.size(), (std::size_t)free_before);
        if (cap == 0)
        {
            PBT_CHECK(ctx, !r.has_value() && got.empty(), "GetNewSamples without a free sample succeeded");
            return;
        }
        const auto n = std::min(cap, avail.size());
        PBT_CHECK(ctx, r.has_value() && r.value() == got.size(), "GetNewSamples returned a count that differs from the callbacks (%zu)", got.size());
        PBT_CHECK(ctx, got.size() == n, "GetNewSamples delivered %zu samples, expected %zu", got.size(), n);
        for (std::size_t j = 0; j < n; ++j)
        {
            const auto slot = avail[avail.size() - n + j];
            const auto want = m.slots[slot].value;
            const auto have = SeqOf(*got[j].p);
            PBT_CHECK(ctx, ValidOf(*got[j].p), "delivered sample is corrupt");
            PBT_CHECK(ctx, SameAs(got[j].p, want), "sample %zu of the call is %llu, expected %llu", j, (unsigned long long)have, (unsigned long long)want);
            got[j].slot = slot;
            got[j].value = want;
            ++m.slots[slot].refs;
        }
        if (n > 0)
        {
            s.last = m.slots[avail.back()].ts;
            delivered += static_cast<unsigned>(n);
            if (n < avail.size())
            {
                ctx.Label("older samples skipped");
            }
        }
        for (auto& g : got)
        {
            if (src.Chance(2, 3))
            {
                s.held.push_back(std::move(g));
            }
            else
            {
                --m.slots[g.slot].refs;
                g.p = nullptr;
            }
        }
    }
    void DropSample(std::size_t i)
    {
        auto& s = subs[i];
        const auto j = src.Below(s.held.size());
        ctx.Note("p%zu drop %llu", i, (unsigned long long)s.held[j].value);
        --m.slots[s.held[j].slot].refs;
        s.held.erase(s.held.begin() + static_cast<std::ptrdiff_t>(j));
    }
    void Step(const std::vector<std::size_t>& alive)
    {
        switch (src.Weighted({6, 3, 3, 1, 5, 8, 4, 2}))
        {
            case 0:
                Send();
                break;
            case 1:
                Allocate();
                break;
            case 2:
                if (!allocs.empty())
                {
                    SendAllocated();
                }
                break;
            case 3:
                if (!allocs.empty())
                {
                    DropAllocated();
                }
                break;
            case 4:
                if (!alive.empty())
                {
                    Subscribe(src.Pick(alive));
                }
                break;
            case 5:
                if (!alive.empty())
                {
                    Receive(src.Pick(alive));
                }
                break;
            case 6:
                if (!alive.empty())
                {
                    const auto i = src.Pick(alive);
                    if (!subs[i].held.empty())
                    {
                        DropSample(i);
                    }
                }
                break;
            default:
                if (!alive.empty())
                {
                    Unsubscribe(src.Pick(alive));
                }
                break;
        }
        CheckHeld();
    }
};
}  // namespace e2e
