// Shared memory control structures of one event under generated schedules: a provider, up to four consumer processes with
// their real subscription state machines and slot collectors, crashes at any point and a QM side that scribbles.
#include "pbt.h"
#include "owned_sched.h"

#include "score/memory/shared/new_delete_delegate_resource.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/slot_decrementer.h"
#include "score/mw/com/impl/bindings/lola/subscription_state_machine.h"
#include "score/mw/com/impl/com_error.h"

#include <deque>
#include <memory>
#include <mutex>
#include <optional>

namespace
{
using namespace score::mw::com::impl;
using namespace score::mw::com::impl::lola;
using score::memory::shared::NewDeleteDelegateMemoryResource;

constexpr std::size_t kWords{3};
std::uint64_t Word(std::uint64_t seq, std::size_t i)
{
    return pbt::Mix(seq * 8 + i) | 1U;
}
std::uint64_t g_resource_id{7000000};

struct Held
{
    std::unique_ptr<SlotDecrementer> ref;
    SlotIndexType slot;
    std::uint64_t seq;
};

struct World
{
    World(std::uint16_t slots, std::uint8_t max_subs, bool enforce, bool asil_b)
        : resource{++g_resource_id},
          n_slots{slots},
          max_subscribers{max_subs},
          enforced{enforce},
          qm{std::make_unique<EventControl>(slots, max_subs, enforce, resource)},
          b{asil_b ? std::make_unique<EventControl>(slots, max_subs, enforce, resource) : nullptr},
          provider_qm{qm->data_control},
          payload(static_cast<std::size_t>(slots) * kWords, 0),
          slot_seq(slots, 0)
    {
        if (b)
        {
            provider_b.emplace(b->data_control);
            composite.emplace(provider_qm, &provider_b.value());
        }
        else
        {
            composite.emplace(provider_qm);
        }
        sched::ClearWatches();
        sched::Watch(payload.data(), payload.size() * sizeof(std::uint64_t), "payload");
    }
    NewDeleteDelegateMemoryResource resource;
    std::uint16_t n_slots;
    std::uint8_t max_subscribers;
    bool enforced;
    std::unique_ptr<EventControl> qm, b;
    ProviderEventDataControlLocalView<> provider_qm;
    std::optional<ProviderEventDataControlLocalView<>> provider_b{};
    std::optional<EventDataControlComposite<>> composite{};
    std::vector<std::uint64_t> payload;
    std::vector<std::uint64_t> slot_seq;  // published sequence of a slot, 0: none
    std::uint64_t sent{0};
    std::uint64_t sending{0};
    bool qm_corrupted{false};
};

struct Consumer
{
    Consumer(World& w, EventControl& c, TransactionLogId id_, int n)
        : world{w},
          control{c},
          id{id_},
          name{n},
          view{c.data_control},
          machine{std::make_shared<SubscriptionStateMachine>(
              QualityType::kASIL_QM, ElementFqId{1, 2, 3, ServiceElementType::EVENT}, 77, view, c.subscription_control, c.transaction_log_set_, id)}
    {
    }
    ~Consumer()
    {
        if (std::uncaught_exceptions() > 0)
        {
            // a check failed: keep the message, leave everything as it is
            new std::shared_ptr<SubscriptionStateMachine>(machine);
            for (auto* q : {&held, &handed})
            {
                for (auto& h : *q)
                {
                    static_cast<void>(h.ref.release());
                }
            }
        }
    }
    World& world;
    EventControl& control;
    TransactionLogId id;
    int name;
    ConsumerEventDataControlLocalView<> view;
    std::shared_ptr<SubscriptionStateMachine> machine;
    std::deque<Held> held{};
    std::deque<Held> handed{};      // samples another thread of this process gives back
    std::size_t max_samples{0};     // of the subscription, 0: not subscribed
    std::size_t releasing{0};       // references being given back right now
    std::size_t getting{0};         // references being taken right now at most
    std::size_t attempting{0};      // sample count of the subscribe or unsubscribe call in progress
    bool in_op{false};              // inside a call that changes shared state
    bool in_helper{false};
    bool dead{false};
    std::uint64_t last{0};
    std::uint64_t received{0};
    std::size_t Slots() const { return max_samples + attempting; }
    std::size_t MayHold() const { return held.size() + handed.size() + releasing + getting; }
};

/// A QM consumer the provider has cut off (an ASIL-B provider that found no slot) no longer has any guarantee.
bool CutOff(const World& w, const Consumer& c)
{
    return w.b != nullptr && &c.control == w.qm.get() && w.composite->IsQmControlDisconnected();
}
void ReadSample(pbt::Ctx& ctx, World& w, Consumer& c, SlotIndexType slot, std::uint64_t seq, const char* when)
{
    for (std::size_t i = 0; i < kWords; ++i)
    {
        auto* p = &w.payload[slot * kWords + i];
        sched::TouchRead(p, sizeof *p);
        PBT_CHECK(ctx, *p == Word(seq, i) || CutOff(w, c), "consumer %d %s: word %zu of slot %u is not the one sent as number %llu", c.name, when, i, slot,
                  static_cast<unsigned long long>(seq));
    }
}

enum class Op
{
    kSub,
    kUnsub,
    kGet,
    kRelease,
    kCheck,
    kCount,
    kHandOver,
    kStopOffer,
};
struct Step
{
    Op op;
    unsigned a;
};

struct Audit
{
    std::vector<std::unique_ptr<Consumer>>& consumers;
    World& world;
    // Running upper bounds of other consumers' usage while a subscribe call is in progress are sampled at every change.
    std::size_t version{0};
};

/// calls and successes that changed the subscription word of one control, to judge retry exhaustion
struct SubLog
{
    struct Interval
    {
        Consumer* c;
        std::size_t max_others_subs{0};
        std::size_t max_others_slots{0};
        std::size_t changes{0};
    };
    std::vector<Interval*> open{};
    std::vector<std::unique_ptr<Interval>> all{};
};

struct Run
{
    pbt::Src& src;
    pbt::Ctx& ctx;
    World& w;
    std::vector<std::unique_ptr<Consumer>> consumers{};
    SubLog log{};
    std::size_t alloc_max_used{0};
    bool alloc_open{false};
    std::uint64_t hits{0};
    std::uint64_t gets_with_hold{0};
    std::uint64_t rejected{0};
    std::uint64_t alloc_failures{0};
    std::mutex hand_over{};

    bool Counts(const Consumer& c) const
    {
        return !CutOff(w, c);
    }
    void Sample()
    {
        for (auto* i : log.open)
        {
            std::size_t subs{0}, slots{0};
            for (auto& c : consumers)
            {
                if (c.get() != i->c && &c->control == &i->c->control && c->Slots() > 0)
                {
                    ++subs;
                    slots += c->Slots();
                }
            }
            i->max_others_subs = std::max(i->max_others_subs, subs);
            i->max_others_slots = std::max(i->max_others_slots, slots);
        }
        if (alloc_open)
        {
            std::size_t used{0};
            for (auto& c : consumers)
            {
                used += c->MayHold();
            }
            alloc_max_used = std::max(alloc_max_used, used);
        }
    }
    void Changed(Consumer& c)
    {
        for (auto* i : log.open)
        {
            if (i->c != &c && &i->c->control == &c.control)
            {
                ++i->changes;
            }
        }
        Sample();
    }

    void Subscribe(Consumer& c, std::size_t n)
    {
        if (c.max_samples != 0)
        {
            // asking again changes nothing and is fine for the same number only, also while the provider is away
            const auto again = c.machine->SubscribeEvent(n);
            PBT_CHECK(ctx, again.has_value() == (n == c.max_samples), "consumer %d: subscribed for %zu samples, asking again for %zu was %s", c.name, c.max_samples, n,
                      again.has_value() ? "accepted" : "refused");
            PBT_CHECK(ctx, again.has_value() || again.error() == ComErrc::kMaxSampleCountNotRealizable, "asking again failed with another error");
            return;
        }
        c.attempting = n;
        c.in_op = true;
        // kept beyond the call: the caller may die inside it
        auto& iv = *log.all.emplace_back(std::make_unique<SubLog::Interval>(SubLog::Interval{&c}));
        log.open.push_back(&iv);
        Sample();
        const auto r = c.machine->SubscribeEvent(n);
        log.open.erase(std::find(log.open.begin(), log.open.end(), &iv));
        c.in_op = false;
        c.attempting = 0;
        if (r.has_value())
        {
            c.max_samples = n;
            c.last = 0;
            std::size_t subs{0}, slots{0};
            for (auto& o : consumers)
            {
                if (&o->control == &c.control && o->max_samples != 0)
                {
                    ++subs;
                    slots += o->max_samples;
                }
            }
            PBT_CHECK(ctx, subs <= w.max_subscribers, "%zu subscriptions accepted where %u are allowed", subs, w.max_subscribers);
            PBT_CHECK(ctx, !w.enforced || slots <= w.n_slots, "subscriptions for %zu samples accepted where %u slots exist", slots, w.n_slots);
        }
        else
        {
            ++rejected;
            const bool full = iv.max_others_subs + 1 > w.max_subscribers;
            const bool over = w.enforced && iv.max_others_slots + n > w.n_slots;
            const bool contended = iv.changes + 3U >= 2U * w.max_subscribers;
            const bool huge = n > 65535U;
            PBT_CHECK(ctx, full || over || contended || huge, "consumer %d: subscription for %zu samples refused although at most %zu others with %zu samples of %u/%u were there",
                      c.name, n, iv.max_others_subs, iv.max_others_slots, w.max_subscribers, w.n_slots);
            const auto e = r.error();
            PBT_CHECK(ctx, e == ComErrc::kMaxSubscribersExceeded || e == ComErrc::kMaxSampleCountNotRealizable, "subscribe failed with another error");
            PBT_CHECK(ctx, e != ComErrc::kMaxSubscribersExceeded || full, "consumer %d: refused as too many subscribers with at most %zu others of %u", c.name, iv.max_others_subs,
                      w.max_subscribers);
        }
        Changed(c);
    }
    void Unsubscribe(Consumer& c)
    {
        if (c.max_samples == 0 || c.MayHold() != 0)
        {
            return;
        }
        c.attempting = c.max_samples;
        c.max_samples = 0;
        c.in_op = true;
        Sample();
        c.machine->UnsubscribeEvent();
        c.in_op = false;
        c.attempting = 0;
        Changed(c);
    }
    void Get(Consumer& c, std::size_t want)
    {
        if (c.max_samples == 0)
        {
            return;
        }
        const auto free = c.max_samples - c.MayHold();
        const auto k = std::min(want, free);
        if (k == 0)
        {
            return;
        }
        if (!c.held.empty())
        {
            ++gets_with_hold;
        }
        const auto lower = w.sent;
        c.getting = k;
        c.in_op = true;
        Sample();
        auto& collector = c.machine->GetSlotCollectorLockFree();
        PBT_CHECK(ctx, collector.has_value(), "no slot collector while subscribed");
        const auto r = collector.value().GetNewSamplesSlotIndices(k);
        std::vector<SlotIndexType> got;
        for (auto it = r.begin; it != r.end; ++it)
        {
            got.push_back(*it);
        }
        PBT_CHECK(ctx, got.size() <= k, "%zu samples handed out, %zu asked for", got.size(), k);
        std::vector<std::uint64_t> seqs;
        // the references are taken: from here on no slot may be touched by the provider
        for (auto s : got)
        {
            const auto seq = w.slot_seq[s];
            PBT_CHECK(ctx, seq != 0 || CutOff(w, c), "consumer %d got slot %u which holds no published sample", c.name, s);
            c.held.push_back(Held{std::make_unique<SlotDecrementer>(c.view, s), s, seq});
            seqs.push_back(seq);
        }
        c.getting = 0;
        c.in_op = false;
        Sample();
        for (std::size_t i = 0; i < got.size(); ++i)
        {
            PBT_CHECK(ctx, seqs[i] > c.last || CutOff(w, c), "consumer %d got sample %llu after sample %llu", c.name, static_cast<unsigned long long>(seqs[i]),
                      static_cast<unsigned long long>(c.last));
            c.last = seqs[i];
            PBT_CHECK(ctx, c.last <= w.sending, "consumer %d got sample %llu which was not sent", c.name, static_cast<unsigned long long>(c.last));
            ++c.received;
            ++hits;
        }
        static_cast<void>(lower);
        for (std::size_t i = 0; i < got.size(); ++i)
        {
            ReadSample(ctx, w, c, got[i], seqs[i], "after receiving");
        }
    }
    void Release(Consumer& c, std::deque<Held>& from, std::size_t which, bool helper)
    {
        if (from.empty())
        {
            return;
        }
        which %= from.size();
        ReadSample(ctx, w, c, from[which].slot, from[which].seq, "before giving back");
        if (which >= from.size())
        {
            return;  // the other thread was faster
        }
        auto h = std::move(from[which]);
        from.erase(from.begin() + static_cast<std::ptrdiff_t>(which));
        ++c.releasing;
        (helper ? c.in_helper : c.in_op) = true;
        h.ref.reset();
        (helper ? c.in_helper : c.in_op) = false;
        --c.releasing;
        Sample();
    }

    void ConsumerTask(Consumer& c, const std::vector<Step>& steps)
    {
        for (const auto& s : steps)
        {
            sched::Point();
            switch (s.op)
            {
                case Op::kSub:
                    // beyond the range of the counters: must not be accepted as something smaller
                    Subscribe(c, (s.a >= 65536U ? 65536U : 0U) + 1 + s.a % 65536U % (w.n_slots > 100 ? 700U : 4U));
                    break;
                case Op::kUnsub:
                    while (!c.held.empty())
                    {
                        Release(c, c.held, s.a, false);
                    }
                    Unsubscribe(c);
                    break;
                case Op::kGet:
                    Get(c, 1 + s.a % 4);
                    break;
                case Op::kRelease:
                    Release(c, c.held, s.a, false);
                    break;
                case Op::kCheck:
                    for (std::size_t i = 0; i < c.held.size(); ++i)
                    {
                        ReadSample(ctx, w, c, c.held[i].slot, c.held[i].seq, "while holding");
                    }
                    break;
                case Op::kCount:
                    if (c.max_samples != 0)
                    {
                        const auto n = c.machine->GetSlotCollectorLockFree().value().GetNumNewSamplesAvailable();
                        PBT_CHECK(ctx, n <= w.n_slots && n <= w.sending, "%zu new samples counted", n);
                    }
                    break;
                case Op::kHandOver:
                    if (!c.held.empty())
                    {
                        const std::lock_guard<std::mutex> guard{hand_over};
                        c.handed.push_back(std::move(c.held.front()));
                        c.held.pop_front();
                    }
                    break;
                case Op::kStopOffer:
                    break;
            }
        }
    }
    void HelperTask(Consumer& c, unsigned rounds)
    {
        for (unsigned i = 0; i < rounds; ++i)
        {
            sched::Point();
            std::deque<Held> mine;
            {
                const std::lock_guard<std::mutex> guard{hand_over};
                if (!c.handed.empty())
                {
                    mine.push_back(std::move(c.handed.front()));
                    c.handed.pop_front();
                    ++c.releasing;
                }
            }
            if (!mine.empty())
            {
                ReadSample(ctx, w, c, mine.front().slot, mine.front().seq, "before giving back");
                c.in_helper = true;
                mine.clear();
                c.in_helper = false;
                --c.releasing;
                Sample();
            }
        }
    }
    /// the discovery thread of the consumer's process: provider goes away and comes back
    void AvailabilityTask(Consumer& c, unsigned rounds)
    {
        for (unsigned i = 0; i < rounds; ++i)
        {
            sched::Point();
            c.machine->StopOfferEvent();
            sched::Point();
            c.machine->ReOfferEvent(static_cast<pid_t>(78 + i));
        }
    }

    struct Pending
    {
        SlotIndexType slot;
    };
    void ProviderTask(const std::vector<Step>& steps)
    {
        std::vector<SlotIndexType> open;
        for (const auto& s : steps)
        {
            sched::Point();
            if (s.op == Op::kGet || open.empty())
            {
                if (open.size() >= 2)
                {
                    continue;
                }
                alloc_open = true;
                alloc_max_used = 0;
                Sample();
                const auto r = w.composite->AllocateNextSlot();
                alloc_open = false;
                if (!r.allocated_slot_index.has_value())
                {
                    ++alloc_failures;
                    PBT_CHECK(ctx, alloc_max_used + open.size() >= w.n_slots, "allocation failed although at most %zu of %u slots were held and %zu allocated", alloc_max_used, w.n_slots,
                              open.size());
                    continue;
                }
                const auto slot = *r.allocated_slot_index;
                PBT_CHECK(ctx, slot < w.n_slots, "slot %u allocated of %u", slot, w.n_slots);
                PBT_CHECK(ctx, std::find(open.begin(), open.end(), slot) == open.end(), "slot %u allocated twice", slot);
                PBT_CHECK(ctx, w.b == nullptr || !w.composite->IsQmControlDisconnected() || w.qm_corrupted || true, "-");
                for (auto& c : consumers)
                {
                    for (auto* q : {&c->held, &c->handed})
                    {
                        for (auto& h : *q)
                        {
                            PBT_CHECK(ctx, h.slot != slot || !Counts(*c), "slot %u was given to the provider while consumer %d holds sample %llu in it", slot, c->name,
                                      static_cast<unsigned long long>(h.seq));
                        }
                    }
                }
                w.slot_seq[slot] = 0;
                open.push_back(slot);
                WriteSample(slot, ~std::uint64_t{0}, 1);  // first a partial write
                continue;
            }
            const auto which = s.a % open.size();
            const auto slot = open[which];
            if (s.op == Op::kRelease)
            {
                open.erase(open.begin() + static_cast<std::ptrdiff_t>(which));
                w.composite->Discard(slot);
                continue;
            }
            open.erase(open.begin() + static_cast<std::ptrdiff_t>(which));
            Publish(slot);
        }
        for (auto slot : open)
        {
            Publish(slot);
        }
    }
    void WriteSample(SlotIndexType slot, std::uint64_t seq, std::size_t words)
    {
        for (std::size_t i = 0; i < words; ++i)
        {
            auto* p = &w.payload[slot * kWords + i];
            sched::TouchWrite(p, sizeof *p);
            *p = Word(seq, i);
        }
    }
    void Publish(SlotIndexType slot)
    {
        const auto seq = w.sent + 1;
        WriteSample(slot, seq, kWords);
        w.sending = seq;
        w.slot_seq[slot] = seq;
        w.composite->EventReady(slot, static_cast<EventSlotStatus::EventTimeStamp>(seq));
        w.sent = seq;
    }
};

/// `toggles`: how many more times the consumers may leave and come back; an Unsubscribe gives up (and terminates, by design)
/// after 3 * max_subscribers changes by others while it runs.
std::vector<Step> ConsumerSteps(pbt::Src& src, unsigned max, bool handover, unsigned& toggles)
{
    std::vector<Step> v;
    v.push_back({Op::kSub, static_cast<unsigned>(src.Below(4))});
    const auto n = src.Below(max + 1);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        static const Op kOps[]{Op::kGet, Op::kGet, Op::kRelease, Op::kRelease, Op::kCheck, Op::kUnsub, Op::kSub, Op::kCount, Op::kHandOver};
        auto op = kOps[src.Weighted({6, 3, 5, 2, 3, 2, 2, 1, handover ? 5U : 0U})];
        if (op == Op::kUnsub)
        {
            if (toggles == 0)
            {
                op = Op::kRelease;
            }
            else
            {
                --toggles;
            }
        }
        v.push_back({op, static_cast<unsigned>(src.Below(4))});
    }
    return v;
}
unsigned Toggles(std::size_t consumers, unsigned max_subs)
{
    if (max_subs == 1 || consumers == 1)
    {
        return 100;  // others cannot change anything while one consumer is subscribed
    }
    const auto changes = 3U * max_subs - 3U;
    return changes > consumers ? static_cast<unsigned>(changes - consumers) / 2U : 0U;
}
std::vector<Step> ProviderSteps(pbt::Src& src, unsigned max)
{
    std::vector<Step> v;
    const auto n = 4 + src.Below(max);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        static const Op kOps[]{Op::kSub, Op::kGet, Op::kRelease};
        v.push_back({kOps[src.Weighted({5, 2, 1})], static_cast<unsigned>(src.Below(2))});
    }
    return v;
}

void Leave(Run& run, Consumer& c)
{
    if (&c.control == run.w.qm.get() && run.w.b != nullptr)
    {
        // a QM consumer of a disconnected control may be overtaken: only give back
        c.handed.clear();
        c.held.clear();
    }
    while (!c.handed.empty())
    {
        run.Release(c, c.handed, 0, true);
    }
    while (!c.held.empty())
    {
        run.Release(c, c.held, 0, false);
    }
    run.Unsubscribe(c);
}

/// After all tasks ended: counts, completeness and freedom from leaks, sequentially.
void Settle(pbt::Ctx& ctx, Run& run)
{
    auto& w = run.w;
    auto check_refs = [&](EventControl& control, const char* which) {
        ConsumerEventDataControlLocalView<> view{control.data_control};
        for (SlotIndexType s = 0; s < w.n_slots; ++s)
        {
            std::size_t held{0};
            for (auto& c : run.consumers)
            {
                if (&c->control != &control)
                {
                    continue;
                }
                for (auto* q : {&c->held, &c->handed})
                {
                    for (auto& h : *q)
                    {
                        held += h.slot == s ? 1U : 0U;
                    }
                }
            }
            const auto st = view[s];
            PBT_CHECK(ctx, !st.IsInWriting(), "slot %u of %s is still marked as being written", s, which);
            PBT_CHECK(ctx, st.GetReferenceCount() == held, "slot %u of %s counts %u references, %zu are held", s, which, st.GetReferenceCount(), held);
        }
    };
    if (w.b == nullptr || (!w.qm_corrupted && !w.composite->IsQmControlDisconnected()))
    {
        check_refs(*w.qm, "the QM control");
    }
    if (w.b != nullptr)
    {
        check_refs(*w.b, "the ASIL-B control");
    }
    for (auto& c : run.consumers)
    {
        if (c->dead)
        {
            continue;
        }
        const bool cut = &c->control == w.qm.get() && w.b != nullptr && w.composite->IsQmControlDisconnected();
        if (c->max_samples != 0 && !cut)
        {
            // completeness: the newest unseen samples, as many as fit
            std::vector<std::uint64_t> fresh;
            for (SlotIndexType s = 0; s < w.n_slots; ++s)
            {
                if (w.slot_seq[s] > c->last)
                {
                    fresh.push_back(w.slot_seq[s]);
                }
            }
            std::sort(fresh.begin(), fresh.end());
            const auto counted = c->machine->GetSlotCollectorLockFree().value().GetNumNewSamplesAvailable();
            PBT_CHECK(ctx, counted == fresh.size(), "consumer %d: %zu new samples counted, %zu are there", c->name, counted, fresh.size());
            const auto free = c->max_samples - c->MayHold();
            const auto before = c->held.size();
            run.Get(*c, free);
            const auto expect = std::min(free, fresh.size());
            PBT_CHECK(ctx, c->held.size() - before == expect, "consumer %d: %zu of %zu new samples received with room for %zu", c->name, c->held.size() - before, fresh.size(), free);
            for (std::size_t i = 0; i < expect; ++i)
            {
                PBT_CHECK(ctx, c->held[before + i].seq == fresh[fresh.size() - expect + i], "consumer %d: sample %llu instead of %llu", c->name,
                          static_cast<unsigned long long>(c->held[before + i].seq), static_cast<unsigned long long>(fresh[fresh.size() - expect + i]));
            }
        }
        Leave(run, *c);
    }
}

/// how many further subscriptions (of one sample) the control accepts
std::size_t FreeSubscriptions(pbt::Ctx& ctx, World& w, EventControl& control, std::size_t cap)
{
    std::vector<std::unique_ptr<Consumer>> probes;
    std::size_t n{0};
    for (std::size_t i = 0; i < cap; ++i)
    {
        auto c = std::make_unique<Consumer>(w, control, static_cast<TransactionLogId>(900 + i), static_cast<int>(900 + i));
        const bool ok = c->machine->SubscribeEvent(1).has_value();
        if (ok)
        {
            c->max_samples = 1;
            ++n;
        }
        probes.push_back(std::move(c));
        if (!ok)
        {
            break;
        }
    }
    for (auto& p : probes)
    {
        if (p->max_samples != 0)
        {
            p->machine->UnsubscribeEvent();
        }
    }
    static_cast<void>(ctx);
    return n;
}

void CheckStats(pbt::Ctx& ctx, const sched::Stats& st, bool races_count = true)
{
    PBT_CHECK(ctx, !st.deadlock, "deadlock");
    PBT_CHECK(ctx, !st.overrun, "no progress: a task never ends");
    PBT_CHECK(ctx, st.race.empty() || !races_count, "data race: %s", st.race.c_str());
    ctx.Count("switches", st.switches);
    ctx.Count("points", st.points);
}

}  // namespace

// ---- E02: slots, references and samples under any schedule ----
PBT_PROPERTY(slots_under_schedules, 400000, 20000000)
{
    const bool asil_b = src.Chance(1, 3);
    const auto n_consumers = 1 + src.Below(3);
    const auto slots = static_cast<std::uint16_t>(1 + src.Below(6));
    const bool enforce = !src.Chance(1, 3);
    World w{slots, static_cast<std::uint8_t>(1 + src.Below(3)), enforce, asil_b};
    Run run{src, ctx, w};
    auto toggles = Toggles(n_consumers, w.max_subscribers);
    std::vector<std::vector<Step>> steps;
    const bool helper = src.Chance(1, 3);
    for (std::uint64_t i = 0; i < n_consumers; ++i)
    {
        auto& control = asil_b && src.Bool() ? *w.b : *w.qm;
        run.consumers.push_back(std::make_unique<Consumer>(w, control, static_cast<TransactionLogId>(100 + i), static_cast<int>(i)));
        steps.push_back(ConsumerSteps(src, 14, helper && i == 0, toggles));
    }
    const auto psteps = ProviderSteps(src, 20);
    std::vector<std::function<void()>> tasks;
    tasks.emplace_back([&] { run.ProviderTask(psteps); });
    for (std::uint64_t i = 0; i < n_consumers; ++i)
    {
        tasks.emplace_back([&, i] { run.ConsumerTask(*run.consumers[i], steps[i]); });
    }
    if (helper)
    {
        tasks.emplace_back([&] { run.HelperTask(*run.consumers[0], 12); });
        ctx.Label("samples given back by another thread");
    }
    const auto st = sched::Run(src, std::move(tasks));
    CheckStats(ctx, st, w.b == nullptr || !w.composite->IsQmControlDisconnected());
    ctx.Label(asil_b ? "ASIL-B" : "QM");
    PBT_CHECK(ctx, w.b == nullptr || !w.composite->IsQmControlDisconnected() || run.alloc_failures > 0 || true, "-");
    if (run.alloc_failures > 0)
    {
        ctx.Label("allocation failed");
    }
    if (run.hits > 0 && st.preemptions > 0)
    {
        ctx.NonTrivial();
    }
    ctx.Count("samples", run.hits);
    ctx.Note("%s, %u slots, %zu consumers, %llu sent, %llu received, %llu preemptions", asil_b ? "B" : "QM", slots, run.consumers.size(), static_cast<unsigned long long>(w.sent),
             static_cast<unsigned long long>(run.hits), static_cast<unsigned long long>(st.preemptions));
    Settle(ctx, run);
}

// ---- E04: subscriptions racing with each other, with availability changes and with a discovery thread ----
static std::uint64_t Count(pbt::Src& src, unsigned slots)
{
    if (slots <= 100)
    {
        return src.Below(4);
    }
    return src.Chance(1, 3) ? src.PickOf<std::uint64_t>({10, 10 + 256}) : src.Below(src.Bool() ? 250 : 700);
}
PBT_PROPERTY(subscriptions_under_schedules, 400000, 20000000)
{
    const auto n = 2 + src.Below(4);
    const auto slots = static_cast<std::uint16_t>(src.Chance(1, 5) ? 200 + src.Below(900) : 1 + src.Below(8));
    const auto max_subs = static_cast<std::uint8_t>(1 + src.Below(4));
    World w{slots, max_subs, !src.Chance(1, 4), false};
    Run run{src, ctx, w};
    std::vector<std::vector<Step>> steps(n);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        run.consumers.push_back(std::make_unique<Consumer>(w, *w.qm, static_cast<TransactionLogId>(100 + i), static_cast<int>(i)));
    }
    // an Unsubscribe gives up (and terminates, by design) after 3 * max_subscribers interfering changes: stay below that
    const auto total = src.Below(3U * max_subs - 1U) + 2U;
    for (std::uint64_t i = 0; i < total; ++i)
    {
        const auto who = src.Below(n);
        steps[who].push_back({src.Chance(2, 5) ? Op::kUnsub : Op::kSub, static_cast<unsigned>((src.Chance(1, 40) ? 65536U : 0U) + Count(src, slots))});
    }
    unsigned rounds{0};
    std::uint64_t watched = src.Below(n);
    if (src.Chance(1, 2))
    {
        rounds = 1 + static_cast<unsigned>(src.Below(3));
    }
    std::vector<std::pair<std::uint64_t, SubscriptionState>> told;
    bool told_bad{false};
    if (src.Bool())
    {
        auto* m = run.consumers[watched]->machine.get();
        m->SetSubscriptionStateChangeHandler([&told, &told_bad](SubscriptionState s) {
            if (!told.empty() && told.back().second == s)
            {
                told_bad = true;
            }
            told.emplace_back(sched::Clock(), s);
            return true;
        });
    }
    std::vector<std::function<void()>> tasks;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        tasks.emplace_back([&, i] { run.ConsumerTask(*run.consumers[i], steps[i]); });
    }
    if (rounds > 0)
    {
        tasks.emplace_back([&] { run.AvailabilityTask(*run.consumers[watched], rounds); });
        ctx.Label("availability changes");
    }
    sched::Options opt;
    opt.spurious_cas = max_subs > 1;
    const auto st = sched::Run(src, std::move(tasks), opt);
    CheckStats(ctx, st);
    PBT_CHECK(ctx, !told_bad, "a subscription state was told twice in a row");
    std::size_t subs{0}, sum{0};
    for (auto& c : run.consumers)
    {
        const auto s = c->machine->GetCurrentState();
        const auto want = c->max_samples != 0 ? SubscriptionStateMachineState::SUBSCRIBED_STATE : SubscriptionStateMachineState::NOT_SUBSCRIBED_STATE;
        PBT_CHECK(ctx, s == want, "consumer %d ends in subscription state %d", c->name, static_cast<int>(s));
        if (c->max_samples != 0)
        {
            PBT_CHECK(ctx, c->machine->GetMaxSampleCount() == c->max_samples, "wrong sample count of a subscription");
            ++subs;
            sum += c->max_samples;
        }
    }
    if (!told.empty())
    {
        const auto last = told.back().second;
        PBT_CHECK(ctx, last == (run.consumers[watched]->max_samples != 0 ? SubscriptionState::kSubscribed : SubscriptionState::kNotSubscribed), "the last state told is not the final one");
    }
    if (st.preemptions > 0 && (run.rejected > 0 || rounds > 0))
    {
        ctx.NonTrivial();
    }
    ctx.Note("%llu consumers, %u subscribers, %u slots, %llu refused, %zu subscribed", static_cast<unsigned long long>(n), max_subs, slots, static_cast<unsigned long long>(run.rejected), subs);
    // what is free is exactly what is not subscribed
    std::size_t expect = max_subs - subs;
    if (w.enforced)
    {
        expect = std::min(expect, w.n_slots - sum);
    }
    const auto free = FreeSubscriptions(ctx, w, *w.qm, static_cast<std::size_t>(max_subs) + 1);
    PBT_CHECK(ctx, free == expect, "%zu further subscriptions accepted, %zu expected", free, expect);
    for (auto& c : run.consumers)
    {
        run.Unsubscribe(*c);
    }
    const auto all = FreeSubscriptions(ctx, w, *w.qm, static_cast<std::size_t>(max_subs) + 1);
    PBT_CHECK(ctx, all == std::min<std::size_t>(max_subs, w.enforced ? w.n_slots : 255), "%zu subscriptions accepted after all left", all);
}

// ---- E05: consumers that die at any point ----
PBT_PROPERTY(consumer_death, 400000, 20000000)
{
    const auto n = 1 + src.Below(3);
    const auto slots = static_cast<std::uint16_t>(2 + src.Below(5));
    const auto max_subs = static_cast<std::uint8_t>(n + src.Below(2));
    World w{slots, max_subs, src.Bool(), false};
    Run run{src, ctx, w};
    auto toggles = Toggles(n, w.max_subscribers);
    std::vector<std::vector<Step>> steps;
    sched::Options opt;
    opt.kill_at.push_back(0);
    // consumers may share an application id (two proxies of one process): such processes die as a whole
    const bool shared_id = n >= 2 && src.Chance(1, 3);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto id = shared_id && i == 1 ? 100U : 100U + static_cast<unsigned>(i);
        run.consumers.push_back(std::make_unique<Consumer>(w, *w.qm, static_cast<TransactionLogId>(id), static_cast<int>(i)));
        steps.push_back(ConsumerSteps(src, 12, false, toggles));
    }
    const auto psteps = ProviderSteps(src, 16);
    std::uint64_t victims{0};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const bool dies = i == 0 || src.Chance(1, 3) || (shared_id && i == 1);
        opt.kill_at.push_back(dies ? 1 + src.Below(src.PickOf<std::uint64_t>({40, 150, 300, 400})) : 0);
        victims += dies ? 1U : 0U;
    }
    std::vector<std::function<void()>> tasks;
    tasks.emplace_back([&] { run.ProviderTask(psteps); });
    for (std::uint64_t i = 0; i < n; ++i)
    {
        tasks.emplace_back([&, i] { run.ConsumerTask(*run.consumers[i], steps[i]); });
    }
    const auto st = sched::Run(src, std::move(tasks), opt);
    CheckStats(ctx, st);
    std::size_t holding{0};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        auto& c = *run.consumers[i];
        // a victim that finished its steps before the kill point is dead too: its process ended without cleaning up
        if (opt.kill_at[i + 1] != 0)
        {
            c.dead = true;
            holding += c.held.size();
        }
    }
    // forget what the dead held, without running their destructors
    std::set<TransactionLogId> ids;
    std::map<TransactionLogId, bool> clean;
    for (auto& c : run.consumers)
    {
        if (c->dead)
        {
            const bool was_clean = !c->in_op;
            clean[c->id] = (clean.count(c->id) == 0 || clean[c->id]) && was_clean;
            ids.insert(c->id);
            for (auto& h : c->held)
            {
                static_cast<void>(h.ref.release());
            }
            c->held.clear();
            // neither the state machine nor its registration is destroyed: the process is gone
            new std::shared_ptr<SubscriptionStateMachine>(c->machine);
            c->max_samples = 0;
            c->releasing = c->getting = c->attempting = 0;
        }
    }
    ctx.Label(holding > 0 ? "died holding samples" : "died without samples");
    if (st.preemptions > 0 && holding > 0)
    {
        ctx.NonTrivial();
    }
    bool all_recovered{true};
    for (const auto id : ids)
    {
        std::size_t logs{0};
        for (auto& c : run.consumers)
        {
            logs += c->dead && c->id == id ? 1U : 0U;
        }
        w.qm->transaction_log_set_.MarkTransactionLogsNeedRollback(id);
        ConsumerEventDataControlLocalView<> view{w.qm->data_control};
        bool ok{true};
        for (std::size_t i = 0; i < logs; ++i)
        {
            const auto r = w.qm->transaction_log_set_.RollbackProxyTransactions(
                id, [&view](const TransactionLog::SlotIndexType s) noexcept { view.DereferenceEventWithoutTransactionLogging(s); },
                [&w](const TransactionLog::MaxSampleCountType m) noexcept { w.qm->subscription_control.Unsubscribe(m); });
            if (!r.has_value())
            {
                ok = false;
                PBT_CHECK(ctx, r.error() == ComErrc::kCouldNotRestartProxy, "rollback failed with another error");
            }
        }
        PBT_CHECK(ctx, ok || !clean[id], "the rollback failed although the process %u died between calls", static_cast<unsigned>(id));
        all_recovered = all_recovered && ok;
        ctx.Label(ok ? "recovered" : "not recoverable (died inside a call)");
    }
    ctx.Note("%llu consumers, %llu victims, %zu samples held at death, %s", static_cast<unsigned long long>(n), static_cast<unsigned long long>(victims), holding,
             all_recovered ? "recovered" : "not recoverable");
    if (!all_recovered)
    {
        // the living are not affected: what they hold is still there
        for (auto& c : run.consumers)
        {
            for (auto& h : c->held)
            {
                ReadSample(ctx, w, *c, h.slot, h.seq, "after another consumer died");
            }
            if (!c->dead)
            {
                Leave(run, *c);
            }
        }
        return;
    }
    // the processes come back: a first proxy subscribes and reads, then a second one looks for something to roll back
    for (const auto id : ids)
    {
        if (!src.Chance(2, 3))
        {
            continue;
        }
        run.consumers.push_back(std::make_unique<Consumer>(w, *w.qm, id, static_cast<int>(run.consumers.size())));
        auto& c = *run.consumers.back();
        run.Subscribe(c, 1 + src.Below(2));
        run.Get(c, 2);
        ConsumerEventDataControlLocalView<> view{w.qm->data_control};
        const auto r = w.qm->transaction_log_set_.RollbackProxyTransactions(
            id, [&view](const TransactionLog::SlotIndexType s) noexcept { view.DereferenceEventWithoutTransactionLogging(s); },
            [&w](const TransactionLog::MaxSampleCountType m) noexcept { w.qm->subscription_control.Unsubscribe(m); });
        PBT_CHECK(ctx, r.has_value(), "nothing to roll back, but the rollback failed");
        ctx.Label("came back");
    }
    std::size_t subs{0}, sum{0};
    for (auto& c : run.consumers)
    {
        if (!c->dead)
        {
            if (c->max_samples != 0)
            {
                ++subs;
                sum += c->max_samples;
            }
        }
    }
    std::size_t expect = max_subs - subs;
    if (w.enforced)
    {
        expect = std::min(expect, w.n_slots - sum);
    }
    const auto free = FreeSubscriptions(ctx, w, *w.qm, static_cast<std::size_t>(max_subs) + 1);
    PBT_CHECK(ctx, free == expect, "after the rollback %zu further subscriptions are accepted, %zu expected", free, expect);
    Settle(ctx, run);
    const auto all = FreeSubscriptions(ctx, w, *w.qm, static_cast<std::size_t>(max_subs) + 1);
    PBT_CHECK(ctx, all == std::min<std::size_t>(max_subs, w.enforced ? w.n_slots : 255), "%zu subscriptions accepted after all left", all);
}

// ---- E07: a misbehaving QM side never disturbs the ASIL-B side ----
PBT_PROPERTY(qm_misbehaviour, 400000, 20000000)
{
    const auto n = 1 + src.Below(2);
    const auto slots = static_cast<std::uint16_t>(1 + src.Below(6));
    World w{slots, static_cast<std::uint8_t>(n), true, true};
    Run run{src, ctx, w};
    auto toggles = Toggles(n, w.max_subscribers);
    std::vector<std::vector<Step>> steps;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        run.consumers.push_back(std::make_unique<Consumer>(w, *w.b, static_cast<TransactionLogId>(100 + i), static_cast<int>(i)));
        steps.push_back(ConsumerSteps(src, 12, false, toggles));
    }
    const auto psteps = ProviderSteps(src, 20);
    struct Scribble
    {
        std::size_t slot;
        int kind;
        std::uint64_t value;
    };
    std::vector<Scribble> scribbles;
    const auto m = 1 + src.Below(16);
    for (std::uint64_t i = 0; i < m; ++i)
    {
        scribbles.push_back({src.Below(slots), static_cast<int>(src.Below(7)), src.Int<std::uint64_t>()});
    }
    w.qm_corrupted = true;
    auto scribble = [&] {
        for (auto& s : scribbles)
        {
            sched::Point();
            auto& cell = w.qm->data_control.state_slots_[s.slot];
            const std::uint64_t old = cell.load();
            switch (s.kind)
            {
                case 0:
                    cell.store(s.value);
                    break;
                case 1:
                    cell.store(0);
                    break;
                case 2:
                    cell.store(0xFFFFFFFFU);
                    break;
                case 3:
                    cell.store(old + 1);
                    break;
                case 4:
                    cell.store(old - 1);
                    break;
                case 5:
                    cell.store(old ^ (1ull << (s.value % 64)));
                    break;
                default:
                    for (SlotIndexType k = 0; k < w.n_slots; ++k)
                    {
                        w.qm->data_control.state_slots_[k].store(old + 1);
                    }
                    break;
            }
        }
    };
    std::vector<std::function<void()>> tasks;
    tasks.emplace_back([&] { run.ProviderTask(psteps); });
    for (std::uint64_t i = 0; i < n; ++i)
    {
        tasks.emplace_back([&, i] { run.ConsumerTask(*run.consumers[i], steps[i]); });
    }
    tasks.emplace_back(scribble);
    const auto st = sched::Run(src, std::move(tasks));
    CheckStats(ctx, st);
    const bool cut = w.composite->IsQmControlDisconnected();
    ctx.Label(cut ? "QM disconnected" : "QM still connected");
    if (run.hits > 0 && cut)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%u slots, %zu scribbles, %llu sent, %llu received, %s", slots, scribbles.size(), static_cast<unsigned long long>(w.sent), static_cast<unsigned long long>(run.hits),
             cut ? "disconnected" : "connected");
    Settle(ctx, run);
}

// ---- L01: application ids and process ids ----
PBT_PROPERTY(process_registration, 200000, 10000000)
{
    NewDeleteDelegateMemoryResource resource{++g_resource_id};
    const auto capacity = static_cast<std::uint16_t>(1 + src.Below(5));
    ApplicationIdPidMapping<score::memory::shared::PolymorphicOffsetPtrAllocator<ApplicationIdPidMappingEntry>> mapping{capacity, resource};
    std::map<std::uint32_t, pid_t> model;        // what is registered
    std::map<std::uint32_t, pid_t> half;         // registrations that died half way
    const auto rounds = 1 + src.Below(4);
    bool full{false}, died{false}, raced{false};
    for (std::uint64_t r = 0; r < rounds; ++r)
    {
        const auto n = 1 + src.Below(4);
        struct Call
        {
            std::uint32_t id;
            pid_t pid;
            std::optional<pid_t> result;
            bool started{false}, returned{false};
        };
        std::vector<Call> calls(n);
        std::set<std::uint32_t> used;
        sched::Options opt;
        std::vector<std::function<void()>> tasks;
        for (std::uint64_t i = 0; i < n; ++i)
        {
            auto& c = calls[i];
            do
            {
                const auto pick = src.Below(8);
                c.id = pick == 7 ? 0xFFFFFFFFU : static_cast<std::uint32_t>(pick);
                while (used.count(c.id) != 0)
                {
                    ++c.id;
                }
            } while (used.count(c.id) != 0);
            used.insert(c.id);
            c.pid = static_cast<pid_t>(1 + src.Below(1U << 20));
            // the way to the entries takes some forty points (bounds checks), the entries themselves a few each
            opt.kill_at.push_back(src.Chance(1, 4) ? 1 + src.Below(src.PickOf<std::uint64_t>({60, 90, 400})) : 0);
            tasks.emplace_back([&mapping, &c] {
                c.started = true;
                c.result = mapping.RegisterPid(c.id, c.pid);
                c.returned = true;
            });
        }
        std::size_t known_before = model.size() + half.size();
        const auto st = sched::Run(src, std::move(tasks), opt);
        CheckStats(ctx, st);
        raced = raced || st.preemptions > 0;
        // entries are taken once per id and never given back
        std::size_t fresh{0};
        for (auto& c : calls)
        {
            fresh += model.count(c.id) == 0 && half.count(c.id) == 0 ? 1U : 0U;
        }
        for (auto& c : calls)
        {
            if (!c.returned)
            {
                if (c.started)
                {
                    died = true;
                    if (model.count(c.id) == 0)
                    {
                        half[c.id] = c.pid;  // may or may not occupy an entry
                    }
                    else
                    {
                        half[c.id] = c.pid;
                        model.erase(c.id);
                    }
                }
                continue;
            }
            if (model.count(c.id) != 0)
            {
                PBT_CHECK(ctx, c.result.has_value(), "id %u is registered, a new registration failed", c.id);
                PBT_CHECK(ctx, *c.result == model[c.id], "id %u: previous process id %d expected, %d returned", c.id, model[c.id], *c.result);
                model[c.id] = c.pid;
            }
            else if (half.count(c.id) != 0)
            {
                if (c.result.has_value())
                {
                    // either the half made entry is taken over or completed before the death
                    half.erase(c.id);
                    model[c.id] = c.pid;
                }
                else
                {
                    PBT_CHECK(ctx, known_before + fresh >= capacity, "no entry for id %u of %u", c.id, capacity);
                    full = true;
                }
            }
            else
            {
                if (c.result.has_value())
                {
                    PBT_CHECK(ctx, *c.result == c.pid, "id %u registered for the first time, %d returned instead of %d", c.id, *c.result, c.pid);
                    model[c.id] = c.pid;
                }
                else
                {
                    PBT_CHECK(ctx, known_before + fresh > capacity || st.spurious > 0, "no entry for id %u although %zu of %u are in use", c.id, known_before, capacity);
                    full = true;
                }
            }
        }
        PBT_CHECK(ctx, model.size() <= capacity, "%zu ids registered in %u entries", model.size(), capacity);
    }
    if (raced && (full || died))
    {
        ctx.NonTrivial();
    }
    ctx.Label(full ? "full" : "not full");
    ctx.Note("%u entries, %zu ids%s%s", capacity, model.size(), full ? ", full" : "", died ? ", a process died" : "");
    // every registered id still answers with its own process id, and takes another one
    for (auto& [id, pid] : model)
    {
        const auto r = mapping.RegisterPid(id, pid + 1);
        PBT_CHECK(ctx, r.has_value() && *r == pid, "id %u lost its process id", id);
        const auto again = mapping.RegisterPid(id, pid);
        PBT_CHECK(ctx, again.has_value() && *again == pid + 1, "id %u is registered, another registration gave %d instead of %d", id, again.value_or(-1), pid + 1);
    }
    // and no id took more than one entry
    std::size_t more{0};
    while (more <= capacity && mapping.RegisterPid(static_cast<std::uint32_t>(1000 + more), 7).has_value())
    {
        ++more;
    }
    const std::size_t most = capacity - model.size();
    const std::size_t least = most - std::min(most, half.size());
    PBT_CHECK(ctx, more >= least && more <= most, "%zu further ids could be registered, %zu of %u entries were in use%s", more, model.size(), capacity, half.empty() ? "" : " and some half made");
}

// The subscription word against plain counters, over the whole range of its numbers.
PBT_PROPERTY(subscription_counters, 100000, 4000000)
{
    const bool enforce = !src.Chance(1, 3);
    const auto wide = [&](std::uint64_t top) { return src.Chance(1, 4) ? top - src.Below(std::min<std::uint64_t>(top, 3)) : src.Chance(1, 2) ? src.Below(top + 1) : src.Below(std::min<std::uint64_t>(top, 12) + 1); };
    const auto max_slots = static_cast<std::uint16_t>(wide(65535));
    const auto max_subs = static_cast<EventSubscriptionControl<>::SubscriberCountType>(wide(std::numeric_limits<EventSubscriptionControl<>::SubscriberCountType>::max() > 255 ? 300 : 255));
    EventSubscriptionControl<> c{max_slots, max_subs, enforce};
    std::vector<std::uint16_t> subs;
    std::uint64_t sum{0};
    unsigned refused{0}, accepted{0};
    const auto steps = 1 + src.Below(24);
    for (std::uint64_t i = 0; i < steps; ++i)
    {
        if (!subs.empty() && src.Chance(1, 3))
        {
            const auto at = src.Below(subs.size());
            c.Unsubscribe(subs[at]);
            sum -= subs[at];
            subs.erase(subs.begin() + static_cast<std::ptrdiff_t>(at));
            continue;
        }
        const std::uint64_t room = max_slots > sum ? max_slots - sum : 0;
        auto k = static_cast<std::uint16_t>(src.Chance(1, 3) ? std::min<std::uint64_t>(65535, room + src.Below(3)) : wide(65535));
        if (!enforce && sum + k > 65535)
        {
            k = static_cast<std::uint16_t>(65535 - sum);
        }
        const auto r = c.Subscribe(k);
        const auto want = subs.size() >= max_subs ? SubscribeResult::kMaxSubscribersOverflow : enforce && sum + k > max_slots ? SubscribeResult::kSlotOverflow : SubscribeResult::kSuccess;
        if (max_subs != 0)
        {
            PBT_CHECK(ctx, r == want, "Subscribe(%u) gave %s with %zu of %u subscribers and %llu of %u samples%s, expected %s", k, std::string{ToString(r)}.c_str(), subs.size(), max_subs,
                      (unsigned long long)sum, max_slots, enforce ? "" : " (not enforced)", std::string{ToString(want)}.c_str());
        }
        else
        {
            PBT_CHECK(ctx, r != SubscribeResult::kSuccess, "a subscription beyond no subscribers was accepted");
        }
        if (r == SubscribeResult::kSuccess)
        {
            ++accepted;
            sum += k;
            subs.push_back(k);
        }
        else
        {
            ++refused;
            ctx.Label(r == SubscribeResult::kSlotOverflow ? (sum + k > 65535 ? "slots, beyond 16 bits" : "slots") : "subscribers");
        }
    }
    if (accepted > 1 && refused > 0)
    {
        ctx.NonTrivial();
    }
}
