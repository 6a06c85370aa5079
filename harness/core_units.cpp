// Value types and small containers: operation histories against models.
#include "pbt.h"
#include "death.h"

#include "score/memory/shared/memory_region_bounds.h"
#include "score/message_passing/unix_domain/unix_domain_socket_address.h"
#include "score/mw/com/gateway/transport_layer/sample/unique_socket.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include "score/mw/com/impl/bindings/lola/methods/offered_state_machine.h"
#include "score/mw/com/impl/bindings/lola/skeleton_event_properties.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_slot.h"
#include "score/mw/com/impl/enable_reference_to_moveable_from_this.h"
#include "score/mw/com/impl/field_tags_store.h"
#include "score/mw/com/impl/find_service_handle.h"
#include "score/mw/com/impl/flag_owner.h"
#include "score/mw/com/impl/method_type.h"
#include "score/mw/com/impl/methods/callable_traits.h"
#include "score/mw/com/impl/methods/method_signature_element_ptr.h"
#include "score/mw/com/impl/service_element_map_view.h"
#include "score/mw/com/impl/service_element_map_view_factory.h"
#include "score/mw/com/impl/tracing/configuration/hash_helper_utility.h"
#include "score/mw/com/impl/util/arithmetic_utils.h"
#include "score/mw/com/impl/util/copyable_atomic.h"
#include "score/mw/com/impl/util/type_erased_storage.h"
#include "score/mw/service/backend/mw_com/provided_service_builder.h"
#include "score/mw/service/backend/mw_com/provided_service_decorator.h"
#include "score/mw/service/provided_service_container.h"

#include <sys/socket.h>
#include <sys/un.h>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <optional>

using namespace score::mw::com::impl;

// ------------------------------------------------------------------------------------------------ packed states

PBT_PROPERTY(slot_status_words, 5000000, 100000000)
{
    using lola::EventSlotStatus;
    // model: the two halves
    std::uint32_t ts{0}, rc{0};
    std::optional<EventSlotStatus> s;
    switch (src.Below(3))
    {
        case 0:
            s.emplace();
            break;
        case 1:
        {
            const auto v = src.U64();
            s.emplace(static_cast<EventSlotStatus::value_type>(v));
            ts = static_cast<std::uint32_t>(v >> 32U);
            rc = static_cast<std::uint32_t>(v);
            break;
        }
        default:
            ts = src.Int<std::uint32_t>();
            rc = src.Int<std::uint32_t>();
            s.emplace(ts, rc);
            break;
    }
    auto check = [&](const char* after) {
        const EventSlotStatus& c = *s;
        const bool writing = ts == 0 && rc == 0xFFFFFFFFU;
        const bool invalid = ts == 0 && rc == 0;
        PBT_CHECK(ctx, c.GetTimeStamp() == ts && c.GetReferenceCount() == rc, "%s: time %u count %u, expected %u %u", after, c.GetTimeStamp(), c.GetReferenceCount(), ts, rc);
        PBT_CHECK(ctx, c.IsInWriting() == writing && c.IsInvalid() == invalid, "%s: writing %d invalid %d with time %u count %u", after, c.IsInWriting(), c.IsInvalid(), ts, rc);
        PBT_CHECK(ctx, c.IsUsed() == (rc != 0), "%s: used %d with time %u count %u", after, c.IsUsed(), ts, rc);
        PBT_CHECK(ctx, static_cast<const EventSlotStatus::value_type&>(c) == ((static_cast<std::uint64_t>(ts) << 32U) | rc), "%s: word", after);
        std::uint32_t lo = src.Chance(1, 2) ? ts + static_cast<std::uint32_t>(src.Below(3)) - 1 : src.Int<std::uint32_t>();
        std::uint32_t hi = src.Chance(1, 2) ? ts + static_cast<std::uint32_t>(src.Below(3)) - 1 : src.Int<std::uint32_t>();
        PBT_CHECK(ctx, c.IsTimeStampBetween(lo, hi) == (!writing && !invalid && ts > lo && ts < hi), "%s: time %u between %u and %u: %d", after, ts, lo, hi, c.IsTimeStampBetween(lo, hi));
    };
    check("construction");
    const auto n = 1 + src.Below(8);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        switch (src.Below(8))
        {
            case 0:
                ts = src.Int<std::uint32_t>();
                rc = 0;
                s->SetTimeStamp(ts);
                check("SetTimeStamp");
                break;
            case 1:
            case 2:
                rc = src.Int<std::uint32_t>();
                s->SetReferenceCount(rc);
                check("SetReferenceCount");
                break;
            case 3:
                ts = 0;
                rc = 0xFFFFFFFFU;
                s->MarkInWriting();
                check("MarkInWriting");
                break;
            case 4:
                ts = 0;
                rc = 0;
                s->MarkInvalid();
                check("MarkInvalid");
                break;
            case 5:
            {
                // what consumers do: one reference more or less on the raw word
                auto& w = static_cast<EventSlotStatus::value_type&>(*s);
                if (rc < 0xFFFFFFFEU)
                {
                    ++w;
                    ++rc;
                }
                else
                {
                    --w;
                    --rc;
                }
                check("counting on the word");
                break;
            }
            case 6:
            {
                EventSlotStatus copy{*s};
                s->MarkInvalid();
                *s = copy;
                check("copy");
                break;
            }
            default:
            {
                EventSlotStatus other{src.Int<std::uint32_t>(), src.Int<std::uint32_t>()};
                ts = other.GetTimeStamp();
                rc = other.GetReferenceCount();
                *s = std::move(other);
                check("assignment");
                break;
            }
        }
    }
    if (n > 2 && ts != 0)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%llu operations, time %u count %u", static_cast<unsigned long long>(n), ts, rc);
}

PBT_PROPERTY(log_and_registry_entries, 1500000, 40000000)
{
    lola::TransactionLogSlot slot{};
    bool b{false}, e{false};
    lola::ApplicationIdPidMappingEntry entry{};
    using Status = lola::ApplicationIdPidMappingEntry::MappingEntryStatus;
    Status st{Status::kUnused};
    std::uint32_t app{0};
    const auto n = 1 + src.Below(10);
    bool both{false};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        switch (src.Below(4))
        {
            case 0:
                b = src.Bool();
                slot.SetTransactionBegin(b);
                break;
            case 1:
                e = src.Bool();
                slot.SetTransactionEnd(e);
                break;
            case 2:
                st = static_cast<Status>(src.Below(4));
                app = src.Int<std::uint32_t>();
                entry.SetStatusAndApplicationIdAtomic(st, app);
                entry.pid_ = static_cast<pid_t>(src.Int<std::int32_t>());
                both = both || (st != Status::kUnused && app > 0xFFFFU);
                break;
            default:
            {
                lola::TransactionLogSlot copy{slot};
                slot = lola::TransactionLogSlot{};
                slot = copy;
                break;
            }
        }
        PBT_CHECK(ctx, slot.GetTransactionBegin() == b && slot.GetTransactionEnd() == e, "log slot reads %d %d, expected %d %d", slot.GetTransactionBegin(), slot.GetTransactionEnd(), b, e);
        const auto got = entry.GetStatusAndApplicationIdAtomic();
        PBT_CHECK(ctx, got.first == st && got.second == app, "entry reads status %u application %u, expected %u %u", static_cast<unsigned>(got.first), got.second, static_cast<unsigned>(st), app);
        const auto other_st = src.Chance(1, 2) ? st : static_cast<Status>(src.Below(4));
        const auto other = src.Chance(1, 2) ? app : src.Int<std::uint32_t>();
        const bool same = other == app && other_st == st;
        PBT_CHECK(ctx, (lola::ApplicationIdPidMappingEntry::CreateKey(st, app) == lola::ApplicationIdPidMappingEntry::CreateKey(other_st, other)) == same,
                  "keys of (%u,%u) and (%u,%u) are %s", static_cast<unsigned>(st), app, static_cast<unsigned>(other_st), other, same ? "different" : "equal");
        PBT_CHECK(ctx, entry.key_application_id_status_.load() == lola::ApplicationIdPidMappingEntry::CreateKey(st, app), "the stored key differs from the created one");
    }
    if (both)
    {
        ctx.NonTrivial();
    }
    ctx.Note("status %u application %u log %d%d", static_cast<unsigned>(st), app, b, e);
}

PBT_PROPERTY(slot_numbers, 1500000, 40000000)
{
    const std::size_t slots = src.Int<std::uint16_t>(), trace = src.Below(256), getters = src.Int<std::uint16_t>();
    const std::size_t subs = src.Int<std::uint16_t>();
    const bool setter = src.Bool(), enforce = src.Bool();
    lola::SkeletonEventProperties p{slots, trace, getters, setter, subs, enforce};
    PBT_CHECK(ctx, p.GetTotalNumberOfSlots() == slots + trace + getters + (setter ? 1U : 0U), "%zu slots for %zu + %zu + %zu + %d", p.GetTotalNumberOfSlots(), slots, trace, getters, setter);
    PBT_CHECK(ctx, p.GetNumberOfFieldGetterSlots() == getters && p.max_subscribers == subs && p.enforce_max_samples == enforce, "properties are stored wrongly");
    if (setter && trace > 0 && getters > 0)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu + %zu + %zu + %d", slots, trace, getters, setter);
}

PBT_PROPERTY(offer_states, 1500000, 40000000)
{
    using M = lola::OfferedStateMachine;
    M m{};
    auto model = M::State::OFFERED;
    const auto n = 1 + src.Below(12);
    bool reoffered{false};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const bool offer = src.Bool();
        bool ok{true};
        auto next = model;
        if (offer)
        {
            ok = model != M::State::RE_OFFERED;
            next = model == M::State::OFFERED ? M::State::OFFERED : M::State::RE_OFFERED;
        }
        else
        {
            ok = model != M::State::STOP_OFFERED;
            next = M::State::STOP_OFFERED;
        }
        if (!ok)
        {
            if (src.Chance(1, 2000))
            {
                ctx.Count("forbidden", 1);
                PBT_CHECK(ctx, pbt::Dies([&] { offer ? m.Offer() : m.StopOffer(); }), "a second %s was accepted", offer ? "offer" : "stop");
            }
            continue;
        }
        offer ? m.Offer() : m.StopOffer();
        model = next;
        reoffered = reoffered || model == M::State::RE_OFFERED;
        PBT_CHECK(ctx, m.GetCurrentState() == model, "state %u, expected %u", static_cast<unsigned>(m.GetCurrentState()), static_cast<unsigned>(model));
    }
    if (reoffered)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%llu steps", static_cast<unsigned long long>(n));
}

// ---------------------------------------------------------------------------------------------------- value types

namespace
{
struct Movable : EnableReferenceToMoveableFromThis<Movable>
{
    explicit Movable(std::uint64_t i) : id{i} {}
    Movable(Movable&& o) noexcept = default;
    Movable& operator=(Movable&& o) & noexcept = default;
    std::uint64_t id;
};
}  // namespace

PBT_PROPERTY(flags_and_references, 1500000, 40000000)
{
    // flag owners: exactly the model's flags are set, moving transfers the flag
    const auto n = 2 + src.Below(4);
    std::vector<std::unique_ptr<FlagOwner>> owners;
    std::vector<bool> set;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const bool v = src.Bool();
        owners.push_back(src.Bool() || v ? std::make_unique<FlagOwner>(v) : std::make_unique<FlagOwner>());
        set.push_back(v);
    }
    // moveable objects with long-lived references to them
    std::vector<std::unique_ptr<Movable>> objs;
    std::vector<ReferenceToMoveable<Movable>::Reference*> refs;
    std::vector<bool> alive;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        objs.push_back(std::make_unique<Movable>(i));
        refs.push_back(&objs.back()->GetReferenceToMoveable());
        alive.push_back(true);
    }
    std::vector<std::uint64_t> where(n);  // the object refs[i] stands for lives in objs[where[i]]
    std::vector<bool> ref_valid(n, true);
    std::vector<std::int64_t> in(n);       // id of the object in a place, -1: moved-from
    for (std::uint64_t i = 0; i < n; ++i)
    {
        where[i] = i;
        in[i] = static_cast<std::int64_t>(i);
    }
    unsigned moves{0};
    const auto steps = 1 + src.Below(16);
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const auto i = src.Below(n), j = src.Below(n);
        switch (src.Below(6))
        {
            case 0:
                owners[i]->Set();
                set[i] = true;
                break;
            case 1:
                owners[i]->Clear();
                set[i] = false;
                break;
            case 2:
            {
                auto* target = owners[j].get();
                *owners[i] = std::move(*target);
                const bool v = set[j];
                set[j] = false;
                set[i] = v;
                ++moves;
                break;
            }
            case 3:
            {
                owners.push_back(std::make_unique<FlagOwner>(std::move(*owners[i])));
                std::swap(owners[i], owners.back());
                // the old one is now the last: it must be clear
                PBT_CHECK(ctx, !owners.back()->IsSet(), "a moved-from flag owner is set");
                owners.pop_back();
                ++moves;
                break;
            }
            case 4:
                // construct a new object from an old one
                if (in[i] >= 0)
                {
                    auto fresh = std::make_unique<Movable>(std::move(*objs[i]));
                    objs[i] = std::move(fresh);
                    ++moves;
                }
                break;
            default:
                // assign over another one: its reference is gone, the moved one's follows
                if (in[i] >= 0 && in[j] >= 0)
                {
                    auto* source = objs[j].get();
                    *objs[i] = std::move(*source);
                    if (i != j)
                    {
                        ref_valid[static_cast<std::size_t>(in[i])] = false;
                        in[i] = in[j];
                        where[static_cast<std::size_t>(in[i])] = i;
                        in[j] = -1;
                    }
                    ++moves;
                }
                break;
        }
        for (std::uint64_t x = 0; x < n; ++x)
        {
            PBT_CHECK(ctx, owners[x]->IsSet() == set[x], "flag %llu is %d, expected %d", static_cast<unsigned long long>(x), owners[x]->IsSet(), static_cast<bool>(set[x]));
            if (ref_valid[x])
            {
                Movable& m = refs[x]->Get();
                const auto& cr = *refs[x];
                PBT_CHECK(ctx, &m == objs[where[x]].get() && &cr.Get() == &m && m.id == x, "the reference to object %llu does not follow it", static_cast<unsigned long long>(x));
                PBT_CHECK(ctx, &m.GetReferenceToMoveable() == refs[x], "a moved object has another reference");
            }
        }
    }
    if (moves > 2)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%u moves of %llu", moves, static_cast<unsigned long long>(n));
}

PBT_PROPERTY(method_element_pointers, 1500000, 40000000)
{
    // elements in a queue: an element is active exactly while a pointer to it exists
    constexpr std::size_t kQ = 4;
    std::array<int, kQ> ints{};
    std::array<double, kQ> doubles{};
    std::array<bool, kQ> active{};
    struct Held
    {
        std::size_t pos;
        std::unique_ptr<MethodInArgPtr<int>> a;
        std::unique_ptr<MethodReturnTypePtr<double>> r;
    };
    std::vector<Held> held;
    std::array<bool, kQ> model{};
    unsigned converted{0};
    const auto steps = 1 + src.Below(16);
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        switch (src.Below(5))
        {
            case 0:
            case 1:
            {
                const auto pos = src.Below(kQ);
                if (!model[pos])
                {
                    Held h{pos, nullptr, nullptr};
                    if (src.Bool())
                    {
                        h.a = std::make_unique<MethodInArgPtr<int>>(ints[pos], active[pos], pos);
                    }
                    else
                    {
                        h.r = std::make_unique<MethodReturnTypePtr<double>>(doubles[pos], active[pos], pos);
                    }
                    held.push_back(std::move(h));
                    model[pos] = true;
                }
                break;
            }
            case 2:
                if (!held.empty())
                {
                    auto& h = held[src.Below(held.size())];
                    if (h.a)
                    {
                        auto m = std::make_unique<MethodInArgPtr<int>>(std::move(*h.a));
                        PBT_CHECK(ctx, h.a->get() == nullptr, "a moved-from pointer still points");
                        h.a = std::move(m);
                    }
                    else
                    {
                        auto m = std::make_unique<MethodReturnTypePtr<double>>(std::move(*h.r));
                        PBT_CHECK(ctx, h.r->get() == nullptr, "a moved-from pointer still points");
                        h.r = std::move(m);
                    }
                }
                break;
            case 3:
                // the argument's slot becomes the result's
                if (!held.empty())
                {
                    auto& h = held[src.Below(held.size())];
                    if (h.a)
                    {
                        h.r = std::make_unique<MethodReturnTypePtr<double>>(doubles[h.pos], std::move(*h.a));
                        PBT_CHECK(ctx, h.a->get() == nullptr, "a converted-from pointer still points");
                        h.a.reset();
                        ++converted;
                    }
                    else
                    {
                        h.a = std::make_unique<MethodInArgPtr<int>>(ints[h.pos], std::move(*h.r));
                        PBT_CHECK(ctx, h.r->get() == nullptr, "a converted-from pointer still points");
                        h.r.reset();
                        ++converted;
                    }
                }
                break;
            default:
                if (!held.empty())
                {
                    const auto i = src.Below(held.size());
                    model[held[i].pos] = false;
                    held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
                }
                break;
        }
        for (std::size_t p = 0; p < kQ; ++p)
        {
            PBT_CHECK(ctx, active[p] == model[p], "element %zu is %s", p, active[p] ? "still active" : "no longer active");
        }
        for (auto& h : held)
        {
            if (h.a)
            {
                PBT_CHECK(ctx, h.a->get() == &ints[h.pos] && &**h.a == &ints[h.pos] && h.a->operator->() == &ints[h.pos] && h.a->GetQueuePosition() == h.pos, "argument pointer of %zu", h.pos);
            }
            else
            {
                PBT_CHECK(ctx, h.r->get() == &doubles[h.pos] && &**h.r == &doubles[h.pos] && h.r->operator->() == &doubles[h.pos] && h.r->GetQueuePosition() == h.pos, "result pointer of %zu", h.pos);
            }
        }
    }
    if (converted > 0 && held.size() > 0)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu held, %u converted", held.size(), converted);
}

namespace
{
template <typename T>
void CopyableHistory(pbt::Src& src, pbt::Ctx& ctx)
{
    std::vector<std::unique_ptr<CopyableAtomic<T>>> v;
    std::vector<T> m;
    for (int i = 0; i < 3; ++i)
    {
        const T x = static_cast<T>(src.Int<std::uint64_t>());
        v.push_back(std::make_unique<CopyableAtomic<T>>(x));
        m.push_back(x);
    }
    const auto steps = 1 + src.Below(10);
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const auto i = src.Below(3), j = src.Below(3);
        switch (src.Below(5))
        {
            case 0:
            {
                const auto& from = *v[j];
                *v[i] = from;
                m[i] = m[j];
                break;
            }
            case 1:
                v[i] = std::make_unique<CopyableAtomic<T>>(*v[j]);
                m[i] = m[j];
                break;
            case 2:
            {
                const T x = static_cast<T>(src.Int<std::uint64_t>());
                v[i]->GetUnderlying().store(x);
                m[i] = x;
                break;
            }
            case 3:
                PBT_CHECK(ctx, v[i]->GetUnderlying().fetch_add(static_cast<T>(1)) == m[i], "fetch_add returns another value");
                m[i] = static_cast<T>(m[i] + 1);
                break;
            default:
            {
                std::vector<CopyableAtomic<T>> many(3, *v[i]);
                PBT_CHECK(ctx, static_cast<T>(many[2]) == m[i], "a copy in a vector has another value");
                break;
            }
        }
        for (int x = 0; x < 3; ++x)
        {
            const auto& c = *v[x];
            PBT_CHECK(ctx, static_cast<T>(c) == m[x] && c.GetUnderlying().load() == m[x], "value %d differs from the model", x);
        }
    }
}

template <typename R, typename... A>
struct Sig
{
    R operator()(A...) const;
};
template <typename R, typename... A>
struct SigMut
{
    R operator()(A...);
};
template <typename R, typename... A>
struct SigNoexcept
{
    R operator()(A...) const noexcept;
};
template <typename R, typename... A>
struct SigMutNoexcept
{
    R operator()(A...) noexcept;
};
template <template <typename, typename...> class S, typename R, typename... A>
constexpr bool Traits()
{
    using F = S<R, A...>;
    return std::is_same_v<typename get_callable_args_types<F>::type, std::tuple<A...>> && std::is_same_v<typename get_callable_args_types<F&>::type, std::tuple<A...>> &&
           std::is_same_v<typename get_callable_args_types<const F&>::type, std::tuple<A...>> && std::is_same_v<typename get_callable_return_type<F>::type, R> &&
           std::is_same_v<typename get_callable_return_type<F&&>::type, R>;
}
template <typename R, typename... A>
constexpr bool AllTraits()
{
    return Traits<Sig, R, A...>() && Traits<SigMut, R, A...>() && Traits<SigNoexcept, R, A...>() && Traits<SigMutNoexcept, R, A...>();
}
template <typename... Tags>
bool Tags3(bool n, bool s, bool g)
{
    const auto t = FieldTagsStore::Create<Tags...>();
    return t.HasNotifier() == n && t.HasSetter() == s && t.HasGetter() == g;
}
}  // namespace

PBT_PROPERTY(copyable_and_traits, 1500000, 40000000)
{
    switch (src.Below(4))
    {
        case 0:
            CopyableHistory<std::uint8_t>(src, ctx);
            break;
        case 1:
            CopyableHistory<std::int32_t>(src, ctx);
            break;
        case 2:
            CopyableHistory<std::uint16_t>(src, ctx);
            break;
        default:
            CopyableHistory<std::uint64_t>(src, ctx);
            break;
    }
    // compile-time facts, evaluated so that a wrong one is a finding and not a build failure
    PBT_CHECK(ctx, (AllTraits<void>() && AllTraits<int, int>() && AllTraits<void, int&, const double&>() && AllTraits<const char*, std::string&&, const int*>() &&
                    AllTraits<std::unique_ptr<int>, std::unique_ptr<int>>()), "argument or result types of a callable");
    PBT_CHECK(ctx, (is_tuple_empty_t<std::tuple<>>::value && !is_tuple_empty_t<std::tuple<int>>::value && !is_tuple_empty_t<std::tuple<int, int>>::value), "empty tuples");
    PBT_CHECK(ctx, (std::is_same_v<get_tuple_tail_t<std::tuple<int, char&, double>>, std::tuple<char&, double>> && std::is_same_v<get_tuple_tail_t<std::tuple<int>>, std::tuple<>>), "tuple tail");
    PBT_CHECK(ctx, (Tags3<>(false, false, false) && Tags3<WithNotifier>(true, false, false) && Tags3<WithSetter>(false, true, false) && Tags3<WithGetter>(false, false, true) &&
                    Tags3<WithGetter, WithNotifier>(true, false, true) && Tags3<WithSetter, WithNotifier>(true, true, false) && Tags3<WithSetter, WithGetter>(false, true, true) &&
                    Tags3<WithGetter, WithSetter, WithNotifier>(true, true, true)), "field tags");
    const std::array<FieldTagsStore, 8> stores{FieldTagsStore::Create<>(), FieldTagsStore::Create<WithNotifier>(), FieldTagsStore::Create<WithSetter>(), FieldTagsStore::Create<WithSetter, WithNotifier>(),
                                               FieldTagsStore::Create<WithGetter>(), FieldTagsStore::Create<WithGetter, WithNotifier>(), FieldTagsStore::Create<WithGetter, WithSetter>(),
                                               FieldTagsStore::Create<WithGetter, WithSetter, WithNotifier>()};
    const auto a = src.Below(8), b = src.Below(8);
    PBT_CHECK(ctx, (stores[a] == stores[b]) == (a == b), "tag sets %llu and %llu compare wrongly", static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
    PBT_CHECK(ctx, (is_tag_enabled<int, int, WithSetter, WithGetter, WithSetter>::value && !is_tag_enabled<int, long, WithSetter, WithSetter>::value && !is_tag_enabled<int, int, WithSetter, WithGetter>::value &&
                    !is_tag_enabled<int, int, WithSetter>::value), "enabled tags");
    PBT_CHECK(ctx, (add_without_overflow<std::uint8_t, 200, 55>() == 255 && multiply_without_overflow<std::uint8_t, 51, 5>() == 255 && add_without_overflow<std::uint64_t, 1, 2>() == 3), "checked arithmetic");
    const auto mt = static_cast<MethodType>(src.Below(6));
    const std::string want = mt == MethodType::kMethod ? "Method" : mt == MethodType::kGet ? "Get" : mt == MethodType::kSet ? "Set" : mt == MethodType::kUnknown ? "Unknown" : "Invalid";
    PBT_CHECK(ctx, to_string(mt) == want, "method type %u reads %s", static_cast<unsigned>(mt), std::string{to_string(mt)}.c_str());
    ctx.NonTrivial();
}

PBT_PROPERTY(element_views_and_handles, 1500000, 40000000)
{
    // a view follows the map it was made for
    using View = ServiceElementMapView<int>;
    std::map<std::string_view, int> map;
    static const char* const kNames[] = {"", "a", "ab", "b", "event_one", "event_two"};
    View view = ServiceElementMapViewFactory<int>::Create(map);
    const auto steps = 1 + src.Below(10);
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const std::string key = kNames[src.Below(6)];
        const char* const stable = *std::find_if(std::begin(kNames), std::end(kNames), [&](const char* s) { return key == s; });
        switch (src.Below(4))
        {
            case 0:
            case 1:
                map[stable] = static_cast<int>(src.Below(1000));
                break;
            case 2:
                map.erase(key);
                break;
            default:
            {
                auto it = view.find(key);
                if (it != view.end())
                {
                    it->second += 1;  // through the view
                    PBT_CHECK(ctx, map.at(key) == it->second, "a change through a view is not seen in the map");
                }
                break;
            }
        }
        const View copy{view};
        PBT_CHECK(ctx, view.size() == map.size() && view.empty() == map.empty(), "%zu elements seen, %zu expected", view.size(), map.size());
        PBT_CHECK(ctx, std::equal(view.begin(), view.end(), map.begin(), map.end()) && std::equal(copy.cbegin(), copy.cend(), map.begin(), map.end()), "the elements seen differ");
        for (const auto* n : kNames)
        {
            const auto it = copy.find(std::string_view{n});
            const auto mi = map.find(n);
            PBT_CHECK(ctx, (it == copy.cend()) == (mi == map.end()), "%s %s", n, mi == map.end() ? "found" : "not found");
            PBT_CHECK(ctx, mi == map.end() || it->second == mi->second, "%s has another value", n);
        }
    }
    // handles of searches
    std::vector<FindServiceHandle> hs;
    std::vector<std::size_t> ids;
    for (int i = 0; i < 4; ++i)
    {
        ids.push_back(src.Chance(1, 3) && !ids.empty() ? ids[src.Below(ids.size())] : src.Int<std::size_t>());
        hs.push_back(make_FindServiceHandle(ids.back()));
    }
    for (std::size_t i = 0; i < 4; ++i)
    {
        PBT_CHECK(ctx, FindServiceHandleView{hs[i]}.getUid() == ids[i], "another id in the handle");
        std::ostringstream os;
        os << hs[i];
        PBT_CHECK(ctx, os.str() == std::to_string(ids[i]), "handle printed as %s", os.str().c_str());
        for (std::size_t j = 0; j < 4; ++j)
        {
            PBT_CHECK(ctx, (hs[i] == hs[j]) == (ids[i] == ids[j]) && (hs[i] < hs[j]) == (ids[i] < ids[j]), "handles of %zu and %zu compare wrongly", ids[i], ids[j]);
            PBT_CHECK(ctx, ids[i] != ids[j] || std::hash<FindServiceHandle>{}(hs[i]) == std::hash<FindServiceHandle>{}(hs[j]), "equal handles, different hashes");
        }
    }
    // sums with overflow
    {
        const auto n = src.Below(6);
        std::vector<std::uint16_t> v;
        std::uint64_t sum = src.Int<std::uint16_t>();
        const auto init = static_cast<std::uint16_t>(sum);
        std::uint16_t stored{init};
        bool over{false};
        for (std::uint64_t i = 0; i < n; ++i)
        {
            v.push_back(src.Bool() ? static_cast<std::uint16_t>(src.Below(40000)) : static_cast<std::uint16_t>(std::min<std::uint64_t>(65535, 65535 - std::min<std::uint64_t>(sum, 65535) + src.Below(2))));
            sum += v.back();
            over = over || sum > 65535;
            if (!over)
            {
                stored = static_cast<std::uint16_t>(sum);
            }
        }
        const auto r = tracing::configuration::Accumulate(v.begin(), v.end(), init);
        PBT_CHECK(ctx, r.second == over, "the sum %llu %s", static_cast<unsigned long long>(sum), over ? "is not seen to overflow" : "is reported as overflow");
        PBT_CHECK(ctx, over || r.first == stored, "the sum is %u, expected %u", r.first, stored);
        const std::list<std::uint16_t> l(v.begin(), v.end());
        const auto rl = tracing::configuration::Accumulate(l.begin(), l.end(), init);
        PBT_CHECK(ctx, rl == r, "the sum over a list differs");
    }
    if (map.size() > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu elements", map.size());
}

// ---------------------------------------------------------------------------------------------- argument storage

namespace
{
struct Odd
{
    std::uint8_t b[3];
};
struct alignas(32) Wide
{
    std::uint64_t v[4];
};
template <typename T>
T Make(pbt::Src& src)
{
    T t{};
    auto* p = reinterpret_cast<unsigned char*>(&t);
    for (std::size_t i = 0; i < sizeof(T); ++i)
    {
        p[i] = static_cast<unsigned char>(src.Below(256));
    }
    return t;
}
template <>
bool Make<bool>(pbt::Src& src)
{
    return src.Bool();
}
template <typename T>
bool Same(const T& a, const T& b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename... A>
void StorageCase(pbt::Src& src, pbt::Ctx& ctx)
{
    std::tuple<A...> values{Make<A>(src)...};
    constexpr auto info = CreateDataTypeSizeInfoFromTypes<A...>();
    const auto by_value = std::apply([](auto... a) { return CreateDataTypeSizeInfoFromValues(a...); }, values);
    std::size_t align{0};
    ((align = std::max(align, alignof(A))), ...);
    PBT_CHECK(ctx, info.Alignment() == align, "alignment %zu, expected %zu", info.Alignment(), align);
    PBT_CHECK(ctx, by_value.Size() == info.Size() && by_value.Alignment() == info.Alignment(), "size by values differs from size by types");
    PBT_CHECK(ctx, info.Size() % align == 0, "size %zu is no multiple of the alignment %zu", info.Size(), align);
    // the same layout as a structure
    std::size_t end{0};
    ((end = (end + alignof(A) - 1) / alignof(A) * alignof(A) + sizeof(A)), ...);
    const auto want = (end + align - 1) / align * align;
    PBT_CHECK(ctx, info.Size() == want, "size %zu, expected %zu", info.Size(), want);
    constexpr std::size_t kGuard = 64;
    const auto size = info.Size();
    std::vector<unsigned char> raw(size + 2 * kGuard + 64, 0xA5);
    auto base = reinterpret_cast<std::uintptr_t>(raw.data()) + kGuard;
    base = (base + 63) / 64 * 64;
    auto* buf = reinterpret_cast<unsigned char*>(base);
    const auto span = score::cpp::span<std::byte>{reinterpret_cast<std::byte*>(buf), size};
    std::apply([&](auto&... a) { SerializeArgs(span, a...); }, values);
    for (std::size_t i = 0; i < raw.size(); ++i)
    {
        const auto* p = raw.data() + i;
        PBT_CHECK(ctx, (p >= buf && p < buf + size) || *p == 0xA5, "a byte outside the buffer of %zu was written", size);
    }
    const auto ptrs = DeserializeArgs<A...>(span);
    std::apply(
        [&](auto*... p) {
            std::apply(
                [&](auto&... a) {
                    bool ok{true};
                    ((ok = ok && Same(*p, a) && reinterpret_cast<std::uintptr_t>(p) % alignof(std::remove_reference_t<decltype(a)>) == 0), ...);
                    PBT_CHECK(ctx, ok, "an argument read back differs or is misaligned");
                    // no overlaps, all inside
                    std::vector<std::pair<const unsigned char*, std::size_t>> parts{{reinterpret_cast<const unsigned char*>(p), sizeof(a)}...};
                    const unsigned char* last = buf;
                    for (auto& x : parts)
                    {
                        PBT_CHECK(ctx, x.first >= last && x.first + x.second <= buf + size, "arguments overlap or leave the buffer");
                        last = x.first + x.second;
                    }
                },
                values);
        },
        ptrs);
    if (src.Chance(1, 3000) && size > 0)
    {
        ctx.Count("too_small", 1);
        const auto used = end;
        const auto small = src.Below(used);
        const auto sspan = score::cpp::span<std::byte>{reinterpret_cast<std::byte*>(buf), small};
        PBT_CHECK(ctx, pbt::Dies([&] { std::apply([&](auto&... a) { SerializeArgs(sspan, a...); }, values); }), "%zu bytes were written to a buffer of %llu", used, static_cast<unsigned long long>(small));
    }
    if (sizeof...(A) > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu arguments in %zu bytes", sizeof...(A), size);
}
template <typename T>
void StorageOne(pbt::Src& src, pbt::Ctx& ctx)
{
    StorageCase<T>(src, ctx);
    alignas(64) std::array<std::byte, 128> buf{};
    T v = Make<T>(src);
    SerializeArgs(score::cpp::span<std::byte>{buf.data(), sizeof(T)}, v);
    auto* p = DeserializeArg<T>(score::cpp::span<std::byte>{buf.data(), sizeof(T)});
    PBT_CHECK(ctx, Same(*p, v), "a single argument read back differs");
}
}  // namespace

PBT_PROPERTY(argument_storage, 1500000, 40000000)
{
    using u8 = std::uint8_t;
    using u16 = std::uint16_t;
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;
    switch (src.Below(16))
    {
        case 0: StorageOne<u8>(src, ctx); break;
        case 1: StorageOne<u64>(src, ctx); break;
        case 2: StorageOne<Wide>(src, ctx); break;
        case 3: StorageCase<u8, u64>(src, ctx); break;
        case 4: StorageCase<u64, u8>(src, ctx); break;
        case 5: StorageCase<u8, u16, u32, u64>(src, ctx); break;
        case 6: StorageCase<u64, u32, u16, u8>(src, ctx); break;
        case 7: StorageCase<Odd, u16, Odd, u32>(src, ctx); break;
        case 8: StorageCase<u8, Wide, u8>(src, ctx); break;
        case 9: StorageCase<bool, double, bool, float>(src, ctx); break;
        case 10: StorageCase<Odd, Odd, Odd>(src, ctx); break;
        case 11: StorageCase<u16, u8, u64, u8, u32, Odd>(src, ctx); break;
        case 12: StorageCase<Wide, Odd, Wide>(src, ctx); break;
        case 13: StorageCase<u32, u32>(src, ctx); break;
        case 14: StorageCase<char, std::int64_t, char, std::int16_t, char>(src, ctx); break;
        default: StorageCase<std::array<u16, 5>, u32, Odd, double>(src, ctx); break;
    }
}

// -------------------------------------------------------------------------------------------------- services

namespace
{
template <int N>
struct Service
{
    explicit Service(int v = 0) : value{v} {}
    int value;
};
template <typename T>
using Deco = score::mw::service::backend::mw_com::ProvidedServiceDecorator<T>;
template <typename T>
struct OtherDeco
{
};
}  // namespace

PBT_PROPERTY(provided_services, 1500000, 40000000)
{
    using namespace score::mw::service;
    using Set = score::mw::service::ProvidedServices<Deco>;
    std::vector<std::unique_ptr<Set>> sets;
    std::vector<std::size_t> count;
    for (int i = 0; i < 3; ++i)
    {
        sets.push_back(std::make_unique<Set>());
        count.push_back(0);
    }
    std::vector<std::unique_ptr<ProvidedServiceContainer>> cs;
    std::vector<std::optional<std::size_t>> cc;
    const auto steps = 1 + src.Below(16);
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const auto i = src.Below(3), j = src.Below(3);
        switch (src.Below(7))
        {
            case 0:
            {
                auto& r = sets[i]->Add<Service<1>>(1);
                PBT_CHECK(ctx, &r == sets[i].get(), "Add returns another set");
                ++count[i];
                break;
            }
            case 1:
                sets[i]->Add<Service<2>>().Add<Service<2>>(3);
                count[i] += 2;
                break;
            case 2:
            {
                auto fresh = std::make_unique<Set>(Set{}.Add<Service<1>>().Add<Service<2>>());
                sets[i] = std::move(fresh);
                count[i] = 2;
                break;
            }
            case 3:
                if (i != j)
                {
                    sets[i]->Swap(*sets[j]);
                    std::swap(count[i], count[j]);
                }
                break;
            case 4:
                cs.push_back(std::make_unique<ProvidedServiceContainer>(std::move(*sets[i])));
                cc.push_back(count[i]);
                sets[i] = std::make_unique<Set>();
                count[i] = 0;
                break;
            case 5:
                if (cs.size() >= 2)
                {
                    const auto a = src.Below(cs.size()), b = src.Below(cs.size());
                    if (a != b)
                    {
                        *cs[a] = std::move(*cs[b]);
                        cc[a] = cc[b];
                        cc[b] = std::nullopt;
                    }
                }
                break;
            default:
            {
                ProvidedServiceBuilder b;
                const auto n = src.Below(4);
                for (std::uint64_t x = 0; x < n; ++x)
                {
                    b.With(Service<1>{static_cast<int>(x)});
                }
                cs.push_back(std::make_unique<ProvidedServiceContainer>(b.GetServices()));
                cc.push_back(n);
                break;
            }
        }
        for (int x = 0; x < 3; ++x)
        {
            PBT_CHECK(ctx, sets[x]->Count() == count[x], "%zu services counted, %zu added", sets[x]->Count(), count[x]);
        }
        for (std::size_t x = 0; x < cs.size(); ++x)
        {
            const auto want = cc[x].value_or(0);
            const auto& c = *cs[x];
            PBT_CHECK(ctx, c.NumServices() == want, "a container has %zu services, %zu expected", c.NumServices(), want);
            cs[x]->StartServices();
            cs[x]->StopServices();
            PBT_CHECK(ctx, c.NumServices() == want, "starting and stopping changed the number of services");
            PBT_CHECK(ctx, c.GetServices<OtherDeco>() == nullptr, "services of another kind found");
        }
    }
    ProvidedServiceContainer empty{};
    PBT_CHECK(ctx, empty.NumServices() == 0 && empty.GetServices<Deco>() == nullptr, "an empty container has services");
    // the decorator owns the service it was made with
    const int v = static_cast<int>(src.Below(1000));
    auto d = Deco<Service<3>>::Create(v);
    auto* p = d.GetService();
    PBT_CHECK(ctx, p != nullptr && p->value == v && d.GetServicePtr() == p, "another service than the created one");
    Deco<Service<3>> d2{std::move(d)};
    PBT_CHECK(ctx, d2.GetService() == p && d.GetService() == nullptr && d.GetServicePtr() == nullptr, "moving a service");
    Deco<Service<3>> d3{Service<3>{v + 1}};
    d3 = std::move(d2);
    const auto& cd3 = d3;
    PBT_CHECK(ctx, cd3.GetService() == p && cd3.GetServicePtr() == p && p->value == v, "assigning a service");
    if (cs.size() > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu containers", cs.size());
}

// -------------------------------------------------------------------------------------------------- addresses

PBT_PROPERTY(socket_addresses, 1500000, 40000000)
{
    using A = score::message_passing::detail::UnixDomainSocketAddress;
    constexpr std::size_t kMax = sizeof(sockaddr_un::sun_path);
    auto gen = [&] {
        std::string s;
        const auto len = src.Chance(1, 2) ? src.Below(12) : kMax - 4 + src.Below(8);
        for (std::uint64_t i = 0; i < len; ++i)
        {
            s.push_back("abc/._\x7f\xff"[src.Below(8)]);
        }
        return s;
    };
    const auto p1 = gen();
    auto p2 = src.Chance(1, 2) ? p1 : gen();
    if (!p2.empty() && src.Chance(1, 3))
    {
        p2[src.Below(p2.size())] = 'z';
    }
    if (src.Chance(1, 6))
    {
        p2.push_back('y');
    }
    const bool a1 = src.Bool(), a2 = src.Bool();
    const A x{p1, a1}, y{p2, a2};
    auto fits = [&](const std::string& p, bool a) { return p.size() <= kMax - 1U - (a ? 1U : 0U); };
    auto check = [&](const A& a, const std::string& p, bool abstract) {
        const auto* un = reinterpret_cast<const sockaddr_un*>(a.data());
        PBT_CHECK(ctx, un->sun_family == AF_UNIX && A::size() == sizeof(sockaddr_un), "family or size");
        PBT_CHECK(ctx, a.IsAbstract() == (abstract || p.empty()), "abstract %d", a.IsAbstract());
        PBT_CHECK(ctx, un->sun_path[kMax - 1] == 0, "the path is not terminated");
        const std::string got{a.GetAddressString()};
        const auto room = kMax - 1U - (abstract ? 1U : 0U);
        PBT_CHECK(ctx, p.substr(0, room) == got, "address reads %s for %s", got.c_str(), p.c_str());
        // nothing but the path is in the address
        for (std::size_t i = (abstract ? 1U : 0U) + got.size(); i < kMax; ++i)
        {
            PBT_CHECK(ctx, un->sun_path[i] == 0, "garbage behind the path");
        }
    };
    check(x, p1, a1);
    check(y, p2, a2);
    if (fits(p1, a1) && fits(p2, a2))
    {
        const bool same = p1 == p2 && (a1 == a2 || p1.empty());
        PBT_CHECK(ctx, (std::memcmp(x.data(), y.data(), A::size()) == 0) == same, "addresses of %s%s and %s%s are %s", a1 ? "@" : "", p1.c_str(), a2 ? "@" : "", p2.c_str(), same ? "different" : "equal");
        if (p1 != p2)
        {
            ctx.NonTrivial();
        }
    }
    ctx.Note("%s%s %s%s", a1 ? "@" : "", p1.c_str(), a2 ? "@" : "", p2.c_str());
}

PBT_PROPERTY(region_bounds, 1500000, 40000000)
{
    using B = score::memory::shared::MemoryRegionBounds;
    std::vector<B> v;
    std::vector<std::pair<std::uintptr_t, std::uintptr_t>> m;
    auto addr = [&]() -> std::uintptr_t { return src.Chance(1, 4) ? 1 + src.Below(3) : std::max<std::uintptr_t>(1, src.Int<std::uintptr_t>()); };
    for (int i = 0; i < 3; ++i)
    {
        if (src.Bool())
        {
            const auto a = addr(), b = addr();
            v.emplace_back(a, b);
            m.emplace_back(a, b);
        }
        else
        {
            v.emplace_back();
            m.emplace_back(0, 0);
        }
    }
    const auto steps = 1 + src.Below(8);
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const auto i = src.Below(3), j = src.Below(3);
        switch (src.Below(4))
        {
            case 0:
            {
                const auto a = addr(), b = addr();
                v[i].Set(a, b);
                m[i] = {a, b};
                break;
            }
            case 1:
                v[i].Reset();
                m[i] = {0, 0};
                break;
            case 2:
                v[i] = v[j];
                m[i] = m[j];
                break;
            default:
                if (src.Chance(1, 3000))
                {
                    ctx.Count("forbidden", 1);
                    const auto a = addr();
                    const bool first = src.Bool();
                    PBT_CHECK(ctx, pbt::Dies([&] { v[i].Set(first ? a : 0, first ? 0 : a); }), "bounds with one address only were accepted");
                }
                break;
        }
        for (std::size_t x = 0; x < 3; ++x)
        {
            PBT_CHECK(ctx, v[x].GetStartAddress() == m[x].first && v[x].GetEndAddress() == m[x].second, "bounds read back differ");
            PBT_CHECK(ctx, v[x].has_value() == (m[x].first != 0), "bounds %s", m[x].first != 0 ? "have no value" : "have a value");
            for (std::size_t y = 0; y < 3; ++y)
            {
                PBT_CHECK(ctx, (v[x] == v[y]) == (m[x] == m[y]) && (v[x] != v[y]) == (m[x] != m[y]), "bounds compare wrongly");
            }
        }
    }
    ctx.NonTrivial();
    ctx.Note("%llu steps", static_cast<unsigned long long>(steps));
}

PBT_PROPERTY(socket_ownership, 300000, 6000000)
{
    using score::mw::com::gateway::UniqueSocket;
    // every descriptor is closed exactly once, when its owner gives it up, and none other is
    std::vector<std::unique_ptr<UniqueSocket>> s;
    std::vector<int> m;
    std::vector<int> peers;
    std::vector<int> gone;
    auto open_fd = [&] {
        int p[2];
        PBT_CHECK(ctx, socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair");
        // also descriptor 0, which is as good as any other
        if (p[0] == 0 && src.Chance(1, 2))
        {
            peers.push_back(p[1]);
            return 0;
        }
        // a number that is not used again soon
        const int hi = fcntl(p[0], F_DUPFD, 300 + static_cast<int>(gone.size() + m.size()) * 3 + static_cast<int>(peers.size()) * 7);
        close(p[0]);
        peers.push_back(p[1]);
        return hi;
    };
    auto is_open = [](int fd) { return fcntl(fd, F_GETFD) >= 0; };
    close(0);
    for (int i = 0; i < 3; ++i)
    {
        if (src.Bool())
        {
            const int fd = open_fd();
            s.push_back(std::make_unique<UniqueSocket>(fd));
            m.push_back(fd);
        }
        else
        {
            s.push_back(std::make_unique<UniqueSocket>());
            m.push_back(-1);
        }
    }
    unsigned moves{0};
    const auto steps = 1 + src.Below(10);
    std::set<int> shut;
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        const auto i = src.Below(3), j = src.Below(3);
        switch (src.Below(7))
        {
            case 0:
            {
                auto* from = s[j].get();
                *s[i] = std::move(*from);
                if (i != j)
                {
                    if (m[i] >= 0)
                    {
                        gone.push_back(m[i]);
                    }
                    m[i] = m[j];
                    m[j] = -1;
                }
                ++moves;
                break;
            }
            case 1:
            {
                auto n = std::make_unique<UniqueSocket>(std::move(*s[i]));
                PBT_CHECK(ctx, !s[i]->IsValid() && s[i]->Get() == -1, "a moved-from socket still owns a descriptor");
                s[i] = std::move(n);
                ++moves;
                break;
            }
            case 2:
                s[i]->Reset();
                if (m[i] >= 0)
                {
                    gone.push_back(m[i]);
                }
                m[i] = -1;
                break;
            case 3:
            {
                const int fd = open_fd();
                s[i]->Reset(fd);
                if (m[i] >= 0)
                {
                    gone.push_back(m[i]);
                }
                m[i] = fd;
                break;
            }
            case 4:
            {
                // a reader that still uses the connection is woken up
                const int reader = m[i] >= 0 ? fcntl(m[i], F_DUPFD, 100) : -1;
                s[i]->ShutdownAndReset();
                if (m[i] >= 0)
                {
                    char c;
                    const auto got = recv(reader, &c, 1, MSG_DONTWAIT);
                    close(reader);
                    PBT_CHECK(ctx, got == 0, "a shut down socket still waits for data");
                    gone.push_back(m[i]);
                }
                m[i] = -1;
                break;
            }
            case 5:
                s[i]->ShutdownFd();
                if (m[i] >= 0)
                {
                    shut.insert(m[i]);
                    char c;
                    PBT_CHECK(ctx, recv(m[i], &c, 1, MSG_DONTWAIT) == 0, "a shut down socket still waits for data");
                }
                break;
            default:
                s[i] = std::make_unique<UniqueSocket>();
                if (m[i] >= 0)
                {
                    gone.push_back(m[i]);
                }
                m[i] = -1;
                break;
        }
        for (std::size_t x = 0; x < 3; ++x)
        {
            PBT_CHECK(ctx, s[x]->Get() == m[x] && s[x]->IsValid() == (m[x] >= 0) && static_cast<bool>(*s[x]) == (m[x] >= 0), "a socket owns %d, expected %d", s[x]->Get(), m[x]);
            PBT_CHECK(ctx, m[x] < 0 || is_open(m[x]), "descriptor %d was closed although it is owned", m[x]);
        }
        for (int fd : gone)
        {
            PBT_CHECK(ctx, std::find(m.begin(), m.end(), fd) != m.end() || !is_open(fd), "descriptor %d is still open although nobody owns it", fd);
        }
        gone.clear();
    }
    const auto last = m;
    s.clear();
    for (int fd : last)
    {
        PBT_CHECK(ctx, fd < 0 || !is_open(fd), "descriptor %d is still open after its owner is gone", fd);
    }
    for (int p : peers)
    {
        PBT_CHECK(ctx, is_open(p), "a descriptor of somebody else was closed");
        close(p);
    }
    if (moves > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%u moves", moves);
}
