// Reference accounting and futures under generated schedules.
#include "pbt.h"
#include "owned_sched.h"
#include "death.h"

#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include "score/mw/com/impl/sample_allocatee_tracker.h"
#include "score/mw/com/impl/sample_reference_tracker.h"

#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <vector>

using namespace score::mw::com::impl;

namespace
{
void CheckStats(pbt::Ctx& ctx, const sched::Stats& st)
{
    PBT_CHECK(ctx, !st.deadlock, "deadlock: a waiter is never woken up");
    PBT_CHECK(ctx, !st.overrun, "no progress: a task never ends");
    PBT_CHECK(ctx, st.race.empty(), "data race: %s", st.race.c_str());
    ctx.Count("switches", st.switches);
}
struct Step
{
    unsigned op;
    std::uint64_t a;
};
std::vector<Step> Steps(pbt::Src& src, unsigned max, unsigned ops)
{
    std::vector<Step> v;
    const auto n = 1 + src.Below(max);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        v.push_back({static_cast<unsigned>(src.Below(ops)), src.Below(6)});
    }
    return v;
}
}  // namespace

PBT_PROPERTY(sample_references, 1500000, 60000000)
{
    const std::size_t max = src.Below(7);
    std::unique_ptr<SampleReferenceTracker> tracker;
    if (src.Bool())
    {
        tracker = std::make_unique<SampleReferenceTracker>(max);
    }
    else
    {
        // limits are set when a subscription is made, possibly after another one
        tracker = std::make_unique<SampleReferenceTracker>(src.Below(9));
        tracker->Reset(max);
    }
    const auto n = 1 + src.Below(3);
    std::vector<std::vector<Step>> steps;
    struct Task
    {
        std::vector<TrackerGuardFactory> factories;
        std::vector<std::unique_ptr<SampleReferenceGuard>> guards;
        std::size_t owned{0};       // references this task certainly has
        std::size_t extra{0};       // references it may have on top (a call in progress)
        std::size_t Sum() const
        {
            std::size_t s{guards.size()};
            for (auto& f : factories)
            {
                s += f.GetNumAvailableGuards();
            }
            return s;
        }
    };
    std::vector<Task> tasks(n);
    struct Open
    {
        Task* t;
        std::size_t most{0};
    };
    std::vector<Open*> open;
    auto sample = [&] {
        for (auto* o : open)
        {
            std::size_t s{0};
            for (auto& t : tasks)
            {
                s += t.owned + t.extra;
            }
            o->most = std::max(o->most, s);
        }
    };
    std::uint64_t short_of{0}, taken{0};
    auto body = [&](Task& t, const std::vector<Step>& st) {
        for (auto& s : st)
        {
            sched::Point();
            switch (s.op)
            {
                case 0:
                case 1:
                {
                    const std::size_t k = s.a;
                    Open o{&t};
                    open.push_back(&o);
                    t.extra += k;
                    sample();
                    auto f = tracker->Allocate(k);
                    t.extra -= k;
                    open.erase(std::find(open.begin(), open.end(), &o));
                    const auto got = f.GetNumAvailableGuards();
                    t.owned += got;
                    taken += got;
                    sample();
                    PBT_CHECK(ctx, got <= k, "%zu guards for a request of %zu", got, k);
                    std::size_t all{0};
                    for (auto& x : tasks)
                    {
                        all += x.owned;
                    }
                    PBT_CHECK(ctx, all <= max, "%zu references are out, %zu are allowed", all, max);
                    if (got < k)
                    {
                        ++short_of;
                        // requests of others in progress may have taken up to what they asked for; so did this one
                        PBT_CHECK(ctx, o.most + got >= max + k || o.most >= max, "only %zu of %zu references granted although at most %zu of %zu were in use", got, k, o.most - k, max);
                    }
                    // guards may be taken through a moved factory
                    if (s.op == 1 && got > 0)
                    {
                        TrackerGuardFactory moved{std::move(f)};
                        PBT_CHECK(ctx, f.GetNumAvailableGuards() == 0 && !f.TakeGuard().has_value(), "a moved-from factory still gives guards");
                        PBT_CHECK(ctx, moved.GetNumAvailableGuards() == got, "a moved factory has another number of guards");
                        t.factories.push_back(std::move(moved));
                    }
                    else
                    {
                        t.factories.push_back(std::move(f));
                    }
                    break;
                }
                case 2:
                case 3:
                    if (!t.factories.empty())
                    {
                        auto& f = t.factories[s.a % t.factories.size()];
                        const auto before = f.GetNumAvailableGuards();
                        auto g = f.TakeGuard();
                        PBT_CHECK(ctx, g.has_value() == (before > 0), "a factory with %zu guards %s one", before, before > 0 ? "refused" : "gave");
                        if (g.has_value())
                        {
                            PBT_CHECK(ctx, f.GetNumAvailableGuards() == before - 1, "taking a guard left %zu of %zu", f.GetNumAvailableGuards(), before);
                            t.guards.push_back(std::make_unique<SampleReferenceGuard>(std::move(*g)));
                        }
                    }
                    break;
                case 4:
                    if (!t.factories.empty())
                    {
                        const auto i = s.a % t.factories.size();
                        TrackerGuardFactory gone{std::move(t.factories[i])};
                        const auto k = gone.GetNumAvailableGuards();
                        std::vector<TrackerGuardFactory> rest;
                        for (std::size_t j = 0; j < t.factories.size(); ++j)
                        {
                            if (j != i)
                            {
                                rest.push_back(std::move(t.factories[j]));
                            }
                        }
                        t.factories = std::move(rest);
                        t.owned -= k;
                        t.extra += k;
                        {
                            TrackerGuardFactory end{std::move(gone)};
                        }
                        t.extra -= k;
                        sample();
                    }
                    break;
                case 5:
                case 6:
                    if (!t.guards.empty())
                    {
                        const auto i = s.a % t.guards.size();
                        auto g = std::move(t.guards[i]);
                        t.guards.erase(t.guards.begin() + static_cast<std::ptrdiff_t>(i));
                        --t.owned;
                        ++t.extra;
                        if (s.a % 3 == 0)
                        {
                            // released through an assignment; a moved-from guard releases nothing
                            SampleReferenceGuard other{std::move(*g)};
                            other = SampleReferenceGuard{};
                        }
                        g.reset();
                        --t.extra;
                        sample();
                    }
                    break;
                case 7:
                    if (t.guards.size() >= 2)
                    {
                        // replacing one guard by another releases exactly the replaced one
                        --t.owned;
                        ++t.extra;
                        *t.guards[0] = std::move(*t.guards.back());
                        t.guards.pop_back();
                        --t.extra;
                        sample();
                    }
                    break;
                case 8:
                    // a guard assigned to itself keeps its reference
                    if (!t.guards.empty())
                    {
                        auto& self = *t.guards[s.a % t.guards.size()];
                        auto* same = &self;
                        self = std::move(*same);
                        PBT_CHECK(ctx, n > 1 || tracker->GetNumAvailableSamples() + t.owned == max, "%zu available with %zu of %zu in use, after a self-assignment", tracker->GetNumAvailableSamples(), t.owned, max);
                    }
                    break;
                default:
                    PBT_CHECK(ctx, tracker->GetNumAvailableSamples() <= max, "%zu available of %zu", tracker->GetNumAvailableSamples(), max);
                    break;
            }
        }
    };
    std::vector<std::function<void()>> fs;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        steps.push_back(Steps(src, 14, 10));
    }
    for (std::uint64_t i = 0; i < n; ++i)
    {
        fs.emplace_back([&, i] { body(tasks[i], steps[i]); });
    }
    const auto st = sched::Run(src, std::move(fs));
    CheckStats(ctx, st);
    std::size_t sum{0};
    for (auto& t : tasks)
    {
        PBT_CHECK(ctx, t.Sum() == t.owned, "a task owns %zu guards, %zu expected", t.Sum(), t.owned);
        sum += t.Sum();
    }
    PBT_CHECK(ctx, tracker->GetNumAvailableSamples() == max - sum, "%zu available with %zu of %zu in use", tracker->GetNumAvailableSamples(), sum, max);
    PBT_CHECK(ctx, tracker->IsUsed() == (sum > 0), "the tracker says %s with %zu references out", tracker->IsUsed() ? "used" : "unused", sum);
    ctx.Note("%zu of %zu references used by %llu tasks, %llu taken, %llu short", sum, max, static_cast<unsigned long long>(n), static_cast<unsigned long long>(taken),
             static_cast<unsigned long long>(short_of));
    if (n > 1 && st.preemptions > 0 && taken > 0 && short_of > 0)
    {
        ctx.NonTrivial();
    }
    tasks.clear();
    PBT_CHECK(ctx, tracker->GetNumAvailableSamples() == max && !tracker->IsUsed(), "%zu of %zu available after everything was given back", tracker->GetNumAvailableSamples(), max);
    const auto next = src.Below(9);
    tracker->Reset(next);
    const auto all = tracker->Allocate(next + 1).GetNumAvailableGuards();
    PBT_CHECK(ctx, all == next && tracker->GetNumAvailableSamples() == next, "%zu references after a reset to %llu", all, static_cast<unsigned long long>(next));
}

PBT_PROPERTY(allocation_counting, 1000000, 40000000)
{
    auto tracker = std::make_unique<SampleAllocateeTracker>();
    const auto n = 1 + src.Below(3);
    std::vector<std::vector<Step>> steps;
    std::vector<std::vector<SampleAllocateeGuard>> guards(n);
    std::size_t sure{0}, open{0};
    std::vector<std::function<void()>> fs;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        steps.push_back(Steps(src, 12, 6));
    }
    for (std::uint64_t i = 0; i < n; ++i)
    {
        fs.emplace_back([&, i] {
            auto& g = guards[i];
            g.reserve(64);
            for (auto& s : steps[i])
            {
                sched::Point();
                switch (s.op)
                {
                    case 0:
                    case 1:
                    case 2:
                        ++open;
                        g.push_back(tracker->Allocate());
                        --open;
                        ++sure;
                        break;
                    case 3:
                        if (!g.empty())
                        {
                            ++open;
                            --sure;
                            {
                                SampleAllocateeGuard x{std::move(g.back())};
                                g.pop_back();
                            }
                            --open;
                        }
                        break;
                    case 4:
                        if (g.size() >= 2)
                        {
                            ++open;
                            --sure;
                            g[0] = std::move(g.back());
                            g.pop_back();
                            --open;
                        }
                        break;
                    default:
                    {
                        // what was certainly allocated at the start or the end of the call bounds the number
                        const auto c = tracker->GetNumAllocated();
                        PBT_CHECK(ctx, n > 1 || c == sure, "%zu allocations counted, %zu are out", c, sure);
                        // a guard assigned to itself still counts
                        if (!g.empty())
                        {
                            auto& self = g[s.a % g.size()];
                            auto* same = &self;
                            self = std::move(*same);
                            PBT_CHECK(ctx, n > 1 || tracker->GetNumAllocated() == sure, "%zu allocations counted, %zu are out, after a self-assignment", tracker->GetNumAllocated(), sure);
                        }
                        break;
                    }
                }
            }
        });
    }
    const auto st = sched::Run(src, std::move(fs));
    CheckStats(ctx, st);
    std::size_t sum{0};
    for (auto& g : guards)
    {
        sum += g.size();
    }
    PBT_CHECK(ctx, tracker->GetNumAllocated() == sum, "%zu allocations counted, %zu are out", tracker->GetNumAllocated(), sum);
    if (n > 1 && st.preemptions > 0 && sum > 0)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu allocations out of %llu tasks", sum, static_cast<unsigned long long>(n));
    // the tracker may not disappear below its allocations
    if (sum > 0 && src.Chance(1, 2000))
    {
        ctx.Count("destroyed_in_use", 1);
        const auto keep = 1 + src.Below(sum);
        std::size_t left = sum;
        for (auto& g : guards)
        {
            while (!g.empty() && left > keep)
            {
                g.pop_back();
                --left;
            }
        }
        PBT_CHECK(ctx, pbt::Dies([&] { tracker.reset(); }), "a tracker with %zu allocations could be destroyed", left);
    }
    guards.clear();
    PBT_CHECK(ctx, tracker->GetNumAllocated() == 0, "%zu allocations counted after all were given back", tracker->GetNumAllocated());
}

PBT_PROPERTY(future_delivery, 1000000, 40000000)
{
    using score::message_passing::detail::NonAllocatingFuture;
    struct Value
    {
        std::uint64_t words[4]{};
        bool operator==(const Value& o) const
        {
            return std::equal(words, words + 4, o.words);
        }
    };
    std::mutex mutex;
    std::condition_variable cv;
    const auto n_futures = 1 + src.Below(3);
    struct One
    {
        Value value{};
        std::optional<NonAllocatingFuture<std::mutex, std::condition_variable, Value>> typed;
        std::optional<NonAllocatingFuture<std::mutex, std::condition_variable, void>> plain;
        std::uint64_t payload{0};
        bool marked{false};
        bool is_plain{false};
        unsigned how{0};
        Value want{};
    };
    std::deque<One> fs(n_futures);
    sched::ClearWatches();
    for (auto& f : fs)
    {
        f.is_plain = src.Chance(1, 3);
        f.how = static_cast<unsigned>(src.Below(4));
        for (auto& w : f.want.words)
        {
            w = src.U64();
        }
        if (f.is_plain)
        {
            f.plain.emplace(mutex, cv);
            sched::Watch(&f.plain, sizeof f.plain, "future");
            sched::Watch(&f.payload, sizeof f.payload, "payload");
        }
        else
        {
            f.typed.emplace(mutex, cv, f.value);
            sched::Watch(&f.typed, sizeof f.typed, "future");
            sched::Watch(&f.value, sizeof f.value, "value");
        }
    }
    const auto waiters = 1 + src.Below(3);
    std::uint64_t waited{0};
    std::vector<std::function<void()>> tasks;
    for (std::uint64_t w = 0; w < waiters; ++w)
    {
        std::vector<std::size_t> order;
        for (std::size_t i = 0; i < n_futures; ++i)
        {
            if (src.Chance(3, 4))
            {
                order.push_back(i);
            }
        }
        src.Shuffle(order);
        tasks.emplace_back([&, order] {
            for (auto i : order)
            {
                auto& f = fs[i];
                if (f.is_plain)
                {
                    f.plain->Wait();
                    PBT_CHECK(ctx, f.marked, "a future was ready before it was marked");
                    sched::TouchRead(&f.payload, sizeof f.payload);
                    PBT_CHECK(ctx, f.payload == 77, "the effect before marking is not visible after waiting");
                }
                else
                {
                    f.typed->Wait();
                    PBT_CHECK(ctx, f.marked, "a future was ready before it was marked");
                    sched::TouchRead(&f.value, sizeof f.value);
                    PBT_CHECK(ctx, f.typed->GetValue() == f.want, "another value than the one set was seen after waiting");
                }
                ++waited;
            }
        });
    }
    const auto setters = 1 + src.Below(2);
    for (std::uint64_t s = 0; s < setters; ++s)
    {
        tasks.emplace_back([&, s] {
            for (std::size_t i = s; i < n_futures; i += setters)
            {
                sched::Point();
                auto& f = fs[i];
                f.marked = true;
                if (f.is_plain)
                {
                    sched::TouchWrite(&f.payload, sizeof f.payload);
                    f.payload = 77;
                    f.plain->MarkReady();
                }
                else if (f.how == 0)
                {
                    sched::TouchWrite(&f.value, sizeof f.value);
                    f.typed->UpdateValueMarkReady(f.want);
                }
                else if (f.how == 1)
                {
                    sched::TouchWrite(&f.value, sizeof f.value);
                    f.typed->UpdateValueMarkReady(Value{f.want});
                }
                else
                {
                    sched::TouchWrite(&f.value, sizeof f.value);
                    f.typed->GetValueForUpdate() = f.want;
                    f.typed->MarkReady();
                }
            }
        });
    }
    const auto st = sched::Run(src, std::move(tasks));
    sched::ClearWatches();
    CheckStats(ctx, st);
    if (st.switches > 2 && waited > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%llu futures, %llu waits of %llu tasks", static_cast<unsigned long long>(n_futures), static_cast<unsigned long long>(waited), static_cast<unsigned long long>(waiters));
}
