// Shared memory building blocks under generated schedules: the lock-free bump allocator and the versioned map of regions.
#include "pbt.h"
#include "owned_sched.h"

#include "score/memory/shared/memory_region_map.h"
#include "score/memory/shared/shared_memory_factory.h"

#include <map>
#include <memory>
#include <string>
#include <unistd.h>

namespace
{
using namespace score::memory::shared;

std::shared_ptr<ISharedMemoryResource> NewRegion(std::size_t size)
{
    static int counter{0};
    const std::string path = "/vp_ms_" + std::to_string(getpid()) + "_" + std::to_string(++counter);
    auto resource = SharedMemoryFactory::Create(path, [](std::shared_ptr<ISharedMemoryResource>) {}, size);
    SharedMemoryFactory::Remove(path);
    return resource;
}

struct Got
{
    std::uintptr_t p;
    std::size_t bytes;
    std::size_t align;
};
}  // namespace

PBT_PROPERTY(allocator_schedules, 250000, 8000000)
{
    constexpr std::size_t kSize{64 * 1024};
    auto resource = NewRegion(kSize);
    const auto base = reinterpret_cast<std::uintptr_t>(resource->getUsableBaseAddress());
    const unsigned n = src.Range<unsigned>(2, 4);
    std::vector<std::vector<Got>> plan(n);
    for (auto& p : plan)
    {
        const unsigned k = src.Range<unsigned>(1, 6);
        for (unsigned i = 0; i < k; ++i)
        {
            p.push_back({0U, src.Range<std::size_t>(1, 300), std::size_t{1} << src.Below(7)});
        }
    }
    std::vector<std::function<void()>> tasks;
    std::string problem;
    for (unsigned t = 0; t < n; ++t)
    {
        tasks.push_back([&, t] {
            for (auto& g : plan[t])
            {
                g.p = reinterpret_cast<std::uintptr_t>(resource->allocate(g.bytes, g.align));
                sched::Point();
                const auto used = resource->GetUserAllocatedBytes();
                if (used < g.p + g.bytes - base)
                {
                    problem = "the region reports " + std::to_string(used) + " allocated bytes, a block already ends at " + std::to_string(g.p + g.bytes - base);
                }
            }
        });
    }
    tasks.push_back([&] {
        std::size_t last{0};
        for (int i = 0; i < 6; ++i)
        {
            const auto used = resource->GetUserAllocatedBytes();
            if (used < last)
            {
                problem = "allocated bytes went back from " + std::to_string(last) + " to " + std::to_string(used);
            }
            last = used;
            sched::Point();
        }
    });
    const auto stats = sched::Run(src, tasks);
    PBT_CHECK(ctx, !stats.deadlock && !stats.overrun, "schedule did not finish");
    PBT_CHECK(ctx, problem.empty(), "%s", problem.c_str());
    std::map<std::uintptr_t, Got> order;
    for (const auto& p : plan)
    {
        for (const auto& g : p)
        {
            PBT_CHECK(ctx, g.p % g.align == 0U, "a block is not aligned to %zu", g.align);
            PBT_CHECK(ctx, g.p >= base && g.p + g.bytes <= base + kSize, "a block leaves the region");
            PBT_CHECK(ctx, order.emplace(g.p, g).second, "the same block was handed out twice");
        }
    }
    std::uintptr_t end = base;
    for (const auto& o : order)
    {
        PBT_CHECK(ctx, o.first >= end, "two blocks overlap: one ends at %zu, the next starts at %zu", end - base, o.first - base);
        PBT_CHECK(ctx, o.first - end < o.second.align, "%zu bytes were lost between two blocks", o.first - end);
        end = o.first + o.second.bytes;
    }
    PBT_CHECK(ctx, resource->GetUserAllocatedBytes() == end - base, "the region reports %zu allocated bytes, %zu are", resource->GetUserAllocatedBytes(), end - base);
    ctx.Count("preemptions", stats.preemptions);
    if (stats.preemptions >= 2)
    {
        ctx.NonTrivial();
    }
}

namespace
{
using Regions = std::map<std::uintptr_t, std::uintptr_t>;

std::optional<std::pair<std::uintptr_t, std::uintptr_t>> Find(const Regions& r, std::uintptr_t at)
{
    auto it = r.upper_bound(at);
    if (it == r.begin())
    {
        return {};
    }
    --it;
    if (at > it->second)
    {
        return {};
    }
    return std::make_pair(it->first, it->second);
}
}  // namespace

PBT_PROPERTY(region_map_schedules, 300000, 9000000)
{
    auto map = std::make_unique<MemoryRegionMap>();
    sched::ClearWatches();
    sched::Watch(map.get(), 10 * sizeof(std::map<std::uintptr_t, std::uintptr_t>), "regions");
    // the writer's history is generated up front: states[i] is what holds after i operations
    struct Op
    {
        int kind;  // 0 add, 1 refused add, 2 remove, 3 clear
        std::uintptr_t b, e;
    };
    std::vector<Op> ops;
    std::vector<Regions> states{{}};
    const unsigned n = src.Range<unsigned>(1, 26);
    bool refused{false};
    for (unsigned i = 0; i < n; ++i)
    {
        auto s = states.back();
        Op op{0, 0, 0};
        const auto what = src.Weighted({6, 3, 1});
        if (what == 0 || s.empty())
        {
            op.b = src.Range<std::uintptr_t>(1, 30) * 16;
            op.e = op.b + src.Range<std::uintptr_t>(1, 3) * 16;
            if (s.count(op.b) != 0U)
            {
                continue;
            }
            bool overlap{false};
            for (const auto& r : s)
            {
                overlap |= op.b < r.second && r.first < op.e;
            }
            op.kind = overlap ? 1 : 0;
            refused |= overlap;
            if (!overlap)
            {
                s[op.b] = op.e;
            }
        }
        else if (what == 1)
        {
            auto it = s.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(src.Below(s.size())));
            op = {2, it->first, it->second};
            s.erase(it);
        }
        else
        {
            op.kind = 3;
            s.clear();
        }
        ops.push_back(op);
        states.push_back(std::move(s));
    }
    std::string problem;
    std::size_t started{0};
    std::size_t done{0};
    std::vector<std::function<void()>> tasks;
    tasks.push_back([&] {
        for (const auto& op : ops)
        {
            ++started;
            switch (op.kind)
            {
                case 0:
                case 1:
                    if (map->UpdateKnownRegion(op.b, op.e) != (op.kind == 0))
                    {
                        problem = op.kind == 0 ? "a region that overlaps none was refused" : "an overlapping region was accepted";
                    }
                    break;
                case 2:
                    map->RemoveKnownRegion(op.b);
                    break;
                default:
                    map->ClearKnownRegions();
                    break;
            }
            ++done;
            sched::Point();
        }
    });
    const unsigned readers = src.Range<unsigned>(1, 3);
    std::vector<std::vector<std::uintptr_t>> queries(readers);
    for (auto& q : queries)
    {
        const unsigned k = src.Range<unsigned>(1, 10);
        for (unsigned i = 0; i < k; ++i)
        {
            q.push_back(src.Chance(1, 5) ? 0U : src.Range<std::uintptr_t>(1, 34) * 16 + src.Below(3) - 1U);
        }
    }
    std::uint64_t across{0};
    for (unsigned r = 0; r < readers; ++r)
    {
        tasks.push_back([&, r] {
            for (const auto at : queries[r])
            {
                const auto from = done;
                bool fits{false};
                std::string got;
                if (at == 0U)
                {
                    const auto size = map->GetSize();
                    got = "size " + std::to_string(size);
                    for (auto i = from; i <= started; ++i)
                    {
                        fits |= states[i].size() == size;
                    }
                }
                else
                {
                    const auto bounds = map->GetBoundsFromAddress(at);
                    got = bounds.has_value() ? "[" + std::to_string(bounds->GetStartAddress()) + ", " + std::to_string(bounds->GetEndAddress()) + "]" : "no region";
                    for (auto i = from; i <= started; ++i)
                    {
                        const auto expected = Find(states[i], at);
                        fits |= expected.has_value() == bounds.has_value() &&
                                (!expected.has_value() || (expected->first == bounds->GetStartAddress() && expected->second == bounds->GetEndAddress()));
                    }
                }
                across += started - from;
                if (!fits)
                {
                    problem = "query " + std::to_string(at) + " answered " + got + ", which held at no moment between operations " + std::to_string(from) + " and " + std::to_string(started);
                }
                sched::Point();
            }
        });
    }
    const auto stats = sched::Run(src, tasks);
    PBT_CHECK(ctx, !stats.deadlock && !stats.overrun, "schedule did not finish");
    PBT_CHECK(ctx, problem.empty(), "%s", problem.c_str());
    PBT_CHECK(ctx, stats.race.empty(), "data race: %s", stats.race.c_str());
    for (std::uintptr_t at = 1; at < 560; at += 5)
    {
        const auto bounds = map->GetBoundsFromAddress(at);
        const auto expected = Find(states.back(), at);
        PBT_CHECK(ctx, bounds.has_value() == expected.has_value() && (!expected.has_value() || bounds->GetStartAddress() == expected->first), "address %zu wrong in the end", at);
    }
    PBT_CHECK(ctx, map->GetSize() == states.back().size(), "the map knows %zu regions in the end, %zu expected", map->GetSize(), states.back().size());
    sched::ClearWatches();
    ctx.Count("queries across an update", across);
    ctx.Label(refused ? "with refusals" : "plain");
    if (across > 0 && ops.size() >= 10U)
    {
        ctx.NonTrivial();
    }
}
