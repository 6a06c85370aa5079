// Shared memory building blocks against models: the bump allocator and its heap stand-in, containers that live in shared
// memory (read again through a second mapping), offset pointers with their bounds checks, and the registry of regions.
#include "pbt.h"
#include "death.h"

#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/map.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/new_delete_delegate_resource.h"
#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/pointer_arithmetic_util.h"
#include "score/memory/shared/polymorphic_offset_ptr_allocator.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/memory/shared/string.h"
#include "score/memory/shared/vector.h"
#include "score/memory/data_type_size_info.h"

#include <sys/mman.h>
#include <unistd.h>

#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace
{
using namespace score::memory::shared;

std::uint64_t g_anonymous_id{0x51000000U};

std::shared_ptr<ISharedMemoryResource> NewRegion(std::size_t size)
{
    static int counter{0};
    const std::string path = "/vp_mem_" + std::to_string(getpid()) + "_" + std::to_string(++counter);
    auto resource = SharedMemoryFactory::Create(path, [](std::shared_ptr<ISharedMemoryResource>) {}, size);
    SharedMemoryFactory::Remove(path);  // the mapping stays
    return resource;
}

struct Block
{
    unsigned char* p;
    std::size_t bytes;
    std::size_t align;
    unsigned char fill;
};

std::size_t PickAlign(pbt::Src& s)
{
    return std::size_t{1} << s.Below(7);  // 1 .. 64
}

// ---------------------------------------------------------------------------------------------------------- allocator
}  // namespace

PBT_PROPERTY(allocator_model, 12000, 300000)
{
    const std::size_t capacity = src.Chance(1, 3) ? src.Range<std::size_t>(1, 64) : src.Range<std::size_t>(64, 6000);
    auto resource = NewRegion(capacity);
    PBT_CHECK(ctx, resource != nullptr, "creating a region of %zu bytes failed", capacity);
    NewDeleteDelegateMemoryResource heap{++g_anonymous_id};
    auto* const base = static_cast<unsigned char*>(resource->getUsableBaseAddress());
    PBT_CHECK(ctx, resource->GetUserAllocatedBytes() == 0U, "a fresh region reports %zu allocated bytes", resource->GetUserAllocatedBytes());
    PBT_CHECK(ctx, reinterpret_cast<std::uintptr_t>(base) % alignof(std::max_align_t) == 0U, "the usable memory is not max aligned");

    std::vector<Block> blocks;
    std::uintptr_t next = reinterpret_cast<std::uintptr_t>(base);
    const std::uintptr_t end = next + capacity;
    const unsigned n = src.Range<unsigned>(1, 24);
    bool exhausted{false};
    bool padded{false};
    bool over_aligned{false};
    for (unsigned i = 0; i < n; ++i)
    {
        const std::size_t align = PickAlign(src);
        over_aligned |= align > alignof(std::max_align_t);
        const std::size_t left = end - next;
        const std::uintptr_t aligned = (next + align - 1) / align * align;
        const std::size_t room = aligned <= end ? end - aligned : 0;
        const std::size_t bytes = src.Weighted({6, 1, 1, 1}) == 0 ? src.Range<std::size_t>(1, 200)
                                  : src.Bool()                    ? room
                                  : src.Bool()                    ? room + 1
                                                                  : left;
        if (bytes == 0)
        {
            continue;
        }
        const std::uintptr_t expected = (next + align - 1) / align * align;
        ctx.Note("allocate(%zu, %zu), %zu left", bytes, align, left);
        if (expected + bytes > end || expected > end)
        {
            const bool died = pbt::Dies([&] { resource->allocate(bytes, align); });
            PBT_CHECK(ctx, died, "%zu bytes aligned %zu were handed out although only %zu remain", bytes, align, left);
            exhausted = true;
            continue;
        }
        auto* const p = static_cast<unsigned char*>(resource->allocate(bytes, align));
        PBT_CHECK(ctx, p != nullptr && reinterpret_cast<std::uintptr_t>(p) % align == 0U, "block %p is not aligned to %zu", static_cast<void*>(p), align);
        PBT_CHECK(ctx, p >= base && p + bytes <= base + capacity, "block [%td, +%zu) leaves the region of %zu bytes", p - base, bytes, capacity);
        for (const auto& b : blocks)
        {
            PBT_CHECK(ctx, p >= b.p + b.bytes || p + bytes <= b.p, "block [%td, +%zu) overlaps [%td, +%zu)", p - base, bytes, b.p - base, b.bytes);
        }
        padded |= expected != next;
        next = expected + bytes;
        PBT_CHECK(ctx, reinterpret_cast<std::uintptr_t>(p) == expected, "a block that fits was placed %td bytes off", static_cast<std::ptrdiff_t>(reinterpret_cast<std::uintptr_t>(p) - expected));
        PBT_CHECK(ctx, resource->GetUserAllocatedBytes() == next - reinterpret_cast<std::uintptr_t>(base), "allocated bytes read %zu, %zu expected",
                  resource->GetUserAllocatedBytes(), next - reinterpret_cast<std::uintptr_t>(base));
        auto* const h = static_cast<unsigned char*>(heap.allocate(bytes, align));
        PBT_CHECK(ctx, h != nullptr && reinterpret_cast<std::uintptr_t>(h) % align == 0U, "heap block not aligned to %zu", align);
        // the dry run on the heap predicts the size of the region
        PBT_CHECK(ctx, heap.GetUserAllocatedBytes() == resource->GetUserAllocatedBytes() || over_aligned,
                  "the heap stand-in counts %zu bytes, the region %zu", heap.GetUserAllocatedBytes(), resource->GetUserAllocatedBytes());
        const auto fill = static_cast<unsigned char>(src.U64());
        std::memset(p, fill, bytes);
        blocks.push_back({p, bytes, align, fill});
        if (src.Chance(1, 5))
        {
            // giving back frees nothing and disturbs nothing
            const auto& b = src.Pick(blocks);
            const auto before = resource->GetUserAllocatedBytes();
            resource->deallocate(b.p, b.bytes);
            PBT_CHECK(ctx, resource->GetUserAllocatedBytes() == before, "deallocation changed the allocated bytes");
        }
    }
    // a dry run with the sizes of this history on a fresh heap resource gives exactly the bytes a region needs
    for (const auto& b : blocks)
    {
        for (std::size_t i = 0; i < b.bytes; ++i)
        {
            PBT_CHECK(ctx, b.p[i] == b.fill, "byte %zu of a block was overwritten", i);
        }
    }
    if (blocks.size() >= 3 && (exhausted || padded))
    {
        ctx.NonTrivial();
    }
    ctx.Label(exhausted ? "ran out of space" : "never ran out");
}

PBT_PROPERTY(sized_layouts, 150000, 4000000)
{
    // CalculateAlignedSize
    const std::size_t align = src.Chance(1, 4) ? src.Range<std::size_t>(1, 300) : std::size_t{1} << src.Below(12);
    const std::size_t size = src.Chance(1, 6) ? std::numeric_limits<std::size_t>::max() - src.Below(600) : src.Chance(1, 4) ? align * src.Below(50) : src.Below(100000);
    const __uint128_t wide = (static_cast<__uint128_t>(size) + align - 1) / align * align;
    if (wide <= std::numeric_limits<std::size_t>::max() - align)
    {
        PBT_CHECK(ctx, CalculateAlignedSize(size, align) == static_cast<std::size_t>(wide), "CalculateAlignedSize(%zu, %zu) = %zu", size, align, CalculateAlignedSize(size, align));
    }
    else if (wide > std::numeric_limits<std::size_t>::max())
    {
        ctx.Label("overflow");
        if (src.Chance(1, 20))
        {
            PBT_CHECK(ctx, pbt::Dies([&] { (void)CalculateAlignedSize(size, align); }), "CalculateAlignedSize(%zu, %zu) wrapped around", size, align);
        }
    }
    // sequence: exactly what placing the elements one after the other takes
    const unsigned n = src.Range<unsigned>(0, 8);
    std::vector<score::memory::DataTypeSizeInfo> infos;
    std::size_t model{0};
    bool padding{false};
    for (unsigned i = 0; i < n; ++i)
    {
        const std::size_t a = std::size_t{1} << src.Below(7);
        const std::size_t sz = a * src.Range<std::size_t>(1, 20);
        infos.emplace_back(sz, a);
        const std::size_t start = (model + a - 1) / a * a;
        padding |= start != model;
        model = start + sz;
    }
    const auto total = CalculateAlignedSizeOfSequence(infos);
    PBT_CHECK(ctx, total == model, "a sequence of %u elements needs %zu bytes, computed %zu", n, model, total);
    if (n >= 2)
    {
        // allocating the elements really takes that much
        auto resource = NewRegion(total);
        auto* const base = static_cast<unsigned char*>(resource->getUsableBaseAddress());
        bool small{true};
        for (const auto& i : infos)
        {
            small &= i.Alignment() <= alignof(std::max_align_t);
        }
        if (small)
        {
            NewDeleteDelegateMemoryResource heap{++g_anonymous_id};
            for (const auto& i : infos)
            {
                auto* const p = static_cast<unsigned char*>(resource->allocate(i.Size(), i.Alignment()));
                PBT_CHECK(ctx, p >= base && p + i.Size() <= base + total, "an element left its region");
                heap.allocate(i.Size(), i.Alignment());
            }
            PBT_CHECK(ctx, resource->GetUserAllocatedBytes() == total, "the region took %zu bytes, %zu computed", resource->GetUserAllocatedBytes(), total);
            PBT_CHECK(ctx, heap.GetUserAllocatedBytes() == total, "the heap stand-in took %zu bytes, %zu computed", heap.GetUserAllocatedBytes(), total);
        }
        if (padding)
        {
            ctx.NonTrivial();
        }
    }
    // pointer arithmetic helpers
    const auto a = src.Int<std::int64_t>();
    const auto u = src.Int<std::uint64_t>();
    const __int128 sum = static_cast<__int128>(a) + static_cast<__int128>(u);
    if (sum <= std::numeric_limits<std::int64_t>::max())
    {
        PBT_CHECK(ctx, AddUnsignedToSigned(a, u) == static_cast<std::int64_t>(sum), "AddUnsignedToSigned(%ld, %lu) wrong", a, u);
    }
    const __int128 diff = static_cast<__int128>(a) - static_cast<__int128>(u);
    if (diff >= std::numeric_limits<std::int64_t>::min())
    {
        PBT_CHECK(ctx, SubtractUnsignedFromSigned(a, u) == static_cast<std::int64_t>(diff), "SubtractUnsignedFromSigned(%ld, %lu) wrong", a, u);
    }
    const auto absolute = a < 0 ? static_cast<std::uint64_t>(-static_cast<__int128>(a)) : static_cast<std::uint64_t>(a);
    PBT_CHECK(ctx, AbsoluteValue(a) == absolute, "AbsoluteValue(%ld) wrong", a);
    PBT_CHECK(ctx, UndoSignedToUnsignedIntegerCast(static_cast<std::uint64_t>(a)) == a, "UndoSignedToUnsignedIntegerCast wrong for %ld", a);
    const auto p1 = src.Int<std::uint64_t>();
    const auto p2 = src.Int<std::uint64_t>();
    const __int128 d = static_cast<__int128>(p1) - static_cast<__int128>(p2);
    if (d <= std::numeric_limits<std::int64_t>::max() && d >= std::numeric_limits<std::int64_t>::min())
    {
        PBT_CHECK(ctx, SubtractPointersBytes(reinterpret_cast<void*>(p1), reinterpret_cast<void*>(p2)) == static_cast<std::int64_t>(d), "difference of %lx and %lx wrong", p1, p2);
        PBT_CHECK(ctx, AddSignedOffsetToPointerAsInteger(p2, static_cast<std::int64_t>(d)) == p1, "offset does not lead back from %lx to %lx", p2, p1);
    }
}

// ---------------------------------------------------------------------------------------------------------- containers
namespace
{
using ShmInts = Vector<std::uint32_t>;
using ShmTexts = Vector<String>;
using ShmNested = Map<std::uint32_t, ShmInts>;
using ShmNames = Map<String, std::uint64_t>;

struct Root
{
    explicit Root(ManagedMemoryResource& r) : ints{PolymorphicOffsetPtrAllocator<std::uint32_t>{r}}, texts{PolymorphicOffsetPtrAllocator<String>{r}},
          nested{PolymorphicOffsetPtrAllocator<ShmNested::value_type>{r}}, text{PolymorphicOffsetPtrAllocator<char>{r}}
    {
    }
    ShmInts ints;
    ShmTexts texts;
    ShmNested nested;
    String text;
};

struct Model
{
    std::vector<std::uint32_t> ints;
    std::vector<std::string> texts;
    std::map<std::uint32_t, std::vector<std::uint32_t>> nested;
    std::string text;
};

void Compare(pbt::Ctx& ctx, const Root& r, const Model& m, const unsigned char* begin, const unsigned char* end, const char* where)
{
    const auto inside = [&](const void* p, std::size_t n) {
        const auto* const c = static_cast<const unsigned char*>(p);
        return c >= begin && c + n <= end;
    };
    PBT_CHECK(ctx, r.ints.size() == m.ints.size(), "%s: vector has %zu elements, model %zu", where, r.ints.size(), m.ints.size());
    for (std::size_t i = 0; i < m.ints.size(); ++i)
    {
        PBT_CHECK(ctx, inside(&r.ints[i], 4) && r.ints[i] == m.ints[i], "%s: element %zu differs or lies outside the region", where, i);
    }
    PBT_CHECK(ctx, r.texts.size() == m.texts.size(), "%s: vector of strings has %zu elements, model %zu", where, r.texts.size(), m.texts.size());
    for (std::size_t i = 0; i < m.texts.size(); ++i)
    {
        const auto& t = r.texts[i];
        PBT_CHECK(ctx, t.size() == m.texts[i].size() && inside(&*t.begin(), t.size()) && std::equal(t.begin(), t.end(), m.texts[i].begin()),
                  "%s: string %zu differs or lies outside the region", where, i);
    }
    PBT_CHECK(ctx, r.nested.size() == m.nested.size(), "%s: map has %zu entries, model %zu", where, r.nested.size(), m.nested.size());
    auto it = m.nested.begin();
    for (const auto& e : r.nested)
    {
        PBT_CHECK(ctx, inside(&e, sizeof(e)) && e.first == it->first && e.second.size() == it->second.size(), "%s: map entry %u differs or lies outside the region", where, it->first);
        for (std::size_t i = 0; i < it->second.size(); ++i)
        {
            PBT_CHECK(ctx, inside(&e.second[i], 4) && e.second[i] == it->second[i], "%s: element %zu of map entry %u differs or lies outside the region", where, i, it->first);
        }
        ++it;
    }
    PBT_CHECK(ctx, r.text.size() == m.text.size() && inside(&*r.text.begin(), r.text.size()) && std::equal(r.text.begin(), r.text.end(), m.text.begin()), "%s: string differs", where);
}
}  // namespace

PBT_PROPERTY(containers_in_shm, 60000, 2000000)
{
    constexpr std::size_t kSize{256 * 1024};
    auto resource = NewRegion(kSize);
    auto* root = resource->construct<Root>(*resource);
    Model m;
    const unsigned n = src.Range<unsigned>(1, 40);
    bool grew{false};
    for (unsigned i = 0; i < n; ++i)
    {
        switch (src.Weighted({4, 2, 1, 3, 2, 3, 2, 1, 2, 1, 1}))
        {
            case 0:
            {
                const auto v = static_cast<std::uint32_t>(src.U64());
                root->ints.push_back(v);
                m.ints.push_back(v);
                break;
            }
            case 1:
                if (!m.ints.empty())
                {
                    const auto at = src.Below(m.ints.size());
                    root->ints.erase(root->ints.begin() + static_cast<std::ptrdiff_t>(at));
                    m.ints.erase(m.ints.begin() + static_cast<std::ptrdiff_t>(at));
                }
                break;
            case 2:
            {
                const auto k = src.Below(60);
                root->ints.resize(k);
                m.ints.resize(k);
                grew = true;
                break;
            }
            case 3:
            {
                const auto t = src.Str(60, "abcxyz 0");
                root->texts.emplace_back(t.data(), t.size());
                m.texts.push_back(t);
                break;
            }
            case 4:
                if (!m.texts.empty())
                {
                    const auto at = src.Below(m.texts.size());
                    const auto t = src.Str(30, "qrs");
                    root->texts[at].append(t.data(), t.size());
                    m.texts[at] += t;
                }
                break;
            case 5:
            {
                const auto k = src.Range<std::uint32_t>(0, 12);
                const auto v = static_cast<std::uint32_t>(src.U64());
                root->nested[k].push_back(v);
                m.nested[k].push_back(v);
                break;
            }
            case 6:
            {
                const auto k = src.Range<std::uint32_t>(0, 12);
                PBT_CHECK(ctx, root->nested.erase(k) == m.nested.erase(k), "erase(%u) disagrees", k);
                break;
            }
            case 7:
            {
                const auto k = src.Range<std::uint32_t>(0, 12);
                PBT_CHECK(ctx, (root->nested.find(k) != root->nested.end()) == (m.nested.count(k) == 1U), "find(%u) disagrees", k);
                break;
            }
            case 8:
            {
                const auto t = src.Str(50, "mno");
                root->text.assign(t.data(), t.size());
                m.text = t;
                break;
            }
            case 9:
            {
                // a copy made for the same region is independent of its original
                ShmInts copy{root->ints, root->ints.get_allocator()};
                if (!copy.empty())
                {
                    copy[0] = ~copy[0];
                }
                copy.push_back(1);
                break;
            }
            default:
            {
                ShmTexts moved{std::move(root->texts)};
                root->texts = std::move(moved);
                break;
            }
        }
    }
    auto* const base = static_cast<unsigned char*>(resource->getBaseAddress());
    const std::size_t mapped = kSize + static_cast<std::size_t>(static_cast<unsigned char*>(resource->getUsableBaseAddress()) - base);
    Compare(ctx, *root, m, base, base + mapped, "in place");
    // comparison with std::vector: equal exactly when the contents are
    {
        auto other = m.ints;
        PBT_CHECK(ctx, root->ints == other && other == root->ints, "a vector does not equal its own content");
        const auto how = src.Below(3);
        if (how == 0)
        {
            other.push_back(7);
        }
        else if (how == 1 && !other.empty())
        {
            other.pop_back();
        }
        else if (!other.empty())
        {
            other[src.Below(other.size())] ^= 1U;
        }
        else
        {
            other.push_back(0);
        }
        PBT_CHECK(ctx, !(root->ints == other) && !(other == root->ints), "a vector of %zu elements equals a different one of %zu", m.ints.size(), other.size());
        PBT_CHECK(ctx, root->text == m.text && m.text == root->text, "a string does not equal its own content");
        auto t = m.text + "x";
        PBT_CHECK(ctx, root->text != t && t != root->text, "a string equals a longer one");
    }
    // another process sees the region at another address
    void* const second = mmap(nullptr, mapped, PROT_READ, MAP_SHARED, resource->GetFileDescriptor(), 0);
    PBT_CHECK(ctx, second != MAP_FAILED, "mapping the region again failed");
    const auto* const moved_root = reinterpret_cast<const Root*>(static_cast<unsigned char*>(second) + (reinterpret_cast<unsigned char*>(root) - base));
    Compare(ctx, *moved_root, m, static_cast<unsigned char*>(second), static_cast<unsigned char*>(second) + mapped, "second mapping");
    munmap(second, mapped);
    if (m.ints.size() + m.texts.size() + m.nested.size() >= 4U)
    {
        ctx.NonTrivial();
    }
    ctx.Label(grew ? "resized" : "plain");
}

PBT_PROPERTY(resource_proxies, 40000, 1000000)
{
    auto a = NewRegion(4096);
    auto b = NewRegion(4096);
    const PolymorphicOffsetPtrAllocator<std::uint64_t> alloc_a{*a};
    const PolymorphicOffsetPtrAllocator<std::uint64_t> alloc_b{*b};
    const PolymorphicOffsetPtrAllocator<std::uint64_t> none{};
    const PolymorphicOffsetPtrAllocator<std::uint32_t> rebound{alloc_a};
    PBT_CHECK(ctx, alloc_a == alloc_a && !(alloc_a == alloc_b) && alloc_a != none && none == none && none != alloc_b, "allocator equality wrong");
    PBT_CHECK(ctx, PolymorphicOffsetPtrAllocator<std::uint64_t>{rebound} == alloc_a, "a rebound allocator changed its resource");
    const auto in = [](const std::shared_ptr<ISharedMemoryResource>& r, const void* p, std::size_t bytes) {
        const auto* const base = static_cast<unsigned char*>(r->getUsableBaseAddress());
        const auto* const c = static_cast<const unsigned char*>(p);
        return c >= base && c + bytes <= base + 4096;
    };
    std::size_t used_a{0};
    std::size_t used_b{0};
    for (unsigned i = 0; i < 6; ++i)
    {
        const auto count = src.Range<std::size_t>(1, 30);
        auto alloc = src.Bool() ? alloc_a : alloc_b;
        const bool is_a = alloc == alloc_a;
        auto p = alloc.allocate(count);
        auto* const raw = &*p;
        PBT_CHECK(ctx, in(is_a ? a : b, raw, count * 8), "an allocation left its resource");
        (is_a ? used_a : used_b) += count * 8;
        PBT_CHECK(ctx, a->GetUserAllocatedBytes() == used_a && b->GetUserAllocatedBytes() == used_b, "allocation was charged to the wrong region");
        alloc.deallocate(p, count);
    }
    auto heap_alloc = none;
    auto hp = heap_alloc.allocate(src.Range<std::size_t>(1, 10));
    PBT_CHECK(ctx, !in(a, &*hp, 8) && !in(b, &*hp, 8), "an allocator without resource used a region");
    heap_alloc.deallocate(hp, 1);
    // a proxy only serves the region it lies in
    const auto* const proxy = &*alloc_a.getMemoryResourceProxy();
    switch (src.Below(4))
    {
        case 0:
        {
            alignas(MemoryResourceProxy) unsigned char copy[sizeof(MemoryResourceProxy)];
            std::memcpy(copy, proxy, sizeof(copy));
            PBT_CHECK(ctx, pbt::Dies([&] { (void)reinterpret_cast<MemoryResourceProxy*>(copy)->allocate(8, 8); }), "a proxy outside of its region still allocates");
            break;
        }
        case 1:
        {
            auto* const copy = static_cast<unsigned char*>(b->allocate(sizeof(MemoryResourceProxy), alignof(MemoryResourceProxy)));
            std::memcpy(copy, proxy, sizeof(MemoryResourceProxy));
            PBT_CHECK(ctx, pbt::Dies([&] { (void)reinterpret_cast<MemoryResourceProxy*>(copy)->allocate(8, 8); }), "a proxy in another region still allocates");
            break;
        }
        case 2:
        {
            auto* const copy = a->construct<MemoryResourceProxy>(++g_anonymous_id);
            PBT_CHECK(ctx, pbt::Dies([&] { (void)copy->allocate(8, 8); }), "a proxy with an unknown identifier allocates");
            break;
        }
        default:
        {
            auto* const copy = static_cast<unsigned char*>(a->allocate(sizeof(MemoryResourceProxy), alignof(MemoryResourceProxy)));
            std::memcpy(copy, proxy, sizeof(MemoryResourceProxy));
            const auto* const same = reinterpret_cast<MemoryResourceProxy*>(copy);
            PBT_CHECK(ctx, *same == *proxy && in(a, same->allocate(8, 8), 8), "a proxy copied within its region does not allocate from it");
            break;
        }
    }
    if (used_a > 0 && used_b > 0)
    {
        ctx.NonTrivial();
    }
}

// ---------------------------------------------------------------------------------------------------------- registry
namespace
{
class FakeRegion : public ManagedMemoryResource
{
  public:
    FakeRegion(std::uintptr_t b, std::uintptr_t e, bool bypass) : begin{b}, end{e}, bypassing{bypass} {}
    void* getBaseAddress() const noexcept override { return reinterpret_cast<void*>(begin); }
    void* getUsableBaseAddress() const noexcept override { return getBaseAddress(); }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
    bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return bypassing; }
    std::uintptr_t begin, end;
    bool bypassing;

  private:
    const void* getEndAddress() const noexcept override { return reinterpret_cast<void*>(end); }
    const MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
    void* do_allocate(const std::size_t, std::size_t) override { return nullptr; }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const ::score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
}  // namespace

PBT_PROPERTY(registry_model, 300000, 8000000)
{
    auto& registry = MemoryResourceRegistry::getInstance();
    registry.clear();
    std::vector<std::unique_ptr<FakeRegion>> pool;
    std::map<std::uint64_t, FakeRegion*> model;
    const unsigned n = src.Range<unsigned>(4, 60);
    bool refused{false};
    bool removed{false};
    for (unsigned i = 0; i < n; ++i)
    {
        const std::uint64_t id = src.Below(14);
        switch (src.Weighted({5, 3, 3, 1}))
        {
            case 0:
            {
                const auto b = src.Range<std::uintptr_t>(1, 60) * 16 - (src.Chance(1, 3) ? src.Below(3) : 0U);
                const auto e = b + src.Range<std::uintptr_t>(1, 8) * (src.Chance(1, 4) ? 1 : 16);
                const bool bypass = src.Chance(1, 6);
                pool.push_back(std::make_unique<FakeRegion>(b, e, bypass));
                bool overlap{false};
                bool same_start{false};
                for (const auto& m : model)
                {
                    if (!m.second->bypassing)
                    {
                        overlap |= b < m.second->end && m.second->begin < e;
                        same_start |= b == m.second->begin;
                    }
                }
                if (!bypass && same_start)
                {
                    break;  // documented to terminate
                }
                const bool expected = model.count(id) == 0U && (bypass || !overlap);
                const bool inserted = registry.insert_resource({id, pool.back().get()});
                ctx.Note("insert(%lu, [%zu, %zu]%s) -> %d", id, b, e, bypass ? ", no checks" : "", inserted);
                PBT_CHECK(ctx, inserted == expected, "insert(%lu, [%zu, %zu]) returned %d", id, b, e, inserted);
                if (inserted)
                {
                    model[id] = pool.back().get();
                }
                else
                {
                    refused = true;
                }
                break;
            }
            case 1:
                ctx.Note("remove(%lu)", id);
                registry.remove_resource(id);
                removed |= model.erase(id) == 1U;
                break;
            case 2:
                break;
            default:
                if (src.Chance(1, 4))
                {
                    ctx.Note("clear");
                    registry.clear();
                    model.clear();
                }
                break;
        }
        for (std::uint64_t k = 0; k < 14; ++k)
        {
            const auto it = model.find(k);
            auto* const expected = it == model.end() ? nullptr : it->second;
            PBT_CHECK(ctx, registry.at(k) == expected, "resource %lu is %s", k, expected ? "lost" : "known although it was never accepted or was removed");
            const auto bounds = registry.GetBoundsFromIdentifier(k);
            PBT_CHECK(ctx, bounds.has_value() == (expected != nullptr), "bounds of resource %lu: present %d", k, bounds.has_value());
            if (expected != nullptr)
            {
                PBT_CHECK(ctx, bounds.value().GetStartAddress() == expected->begin && bounds.value().GetEndAddress() == expected->end, "bounds of resource %lu wrong", k);
            }
        }
        for (unsigned q = 0; q < 6; ++q)
        {
            std::uintptr_t at = src.Range<std::uintptr_t>(1, 1200);
            if (!model.empty() && src.Bool())
            {
                auto it = model.begin();
                std::advance(it, static_cast<std::ptrdiff_t>(src.Below(model.size())));
                at = src.Bool() ? it->second->begin + src.Below(2) - 1 : it->second->end + src.Below(3) - 1;
            }
            // the region that contains the address; an address between two regions that touch belongs to the upper one, the
            // address right behind a region still counts as its end
            const FakeRegion* owner{nullptr};
            for (const auto& m : model)
            {
                if (!m.second->bypassing && at >= m.second->begin && at <= m.second->end && (owner == nullptr || m.second->begin > owner->begin))
                {
                    owner = m.second;
                }
            }
            const auto bounds = registry.GetBoundsFromAddressAsInteger(at);
            PBT_CHECK(ctx, bounds.has_value() == (owner != nullptr), "address %zu: in a region %d, %d expected", at, bounds.has_value(), owner != nullptr);
            if (owner != nullptr)
            {
                PBT_CHECK(ctx, bounds->GetStartAddress() == owner->begin && bounds->GetEndAddress() == owner->end, "address %zu is attributed to the wrong region", at);
            }
            const auto same = registry.GetBoundsFromAddress(reinterpret_cast<void*>(at));
            PBT_CHECK(ctx, same.has_value() == bounds.has_value(), "the two address queries disagree at %zu", at);
        }
    }
    registry.clear();
    if (refused && removed)
    {
        ctx.NonTrivial();
    }
}

// ---------------------------------------------------------------------------------------------------------- offset pointers
namespace
{
struct Base1
{
    std::uint32_t a;
};
struct Base2
{
    std::uint32_t b;
};
struct Derived : Base1, Base2
{
    std::uint32_t c;
};
struct Big
{
    std::uint32_t words[40];
};

/// two registered regions with a guard area around, and unregistered memory
struct Arena
{
    static constexpr std::size_t kRegion{2048};
    static constexpr std::size_t kGuard{4096};
    Arena()
    {
        const std::size_t total = 2 * kRegion + 4 * kGuard;
        mem = static_cast<unsigned char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        for (std::size_t i = 0; i < total / 4; ++i)
        {
            reinterpret_cast<std::uint32_t*>(mem)[i] = static_cast<std::uint32_t>(i * 2654435761U);
        }
        size = total;
        region[0] = mem + kGuard;
        region[1] = mem + 2 * kGuard + kRegion;
        outside = mem + 3 * kGuard + 2 * kRegion;
        for (int r = 0; r < 2; ++r)
        {
            const auto b = reinterpret_cast<std::uintptr_t>(region[r]);
            resources.push_back(std::make_unique<FakeRegion>(b, b + kRegion, false));
            (void)MemoryResourceRegistry::getInstance().insert_resource({900U + static_cast<unsigned>(r), resources.back().get()});
        }
    }
    ~Arena()
    {
        MemoryResourceRegistry::getInstance().clear();
        munmap(mem, size);
    }
    /// 0, 1: region, -1: none
    int RegionOf(const void* p) const
    {
        const auto* const c = static_cast<const unsigned char*>(p);
        for (int r = 0; r < 2; ++r)
        {
            if (c >= region[r] && c < region[r] + kRegion)
            {
                return r;
            }
        }
        return -1;
    }
    bool Fits(int r, std::uintptr_t p, std::size_t n) const
    {
        const auto b = reinterpret_cast<std::uintptr_t>(region[r]);
        return p >= b && p + n <= b + kRegion;
    }
    unsigned char* mem;
    std::size_t size;
    unsigned char* region[2];
    unsigned char* outside;
    std::vector<std::unique_ptr<FakeRegion>> resources;
};

template <typename T>
struct Slot
{
    OffsetPtr<T>* ptr;
    int home;              // region of the pointer itself, -1: none
    std::uintptr_t target;  // 0: null
    int bounds;            // for pointers outside of regions: region they are bound to, -1: none
};

/// what a pointer may reach
template <typename T>
bool Allowed(const Arena& arena, const Slot<T>& s, std::uintptr_t p, std::size_t n)
{
    const int r = s.home >= 0 ? s.home : s.bounds;
    return r < 0 || arena.Fits(r, p, n);
}

template <typename T>
void Histories(pbt::Src& src, pbt::Ctx& ctx)
{
    MemoryResourceRegistry::getInstance().clear();
    Arena arena;
    constexpr std::size_t kPtr{sizeof(OffsetPtr<T>)};
    std::vector<Slot<T>> slots;
    // pointers at the start, in the middle and at the very end of the regions, and outside
    for (int r = 0; r < 2; ++r)
    {
        for (const std::size_t at : {std::size_t{0}, src.Range<std::size_t>(1, 60) * 8, (Arena::kRegion - kPtr) / 8 * 8})
        {
            bool taken{false};
            for (const auto& s : slots)
            {
                const auto d = reinterpret_cast<unsigned char*>(s.ptr) - (arena.region[r] + at);
                taken |= d < static_cast<std::ptrdiff_t>(kPtr) && d > -static_cast<std::ptrdiff_t>(kPtr);
            }
            if (!taken)
            {
                slots.push_back({new (arena.region[r] + at) OffsetPtr<T>{}, r, 0, -1});
            }
        }
    }
    for (std::size_t i = 0; i < 3; ++i)
    {
        slots.push_back({new (arena.outside + 64 + i * 64) OffsetPtr<T>{}, -1, 0, -1});
    }
    const auto pick_target = [&]() -> std::uintptr_t {
        unsigned char* base{nullptr};
        std::ptrdiff_t off{0};
        switch (src.Weighted({4, 2, 1, 1}))
        {
            case 0:
                base = arena.region[src.Below(2)];
                off = static_cast<std::ptrdiff_t>(src.Below(Arena::kRegion / 4)) * 4;
                break;
            case 1:  // close to the end, fitting exactly, by one unit too far, right behind
                base = arena.region[src.Below(2)] + Arena::kRegion;
                off = -static_cast<std::ptrdiff_t>(sizeof(T)) + 4 * (static_cast<std::ptrdiff_t>(src.Below(5)) - 2);
                break;
            case 2:  // just in front
                base = arena.region[src.Below(2)];
                off = -4 * static_cast<std::ptrdiff_t>(src.Range<int>(1, 4));
                break;
            default:
                base = arena.outside;
                off = static_cast<std::ptrdiff_t>(src.Below(500)) * 4;
                break;
        }
        return reinterpret_cast<std::uintptr_t>(base + off);
    };
    const auto copied = [&](const Slot<T>& from, int to_home) {
        // bounds a pointer outside of regions inherits
        if (to_home >= 0 || from.target == 0U)
        {
            return -1;
        }
        return from.home >= 0 ? from.home : from.bounds;
    };
    unsigned deaths{0};
    bool bound{false};
    const unsigned n = src.Range<unsigned>(5, 50);
    for (unsigned i = 0; i < n; ++i)
    {
        auto& s = slots[src.Below(slots.size())];
        auto& o = slots[src.Below(slots.size())];
        switch (src.Below(10))
        {
            case 0:
            case 1:
            {
                const auto t = src.Chance(1, 6) ? 0U : pick_target();
                if (t != 0U && t - reinterpret_cast<std::uintptr_t>(s.ptr) == 1U)
                {
                    break;
                }
                *s.ptr = reinterpret_cast<T*>(t);
                s.target = t;
                s.bounds = -1;
                ctx.Note("slot %td = raw %zx", &s - slots.data(), t);
                break;
            }
            case 2:
            case 3:
                *s.ptr = *o.ptr;
                if (&s != &o)
                {
                    s.bounds = copied(o, s.home);
                    s.target = o.target;
                }
                ctx.Note("slot %td = slot %td", &s - slots.data(), &o - slots.data());
                break;
            case 4:
            {
                const auto k = src.Range<std::ptrdiff_t>(-6, 6);
                if (s.target == 0U)
                {
                    break;
                }
                switch (src.Below(6))
                {
                    case 0:
                        *s.ptr += k;
                        s.target += static_cast<std::uintptr_t>(k * static_cast<std::ptrdiff_t>(sizeof(T)));
                        break;
                    case 1:
                        *s.ptr -= k;
                        s.target -= static_cast<std::uintptr_t>(k * static_cast<std::ptrdiff_t>(sizeof(T)));
                        break;
                    case 2:
                        ++*s.ptr;
                        s.target += sizeof(T);
                        break;
                    case 3:
                        --*s.ptr;
                        s.target -= sizeof(T);
                        break;
                    case 4:
                    {
                        const auto old = (*s.ptr)++;
                        PBT_CHECK(ctx, old == reinterpret_cast<T*>(s.target), "post-increment returned something else than the old value");
                        s.target += sizeof(T);
                        break;
                    }
                    default:
                    {
                        const auto old = (*s.ptr)--;
                        PBT_CHECK(ctx, old == reinterpret_cast<T*>(s.target), "post-decrement returned something else than the old value");
                        s.target -= sizeof(T);
                        break;
                    }
                }
                break;
            }
            case 5:
                if (&s != &o)
                {
                    ctx.Note("swap %td %td", &s - slots.data(), &o - slots.data());
                    swap(*s.ptr, *o.ptr);
                    const auto sb = copied(o, s.home);
                    const auto ob = copied(s, o.home);
                    std::swap(s.target, o.target);
                    s.bounds = sb;
                    o.bounds = ob;
                }
                break;
            case 6:
            {
                // a pointer moves with its region: copy construct at the place of another one
                if (&s != &o)
                {
                    new (s.ptr) OffsetPtr<T>(*o.ptr);
                    s.bounds = copied(o, s.home);
                    s.target = o.target;
                }
                break;
            }
            case 7:
            {
                // p + k is a pointer outside of regions that keeps its bounds
                if (s.target == 0U)
                {
                    break;
                }
                const auto k = src.Range<std::ptrdiff_t>(-3, 3);
                Slot<T> local{nullptr, -1, s.target + static_cast<std::uintptr_t>(k * static_cast<std::ptrdiff_t>(sizeof(T))), copied(s, -1)};
                const bool minus = src.Bool();
                const auto at = [&] { return minus ? *s.ptr - (-k) : *s.ptr + k; };
                if (Allowed(arena, local, local.target, sizeof(T)))
                {
                    const auto q = at();
                    PBT_CHECK(ctx, q.get() == reinterpret_cast<T*>(local.target), "pointer arithmetic is off by %td", reinterpret_cast<unsigned char*>(q.get()) - reinterpret_cast<unsigned char*>(local.target));
                }
                else if (deaths < 2)
                {
                    ++deaths;
                    PBT_CHECK(ctx, pbt::Dies([&] { volatile auto p = at().get(); (void)p; }), "p + %td left the region of p unnoticed", k);
                }
                break;
            }
            case 8:
            {
                // indexing
                if (s.target == 0U)
                {
                    break;
                }
                const auto k = src.Range<std::ptrdiff_t>(-3, 3);
                const auto t = s.target + static_cast<std::uintptr_t>(k * static_cast<std::ptrdiff_t>(sizeof(T)));
                if (Allowed(arena, s, t, sizeof(T)))
                {
                    if (t >= reinterpret_cast<std::uintptr_t>(arena.mem) && t + sizeof(T) <= reinterpret_cast<std::uintptr_t>(arena.mem) + arena.size)
                    {
                        PBT_CHECK(ctx, &(*s.ptr)[k] == reinterpret_cast<T*>(t), "index %td refers to another element", k);
                    }
                }
                else if (deaths < 2)
                {
                    ++deaths;
                    PBT_CHECK(ctx, pbt::Dies([&] { volatile auto* p = &(*s.ptr)[k]; (void)p; }), "index %td left the region unnoticed", k);
                }
                break;
            }
            default:
            {
                const auto& a = *s.ptr;
                const auto& b = *o.ptr;
                const auto x = s.target;
                const auto y = o.target;
                PBT_CHECK(ctx, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y),
                          "comparison of two pointers disagrees with their addresses %zx %zx", x, y);
                auto* const raw = reinterpret_cast<T*>(y);
                PBT_CHECK(ctx, (a == raw) == (x == y) && (raw != a) == (x != y) && (a < raw) == (x < y) && (raw <= a) == (y <= x), "comparison with a raw pointer disagrees");
                if (x != 0U && y != 0U && (x - y) % sizeof(T) == 0U)
                {
                    const auto d = static_cast<std::ptrdiff_t>(x - y) / static_cast<std::ptrdiff_t>(sizeof(T));
                    PBT_CHECK(ctx, a - b == d && a - raw == d, "difference of two pointers is not %td", d);
                }
                break;
            }
        }
        // every pointer still leads where the model says, or refuses
        for (auto& q : slots)
        {
            PBT_CHECK(ctx, static_cast<bool>(*q.ptr) == (q.target != 0U) && !*q.ptr == (q.target == 0U) && (*q.ptr == nullptr) == (q.target == 0U), "null state of slot %td wrong", &q - slots.data());
            bound |= q.bounds >= 0;
            if (q.target == 0U || Allowed(arena, q, q.target, sizeof(T)))
            {
                PBT_CHECK(ctx, q.ptr->get() == reinterpret_cast<T*>(q.target), "slot %td leads to %p, %zx expected", &q - slots.data(), static_cast<void*>(q.ptr->get()), q.target);
                PBT_CHECK(ctx, static_cast<T*>(*q.ptr) == reinterpret_cast<T*>(q.target), "slot %td converts to another address", &q - slots.data());
            }
        }
    }
    for (auto& q : slots)
    {
        if (q.target != 0U && !Allowed(arena, q, q.target, sizeof(T)) && deaths < 3)
        {
            ++deaths;
            const auto how = src.Below(4);
            const bool died = pbt::Dies([&] {
                switch (how)
                {
                    case 0:
                    {
                        volatile auto* p = q.ptr->get();
                        (void)p;
                        break;
                    }
                    case 1:
                    {
                        volatile auto* p = &**q.ptr;
                        (void)p;
                        break;
                    }
                    case 2:
                    {
                        volatile auto* p = q.ptr->operator->();
                        (void)p;
                        break;
                    }
                    default:
                    {
                        volatile auto* p = static_cast<T*>(*q.ptr);
                        (void)p;
                        break;
                    }
                }
            });
            PBT_CHECK(ctx, died, "slot %td (in region %d, bound to %d) hands out address %zx outside of its region", &q - slots.data(), q.home, q.bounds, q.target);
        }
    }
    ctx.Count("refusals", deaths);
    if (deaths > 0 && bound)
    {
        ctx.NonTrivial();
    }
}
}  // namespace

PBT_PROPERTY(offset_ptr_histories, 100000, 3000000)
{
    if (src.Bool())
    {
        ctx.Label("word");
        Histories<std::uint32_t>(src, ctx);
    }
    else
    {
        ctx.Label("big");
        Histories<Big>(src, ctx);
    }
}

PBT_PROPERTY(offset_ptr_conversions, 150000, 4000000)
{
    MemoryResourceRegistry::getInstance().clear();
    Arena arena;
    const auto place = [&](unsigned k) -> unsigned char* {
        const auto off = 64 + 128 * k;
        switch (src.Below(3))
        {
            case 0:
                return arena.region[0] + off;
            case 1:
                return arena.region[1] + off;
            default:
                return arena.outside + off;
        }
    };
    auto* const home = place(0);
    auto* const dest = place(1);
    const auto home_region = arena.RegionOf(home);
    const auto dest_region = arena.RegionOf(dest);
    const std::size_t at = src.Range<std::size_t>(300, 500) * 4;
    auto* const object = reinterpret_cast<Derived*>((src.Chance(1, 4) ? arena.outside : src.Bool() ? arena.region[0] : arena.region[1]) + at);
    const bool null = src.Chance(1, 8);
    auto* const d = new (home) OffsetPtr<Derived>(null ? nullptr : object);
    // conversion keeps the meaning of the pointer, including the adjustment to a second base
    const int reach = dest_region >= 0 ? dest_region : (null ? -1 : home_region);
    const auto reachable = [&](const void* p, std::size_t n) { return null || reach < 0 || arena.Fits(reach, reinterpret_cast<std::uintptr_t>(p), n); };
    unsigned checked{0};
    const auto expect = [&](auto* expected, std::size_t n, auto&& read, const char* what) {
        if (reachable(expected, n))
        {
            ++checked;
            PBT_CHECK(ctx, read() == (null ? nullptr : expected), "%s: converted pointer leads elsewhere", what);
        }
        else
        {
            PBT_CHECK(ctx, pbt::Dies([&] { volatile auto p = read(); (void)p; }), "%s: converted pointer leaves its region unnoticed", what);
        }
    };
    switch (src.Below(5))
    {
        case 0:
        {
            auto* const p = new (dest) OffsetPtr<Base2>(*d);
            PBT_CHECK(ctx, (*p == nullptr) == null, "null state lost");
            expect(static_cast<Base2*>(object), sizeof(Base2), [&] { return p->get(); }, "second base");
            break;
        }
        case 1:
        {
            auto* const p = new (dest) OffsetPtr<const Derived>(*d);
            expect(static_cast<const Derived*>(object), sizeof(Derived), [&] { return p->get(); }, "const");
            break;
        }
        case 2:
        {
            auto* const p = new (dest) OffsetPtr<void>(*d);
            PBT_CHECK(ctx, static_cast<bool>(*p) != null, "null state lost");
            expect(object, sizeof(Derived), [&] { return p->template get<Derived>(); }, "void, typed get");
            const std::size_t n = src.Range<std::size_t>(1, 2200);
            expect(static_cast<void*>(object), n, [&] { return p->get(n); }, "void, sized get");
            break;
        }
        case 3:
        {
            auto* const p = new (dest) OffsetPtr<Base1>();
            *p = *d;
            expect(static_cast<Base1*>(object), sizeof(Base1), [&] { return p->get(); }, "first base, assigned");
            break;
        }
        default:
        {
            auto* const v = new (dest) OffsetPtr<void>(*d);
            auto* const back = new (dest + 64) OffsetPtr<Derived>(*v);
            expect(object, sizeof(Derived), [&] { return back->get(); }, "through void and back");
            break;
        }
    }
    // the bytes of a region copied elsewhere lead to the copied object
    if (!null && home_region >= 0 && arena.RegionOf(object) == home_region)
    {
        std::vector<unsigned char> copy(Arena::kRegion);
        std::memcpy(copy.data(), arena.region[home_region], Arena::kRegion);
        auto* const p = reinterpret_cast<OffsetPtr<Derived>*>(copy.data() + (home - arena.region[home_region]));
        PBT_CHECK(ctx, reinterpret_cast<unsigned char*>(p->get()) == copy.data() + (reinterpret_cast<unsigned char*>(object) - arena.region[home_region]), "a relocated pointer leads elsewhere");
        ctx.NonTrivial();
    }
    // switching the checks off allows everything, switching them on again restores them
    if (src.Chance(1, 10))
    {
        auto* const p = new (arena.region[0] + 1024) OffsetPtr<Derived>(reinterpret_cast<Derived*>(arena.outside));
        const bool before = EnableOffsetPtrBoundsChecking(false);
        const auto* const got = p->get();
        const bool off = EnableOffsetPtrBoundsChecking(before);
        PBT_CHECK(ctx, before && !off && got == reinterpret_cast<Derived*>(arena.outside), "switching bounds checks off and on");
        PBT_CHECK(ctx, pbt::Dies([&] { volatile auto q = p->get(); (void)q; }), "bounds checks stayed off");
    }
}
