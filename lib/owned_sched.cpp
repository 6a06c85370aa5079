#include "owned_sched.h"

#include <array>
#include <map>
#include <memory>
#include <unordered_map>

#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <ucontext.h>

namespace sched
{
namespace
{
#ifdef VERIF_MAX_TASKS
constexpr std::size_t kMaxTasks{VERIF_MAX_TASKS};
#else
constexpr std::size_t kMaxTasks{8};
#endif
constexpr std::size_t kStack{512U * 1024U};
using VC = std::array<std::uint32_t, kMaxTasks>;

void Join(VC& a, const VC& b)
{
    for (std::size_t i = 0; i < kMaxTasks; ++i)
    {
        a[i] = std::max(a[i], b[i]);
    }
}

struct Task
{
    ucontext_t ctx{};
    std::unique_ptr<char[]> stack{};
    std::function<void()> fn{};
    bool done{false};
    bool killed{false};
    std::function<bool()> blocked{};  // runnable again when it returns true
    bool timed{false};                // a blocked task that may also be resumed by a timeout
    bool timed_out{false};
    std::uint64_t wake_at{0};         // virtual time of the timeout
    pthread_t thread{};               // of a task that was created as a thread
    std::uint64_t points{0};
    std::uint64_t kill_at{0};
    VC vc{};
    VC fence_release{};
    VC fence_acquire{};
};

struct Cell
{
    std::uint8_t wmask{0}, wtid{0};
    std::uint32_t wclk{0};
    std::array<std::uint32_t, kMaxTasks> rclk{};
    std::array<std::uint8_t, kMaxTasks> rmask{};
};

struct Watched
{
    std::uintptr_t b, e;
    std::string name;
};
std::vector<Watched> g_watched;

struct MutexState
{
    int owner{-1};
    int count{0};
    int readers{0};
    VC vc{};
};

struct Thread
{
    bool done{false};
    VC vc{};
};

struct Engine
{
    pbt::Src* src{nullptr};
    Options opt{};
    std::vector<std::unique_ptr<Task>> tasks{};
    ucontext_t main{};
    int cur{-1};
    int in_hook{0};
    std::uint64_t gap_max{0};
    std::uint64_t left{0};
    std::uint64_t clock{0};
    unsigned spurious_left{0};
    Stats st{};
    std::exception_ptr error{};
    bool stop{false};
    std::unordered_map<std::uintptr_t, VC> sync{};
    std::unordered_map<std::uintptr_t, Cell> cells{};
    std::map<void*, MutexState> mutexes{};
    std::map<void*, std::vector<int>> waiting{};
    std::uint64_t skipped{0};  // virtual time, in nanoseconds
    std::map<pthread_t, Thread> threads{};

    std::uint64_t Now() const
    {
        return 1000000000000ULL + clock * 1000U + skipped;
    }

    void Draw()
    {
        left = st.preemptions < opt.max_preemptions ? src->Below(gap_max) : 0;
    }
    std::vector<int> Runnable(bool include_cur)
    {
        std::vector<int> r;
        for (int i = 0; i < static_cast<int>(tasks.size()); ++i)
        {
            auto& t = *tasks[static_cast<std::size_t>(i)];
            if (t.done || (!include_cur && i == cur))
            {
                continue;
            }
            if (t.blocked && !t.blocked())
            {
                continue;
            }
            r.push_back(i);
        }
        return r;
    }
    void SwitchTo(int next)
    {
        auto* from = cur >= 0 ? &tasks[static_cast<std::size_t>(cur)]->ctx : &main;
        auto* to = next >= 0 ? &tasks[static_cast<std::size_t>(next)]->ctx : &main;
        if (from == to)
        {
            return;
        }
        cur = next;
        ++st.switches;
        swapcontext(from, to);
    }
    /// leaves the current task (finished, blocked or killed) for another one
    void Leave()
    {
        if (stop)
        {
            SwitchTo(-1);
            return;
        }
        for (;;)
        {
            auto r = Runnable(true);
            if (r.empty())
            {
                // only timeouts can go on
                std::vector<int> timed;
                for (int i = 0; i < static_cast<int>(tasks.size()); ++i)
                {
                    auto& t = *tasks[static_cast<std::size_t>(i)];
                    if (!t.done && t.blocked && t.timed)
                    {
                        timed.push_back(i);
                    }
                }
                if (!timed.empty())
                {
                    auto i = timed[opt.virtual_time ? 0U : src->Below(timed.size())];
                    if (opt.virtual_time)
                    {
                        for (const auto k : timed)
                        {
                            i = tasks[static_cast<std::size_t>(k)]->wake_at < tasks[static_cast<std::size_t>(i)]->wake_at ? k : i;
                        }
                        const auto at = tasks[static_cast<std::size_t>(i)]->wake_at;
                        skipped += at > Now() ? at - Now() : 0U;
                    }
                    tasks[static_cast<std::size_t>(i)]->timed_out = true;
                    tasks[static_cast<std::size_t>(i)]->blocked = nullptr;
                    continue;
                }
                for (auto& t : tasks)
                {
                    if (!t->done)
                    {
                        st.deadlock = true;
                    }
                }
                stop = true;
                SwitchTo(-1);
                return;
            }
            Draw();
            SwitchTo(r[src->Below(r.size())]);
            return;
        }
    }
    void Point()
    {
        if (cur < 0 || stop)
        {
            return;
        }
        auto& t = *tasks[static_cast<std::size_t>(cur)];
        ++st.points;
        ++clock;
        ++t.points;
        if (st.points > opt.max_points)
        {
            st.overrun = true;
            stop = true;
            SwitchTo(-1);
            return;
        }
        if (t.kill_at != 0 && t.points >= t.kill_at)
        {
            t.done = true;
            t.killed = true;
            Leave();
            return;  // never reached: a killed task is not resumed
        }
        if (left != 0 && --left == 0)
        {
            auto r = Runnable(false);
            ++st.preemptions;
            Draw();
            if (!r.empty())
            {
                SwitchTo(r[src->Below(r.size())]);
            }
        }
    }
    void Block(std::function<bool()> until, bool timed, std::uint64_t wake_at = 0)
    {
        auto& t = *tasks[static_cast<std::size_t>(cur)];
        t.wake_at = wake_at;
        t.blocked = std::move(until);
        t.timed = timed;
        t.timed_out = false;
        Leave();
        t.blocked = nullptr;
    }
    const Watched* Find(std::uintptr_t a) const
    {
        for (const auto& w : g_watched)
        {
            if (a >= w.b && a < w.e)
            {
                return &w;
            }
        }
        return nullptr;
    }
    void Access(std::uintptr_t a, std::size_t n, bool write)
    {
        if (cur < 0 || stop)
        {
            return;
        }
        const auto* w = Find(a);
        if (w == nullptr)
        {
            return;
        }
        Point();
        if (!opt.detect_races)
        {
            return;
        }
        const auto me = static_cast<std::size_t>(cur);
        auto& t = *tasks[me];
        for (std::uintptr_t g = a & ~std::uintptr_t{7}; g < a + n; g += 8)
        {
            std::uint8_t mask{0};
            for (unsigned k = 0; k < 8; ++k)
            {
                if (g + k >= a && g + k < a + n)
                {
                    mask = static_cast<std::uint8_t>(mask | (1U << k));
                }
            }
            auto& c = cells[g];
            if (st.race.empty())
            {
                if ((c.wmask & mask) != 0 && c.wtid != me && c.wclk > t.vc[c.wtid])
                {
                    Report(*w, a, n, write, "write", c.wtid);
                }
                if (write)
                {
                    for (std::size_t i = 0; i < kMaxTasks; ++i)
                    {
                        if (i != me && (c.rmask[i] & mask) != 0 && c.rclk[i] > t.vc[i])
                        {
                            Report(*w, a, n, write, "read", i);
                        }
                    }
                }
            }
            if (write)
            {
                c.wmask = c.wtid == me && c.wclk == t.vc[me] ? static_cast<std::uint8_t>(c.wmask | mask) : mask;
                c.wtid = static_cast<std::uint8_t>(me);
                c.wclk = t.vc[me];
            }
            else
            {
                c.rmask[me] = c.rclk[me] == t.vc[me] ? static_cast<std::uint8_t>(c.rmask[me] | mask) : mask;
                c.rclk[me] = t.vc[me];
            }
        }
    }
    void Report(const Watched& w, std::uintptr_t a, std::size_t n, bool write, const char* other, std::size_t tid)
    {
        char b[256];
        std::snprintf(b, sizeof b, "%s of %zu bytes at %s+%zu by task %d is not ordered with an earlier %s by task %zu",
                      write ? "write" : "read", n, w.name.c_str(), static_cast<std::size_t>(a - w.b), cur, other, tid);
        st.race = b;
    }
    static bool Acq(int mo)
    {
        return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
    }
    static bool Rel(int mo)
    {
        return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    }
    void SyncLoad(std::uintptr_t a, int mo)
    {
        if (cur < 0)
        {
            return;
        }
        auto& t = *tasks[static_cast<std::size_t>(cur)];
        auto it = sync.find(a);
        if (it == sync.end())
        {
            return;
        }
        if (Acq(mo))
        {
            Join(t.vc, it->second);
        }
        else
        {
            Join(t.fence_acquire, it->second);
        }
    }
    void SyncStore(std::uintptr_t a, int mo, bool rmw)
    {
        if (cur < 0)
        {
            return;
        }
        auto& t = *tasks[static_cast<std::size_t>(cur)];
        auto& s = sync[a];
        if (!rmw)
        {
            s = VC{};
        }
        if (Rel(mo))
        {
            Join(s, t.vc);
            ++t.vc[static_cast<std::size_t>(cur)];
        }
        else
        {
            Join(s, t.fence_release);
        }
    }
};
Engine* g_engine{nullptr};

void Entry()
{
    auto* e = g_engine;
    auto& t = *e->tasks[static_cast<std::size_t>(e->cur)];
    try
    {
        t.fn();
    }
    catch (...)
    {
        if (!e->error)
        {
            e->error = std::current_exception();
        }
        e->stop = true;
    }
    t.done = true;
    if (e->stop)
    {
        e->SwitchTo(-1);
    }
    e->Leave();
    std::abort();
}
bool InTask()
{
    return g_engine != nullptr && g_engine->cur >= 0 && !g_engine->stop;
}
}  // namespace

void Watch(const void* begin, std::size_t size, const char* name)
{
    const auto b = reinterpret_cast<std::uintptr_t>(begin);
    g_watched.push_back({b, b + size, name});
}
void Unwatch(const void* begin, std::size_t size)
{
    const auto b = reinterpret_cast<std::uintptr_t>(begin);
    g_watched.erase(std::remove_if(g_watched.begin(), g_watched.end(), [&](const Watched& w) { return w.b < b + size && b < w.e; }), g_watched.end());
    if (g_engine != nullptr)
    {
        for (auto g = b & ~std::uintptr_t{7}; g < b + size; g += 8U)
        {
            g_engine->cells.erase(g);
        }
    }
}
const void* g_unordered{nullptr};
void Unordered(const void* mutex)
{
    g_unordered = mutex;
}
void ClearWatches()
{
    g_watched.clear();
}
void Point()
{
    if (InTask())
    {
        g_engine->Point();
    }
}
int Current()
{
    return g_engine != nullptr ? g_engine->cur : -1;
}
std::uint64_t VirtualNow()
{
    return g_engine != nullptr ? g_engine->Now() : 0;
}
std::uint64_t Clock()
{
    return g_engine != nullptr ? g_engine->clock : 0;
}
void TouchRead(const void* p, std::size_t n)
{
    if (InTask())
    {
        g_engine->Access(reinterpret_cast<std::uintptr_t>(p), n, false);
    }
}
void TouchWrite(void* p, std::size_t n)
{
    if (InTask())
    {
        g_engine->Access(reinterpret_cast<std::uintptr_t>(p), n, true);
    }
}

Stats Run(pbt::Src& src, std::vector<std::function<void()>> tasks, const Options& options)
{
    Engine e;
    e.src = &src;
    e.opt = options;
    static const std::uint64_t kGaps[]{3, 8, 20, 60, 200, 1000};
    e.gap_max = kGaps[src.Below(6)];
    e.spurious_left = options.spurious_cas && src.Chance(1, 3) ? 1U : 0U;
    for (std::size_t i = 0; i < tasks.size() && i < kMaxTasks; ++i)
    {
        auto t = std::make_unique<Task>();
        t->stack = std::unique_ptr<char[]>(new char[kStack]);
        t->fn = std::move(tasks[i]);
        t->vc[i] = 1;
        if (i < options.kill_at.size())
        {
            t->kill_at = options.kill_at[i];
        }
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp = t->stack.get();
        t->ctx.uc_stack.ss_size = kStack;
        t->ctx.uc_link = nullptr;
        makecontext(&t->ctx, reinterpret_cast<void (*)()>(&Entry), 0);
        e.tasks.push_back(std::move(t));
    }
    auto* outer = g_engine;
    g_engine = &e;
    e.Draw();
    const auto first = static_cast<int>(src.Below(e.tasks.size()));
    e.cur = -1;
    e.SwitchTo(first);
    g_engine = outer;
    for (auto& t : e.tasks)
    {
        e.st.killed.push_back(t->killed);
        if (!t->done || t->killed)
        {
            // the stack of an abandoned task still holds live objects: never unwound, as in a killed process
            static std::vector<std::unique_ptr<char[]>> graveyard;
            if (graveyard.size() > 64)
            {
                graveyard.clear();
            }
            graveyard.push_back(std::move(t->stack));
        }
    }
    if (e.error)
    {
        std::rethrow_exception(e.error);
    }
    return e.st;
}
}  // namespace sched

using sched::g_engine;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define SCHED_RW(N)                                                                                              \
    void __tsan_read##N(void* a)                                                                                 \
    {                                                                                                            \
        if (sched::InTask()) g_engine->Access(reinterpret_cast<std::uintptr_t>(a), N, false);                    \
    }                                                                                                            \
    void __tsan_write##N(void* a)                                                                                \
    {                                                                                                            \
        if (sched::InTask()) g_engine->Access(reinterpret_cast<std::uintptr_t>(a), N, true);                     \
    }                                                                                                            \
    void __tsan_unaligned_read##N(void* a) { __tsan_read##N(a); }                                                \
    void __tsan_unaligned_write##N(void* a) { __tsan_write##N(a); }                                              \
    void __tsan_volatile_read##N(void* a) { __tsan_read##N(a); }                                                 \
    void __tsan_volatile_write##N(void* a) { __tsan_write##N(a); }                                               \
    void __tsan_unaligned_volatile_read##N(void* a) { __tsan_read##N(a); }                                       \
    void __tsan_unaligned_volatile_write##N(void* a) { __tsan_write##N(a); }
SCHED_RW(1)
SCHED_RW(2)
SCHED_RW(4)
SCHED_RW(8)
SCHED_RW(16)
void __tsan_read_range(void* a, std::size_t n)
{
    if (sched::InTask()) g_engine->Access(reinterpret_cast<std::uintptr_t>(a), n, false);
}
void __tsan_write_range(void* a, std::size_t n)
{
    if (sched::InTask()) g_engine->Access(reinterpret_cast<std::uintptr_t>(a), n, true);
}

#define SCHED_RMW(N, T, NAME, EXPR)                                                      \
    T __tsan_atomic##N##_##NAME(volatile T* a, T v, int mo)                              \
    {                                                                                    \
        if (!sched::InTask()) { const T o = *a; *a = static_cast<T>(EXPR); return o; }   \
        g_engine->Point();                                                               \
        const T o = *a;                                                                  \
        *a = static_cast<T>(EXPR);                                                       \
        g_engine->SyncLoad(reinterpret_cast<std::uintptr_t>(a), mo);                     \
        g_engine->SyncStore(reinterpret_cast<std::uintptr_t>(a), mo, true);              \
        return o;                                                                        \
    }
#define SCHED_CAS(N, T, NAME, WEAK)                                                                       \
    bool __tsan_atomic##N##_compare_exchange_##NAME(volatile T* a, T* c, T v, int mo, int fmo)            \
    {                                                                                                     \
        const bool in = sched::InTask();                                                                  \
        if (in) g_engine->Point();                                                                        \
        const T o = *a;                                                                                   \
        if (in && WEAK && o == *c && g_engine->spurious_left > 0 && g_engine->src->Chance(1, 6))          \
        {                                                                                                 \
            --g_engine->spurious_left;                                                                    \
            ++g_engine->st.spurious;                                                                      \
            g_engine->SyncLoad(reinterpret_cast<std::uintptr_t>(a), fmo);                                 \
            return false;                                                                                 \
        }                                                                                                 \
        if (o == *c)                                                                                      \
        {                                                                                                 \
            *a = v;                                                                                       \
            if (in)                                                                                       \
            {                                                                                             \
                g_engine->SyncLoad(reinterpret_cast<std::uintptr_t>(a), mo);                              \
                g_engine->SyncStore(reinterpret_cast<std::uintptr_t>(a), mo, true);                       \
            }                                                                                             \
            return true;                                                                                  \
        }                                                                                                 \
        *c = o;                                                                                           \
        if (in) g_engine->SyncLoad(reinterpret_cast<std::uintptr_t>(a), fmo);                             \
        return false;                                                                                     \
    }
#define SCHED_ATOMIC(N, T)                                                                   \
    T __tsan_atomic##N##_load(const volatile T* a, int mo)                                   \
    {                                                                                        \
        if (!sched::InTask()) return *a;                                                     \
        g_engine->Point();                                                                   \
        g_engine->SyncLoad(reinterpret_cast<std::uintptr_t>(a), mo);                         \
        return *a;                                                                           \
    }                                                                                        \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo)                                \
    {                                                                                        \
        if (!sched::InTask()) { *a = v; return; }                                            \
        g_engine->Point();                                                                   \
        *a = v;                                                                              \
        g_engine->SyncStore(reinterpret_cast<std::uintptr_t>(a), mo, false);                 \
    }                                                                                        \
    SCHED_RMW(N, T, exchange, v)                                                             \
    SCHED_RMW(N, T, fetch_add, o + v)                                                        \
    SCHED_RMW(N, T, fetch_sub, o - v)                                                        \
    SCHED_RMW(N, T, fetch_and, o & v)                                                        \
    SCHED_RMW(N, T, fetch_or, o | v)                                                         \
    SCHED_RMW(N, T, fetch_xor, o ^ v)                                                        \
    SCHED_RMW(N, T, fetch_nand, ~(o & v))                                                    \
    SCHED_CAS(N, T, strong, false)                                                           \
    SCHED_CAS(N, T, weak, true)
SCHED_ATOMIC(8, std::uint8_t)
SCHED_ATOMIC(16, std::uint16_t)
SCHED_ATOMIC(32, std::uint32_t)
SCHED_ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!sched::InTask())
    {
        return;
    }
    g_engine->Point();
    auto& t = *g_engine->tasks[static_cast<std::size_t>(g_engine->cur)];
    if (sched::Engine::Acq(mo))
    {
        sched::Join(t.vc, t.fence_acquire);
    }
    if (sched::Engine::Rel(mo))
    {
        t.fence_release = t.vc;
        ++t.vc[static_cast<std::size_t>(g_engine->cur)];
    }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---- mutexes, read-write locks and condition variables of tasks are cooperative ----
namespace
{
template <typename F>
F Real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
bool Recursive(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
void Acquire(sched::MutexState& s)
{
    sched::Join(g_engine->tasks[static_cast<std::size_t>(g_engine->cur)]->vc, s.vc);
}
void Release(sched::MutexState& s)
{
    auto& t = *g_engine->tasks[static_cast<std::size_t>(g_engine->cur)];
    sched::Join(s.vc, t.vc);
    ++t.vc[static_cast<std::size_t>(g_engine->cur)];
}
void CoLock(void* m, bool recursive)
{
    g_engine->Point();
    auto* s = &g_engine->mutexes[m];
    const auto me = g_engine->cur;
    if (s->owner == me && recursive)
    {
        ++s->count;
        return;
    }
    while (s->owner != -1 || s->readers > 0)
    {
        g_engine->Block([s] { return s->owner == -1 && s->readers == 0; }, false);
    }
    s->owner = me;
    s->count = 1;
    if (m != sched::g_unordered)
    {
        Acquire(*s);
    }
}
void CoUnlock(void* m)
{
    auto& s = g_engine->mutexes[m];
    if (s.owner == g_engine->cur)
    {
        if (--s.count == 0)
        {
            s.owner = -1;
            if (m != sched::g_unordered)
            {
                Release(s);
            }
        }
    }
    else if (s.readers > 0)
    {
        --s.readers;
        Release(s);
    }
    g_engine->Point();
}
bool VirtualTime()
{
    return sched::InTask() && g_engine->opt.virtual_time;
}
std::uint64_t Nanos(const struct timespec* ts)
{
    return static_cast<std::uint64_t>(ts->tv_sec) * 1000000000ULL + static_cast<std::uint64_t>(ts->tv_nsec);
}
int CoWait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* until)
{
    g_engine->Point();  // between the check of the condition and the waiting for it
    const bool timed = until != nullptr;
    const bool virtual_time = timed && g_engine->opt.virtual_time;
    const std::uint64_t wake_at = virtual_time ? Nanos(until) : 0U;
    auto& s = g_engine->mutexes[m];
    const auto me = g_engine->cur;
    s.owner = -1;
    s.count = 0;
    if (m != sched::g_unordered)
    {
        Release(s);
    }
    g_engine->waiting[c].push_back(me);
    auto* e = g_engine;
    e->Block(
        [e, c, me, virtual_time, wake_at] {
            auto& w = e->waiting[c];
            return std::find(w.begin(), w.end(), me) == w.end() || (virtual_time && e->Now() >= wake_at);
        },
        timed,
        wake_at);
    auto& w = e->waiting[c];
    const bool to = virtual_time ? std::find(w.begin(), w.end(), me) != w.end() : e->tasks[static_cast<std::size_t>(me)]->timed_out;
    w.erase(std::remove(w.begin(), w.end(), me), w.end());
    CoLock(m, false);
    return to ? ETIMEDOUT : 0;
}
}  // namespace
extern "C" {
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req, struct timespec* rem)
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
        return real(clk, flags, req, rem);
    }
    // a sleeping task goes on when nobody else can, or after the others made progress
    auto* e = g_engine;
    if (e->opt.virtual_time)
    {
        const auto wake_at = Nanos(req) + ((flags & TIMER_ABSTIME) != 0 ? 0U : e->Now());
        e->Block([e, wake_at] { return e->Now() >= wake_at; }, true, wake_at);
        return 0;
    }
    const auto until = e->clock + 300;
    e->Block([e, until] { return e->clock >= until; }, true);
    return 0;
}
int nanosleep(const struct timespec* req, struct timespec* rem)
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
        return real(req, rem);
    }
    return clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
}
int sched_yield() noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)()>("sched_yield");
        return real();
    }
    auto* e = g_engine;
    const auto until = e->clock + 1;
    e->Block([e, until] { return e->clock >= until; }, true);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        return real(m);
    }
    CoLock(m, Recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        return real(m);
    }
    auto& s = g_engine->mutexes[m];
    if (s.owner == -1 && s.readers == 0)
    {
        CoLock(m, false);
        return 0;
    }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        return real(m);
    }
    CoUnlock(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
        return real(m);
    }
    CoLock(m, false);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
        return real(m);
    }
    g_engine->Point();
    auto* s = &g_engine->mutexes[m];
    while (s->owner != -1)
    {
        g_engine->Block([s] { return s->owner == -1; }, false);
    }
    ++s->readers;
    Acquire(*s);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
        return real(m);
    }
    CoUnlock(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
        return real(c, m);
    }
    return CoWait(c, m, nullptr);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
        return real(c, m, clk, ts);
    }
    return CoWait(c, m, ts);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
        return real(c, m, ts);
    }
    return CoWait(c, m, ts);
}
int clock_gettime(clockid_t clk, struct timespec* ts) noexcept
{
    if (!VirtualTime())
    {
        static auto real = Real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
        return real(clk, ts);
    }
    const auto now = g_engine->Now();
    ts->tv_sec = static_cast<time_t>(now / 1000000000ULL);
    ts->tv_nsec = static_cast<long>(now % 1000000000ULL);
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept
{
    if (!VirtualTime())
    {
        static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        return real(t, a, f, arg);
    }
    auto* e = g_engine;
    std::size_t slot{e->tasks.size()};
    for (std::size_t i = 0; i < e->tasks.size(); ++i)
    {
        if (e->tasks[i]->done && !e->tasks[i]->killed && e->tasks[i]->thread != 0)
        {
            slot = i;
            break;
        }
    }
    if (slot >= sched::kMaxTasks)
    {
        return EAGAIN;
    }
    static pthread_t serial{0};
    *t = 0x7000000000000000ULL + ++serial;
    auto task = std::make_unique<sched::Task>();
    task->stack = std::unique_ptr<char[]>(new char[sched::kStack]);
    task->thread = *t;
    task->fn = [e, f, arg, id = *t, slot] {
        f(arg);
        auto& thread = e->threads[id];
        thread.vc = e->tasks[slot]->vc;
        thread.done = true;
    };
    auto& parent = *e->tasks[static_cast<std::size_t>(e->cur)];
    task->vc = parent.vc;
    ++parent.vc[static_cast<std::size_t>(e->cur)];
    if (slot < e->tasks.size())
    {
        sched::Join(task->vc, e->tasks[slot]->vc);
    }
    ++task->vc[slot];
    getcontext(&task->ctx);
    task->ctx.uc_stack.ss_sp = task->stack.get();
    task->ctx.uc_stack.ss_size = sched::kStack;
    task->ctx.uc_link = nullptr;
    makecontext(&task->ctx, reinterpret_cast<void (*)()>(&sched::Entry), 0);
    e->threads[*t] = {};
    if (slot < e->tasks.size())
    {
        e->tasks[slot] = std::move(task);
    }
    else
    {
        e->tasks.push_back(std::move(task));
    }
    e->Point();
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    if (!VirtualTime())
    {
        static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
        return real(t, r);
    }
    auto* e = g_engine;
    auto& thread = e->threads.at(t);
    if (!thread.done)
    {
        e->Block([&thread] { return thread.done; }, false);
    }
    sched::Join(e->tasks[static_cast<std::size_t>(e->cur)]->vc, thread.vc);
    if (r != nullptr)
    {
        *r = nullptr;
    }
    return 0;
}
int pthread_detach(pthread_t t) noexcept
{
    if (!VirtualTime())
    {
        static auto real = Real<int (*)(pthread_t)>("pthread_detach");
        return real(t);
    }
    return 0;
}
pthread_t pthread_self() noexcept
{
    static auto real = Real<pthread_t (*)()>("pthread_self");
    if (!VirtualTime())
    {
        return real();
    }
    const auto t = g_engine->tasks[static_cast<std::size_t>(g_engine->cur)]->thread;
    return t != 0 ? t : 0x7100000000000000ULL + static_cast<pthread_t>(g_engine->cur);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        return real(c);
    }
    auto& w = g_engine->waiting[c];
    if (!w.empty())
    {
        w.erase(w.begin() + static_cast<std::ptrdiff_t>(g_engine->src->Below(w.size())));
    }
    g_engine->Point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!sched::InTask())
    {
        static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        return real(c);
    }
    g_engine->waiting[c].clear();
    g_engine->Point();
    return 0;
}
}
