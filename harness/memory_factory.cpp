// Life cycle of named shared memory: creation, opening and removal by several processes whose schedules (and deaths) are
// owned at the granularity of operating system calls, sequential histories against a model, lock files and flock mutexes.
#include "pbt.h"
#include "death.h"

#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/lock_file.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/memory/shared/typedshm/typedshm_wrapper/typed_memory.h"
#include "score/os/utils/acl/access_control_list.h"
#include "score/os/verif_os.h"

#include <dirent.h>
#include <dlfcn.h>
#include <semaphore.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace
{
using namespace score::memory::shared;
using Factory = SharedMemoryFactory;
auto& Os()
{
    return verif_shim::OsControl::Get();
}

/// A scratch tree in which all files of a case live.
class Tree
{
  public:
    Tree()
    {
        static int n{0};
        root = "/dev/shm/vp_fac_" + std::to_string(getpid()) + "_" + std::to_string(++n);
        ::mkdir(root.c_str(), 0777);
        ::mkdir((root + "/dev").c_str(), 0777);
        ::mkdir((root + "/dev/shm").c_str(), 0777);
        ::mkdir((root + "/tmp").c_str(), 0777);
        Os().root = root;
    }
    ~Tree()
    {
        Empty(root + "/dev/shm");
        Empty(root + "/tmp");
        ::rmdir((root + "/dev/shm").c_str());
        ::rmdir((root + "/dev").c_str());
        ::rmdir((root + "/tmp").c_str());
        ::rmdir(root.c_str());
        Os().root.clear();
        Os().fault = nullptr;
        Os().uid = -1;
    }
    static std::vector<std::string> List(const std::string& dir)
    {
        std::vector<std::string> v;
        if (DIR* d = ::opendir(dir.c_str()))
        {
            while (const dirent* e = ::readdir(d))
            {
                if (e->d_name[0] != '.')
                {
                    v.emplace_back(e->d_name);
                }
            }
            ::closedir(d);
        }
        return v;
    }
    static void Empty(const std::string& dir)
    {
        for (const auto& f : List(dir))
        {
            ::unlink((dir + "/" + f).c_str());
        }
    }
    std::string Shm(const std::string& path) const { return root + "/dev/shm" + path; }
    std::string Lock(const std::string& path) const { return root + "/tmp" + path + "_lock"; }
    static std::uint64_t Inode(const std::string& f)
    {
        struct stat s
        {
        };
        return ::lstat(f.c_str(), &s) == 0 ? s.st_ino : 0U;
    }
    std::string root;
};

std::size_t OpenFds()
{
    return Tree::List("/proc/self/fd").size();
}

/// What a creator puts into a region.
struct Content
{
    static constexpr std::uint64_t kMagic{0x5C0E3A11D00DF00DULL};
    std::uint64_t magic;
    std::uint64_t gen;
    std::uint64_t size;  // user bytes asked for
    std::uint64_t sum;
    unsigned char bytes[1];
};
constexpr std::size_t kContentHead{offsetof(Content, bytes)};
unsigned char PatternAt(std::uint64_t gen, std::size_t i)
{
    return static_cast<unsigned char>(pbt::Mix(gen * 1000003U + i) | 1U);
}
void Fill(ManagedMemoryResource& r, std::uint64_t gen, std::size_t size, const std::function<void()>& pause)
{
    auto* const c = static_cast<Content*>(r.allocate(size, 8U));
    c->gen = gen;
    pause();
    c->size = size;
    std::uint64_t sum{gen};
    for (std::size_t i = 0; i + kContentHead < size; ++i)
    {
        c->bytes[i] = PatternAt(gen, i);
        sum += c->bytes[i];
        if (i == (size - kContentHead) / 2U)
        {
            pause();
        }
    }
    c->sum = sum;
    pause();
    c->magic = Content::kMagic;
}
/// 0 when the content is not complete and consistent
std::uint64_t Verify(ISharedMemoryResource& r)
{
    const auto* const c = static_cast<const Content*>(r.getUsableBaseAddress());
    struct stat st
    {
    };
    ::fstat(r.GetFileDescriptor(), &st);
    const auto head = static_cast<const char*>(r.getUsableBaseAddress()) - static_cast<const char*>(r.getBaseAddress());
    const auto room = static_cast<std::size_t>(st.st_size - head);
    if (c->magic != Content::kMagic || c->gen == 0U || c->size != room || r.GetUserAllocatedBytes() != c->size)
    {
        return 0U;
    }
    std::uint64_t sum{c->gen};
    for (std::size_t i = 0; i + kContentHead < c->size; ++i)
    {
        if (c->bytes[i] != PatternAt(c->gen, i))
        {
            return 0U;
        }
        sum += c->bytes[i];
    }
    return sum == c->sum ? c->gen : 0U;
}

// ------------------------------------------------------------------------------------------------ process schedules
enum : int
{
    kRunning = 0,
    kAtPoint,
    kSleeping,
    kDone,
    kAborted,
    kKilled,
};
constexpr unsigned kMaxWorkers{3};
constexpr unsigned kMaxOps{8};
const std::string kPaths[2]{"/vp_a", "/vp_b"};

struct OpRecord
{
    char op;
    unsigned path;
    unsigned start, end;  // steps
    bool finished;
    bool held_before;
    bool same;      // the handle returned is the one that was held
    bool null;
    unsigned callbacks;
    std::uint64_t gen;     // verified content, 0: bad
    std::uint64_t my_gen;  // generation made by the callback
    std::uint64_t inode;
};
struct SharedWorker
{
    sem_t go, at;
    volatile int state;
    volatile bool die;
    char what[24];
    unsigned n_ops;
    OpRecord ops[kMaxOps];
};
struct SharedState
{
    SharedWorker w[kMaxWorkers];
    volatile unsigned step;
    volatile std::uint64_t next_gen;
    bool bad_held;
    char bad_text[200];
};
SharedState* g_state{nullptr};
int g_self{-1};

void Stop(int state, const char* what)
{
    auto& w = g_state->w[g_self];
    w.state = state;
    std::snprintf(w.what, sizeof w.what, "%s", what);
    sem_post(&w.at);
    if (state == kDone || state == kAborted)
    {
        return;
    }
    while (sem_wait(&w.go) != 0)
    {
    }
    if (w.die)
    {
        w.state = kKilled;
        sem_post(&w.at);
        ::_exit(0);
    }
    w.state = kRunning;
}
}  // namespace

extern "C" int nanosleep(const struct timespec* d, struct timespec* r)
{
    if (g_self >= 0)
    {
        Stop(kSleeping, "sleep");
        return 0;
    }
    return static_cast<int>(::syscall(SYS_nanosleep, d, r));
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* d, struct timespec* r)
{
    if (g_self >= 0)
    {
        Stop(kSleeping, "sleep");
        return 0;
    }
    return ::syscall(SYS_clock_nanosleep, c, flags, d, r) == 0 ? 0 : errno;
}

namespace
{
struct Step
{
    char op;
    unsigned path;
    std::size_t size;
    bool rw;
};

void WorkerMain(int self, const std::vector<Step>& program)
{
    g_self = self;
    std::signal(SIGABRT, [](int) {
        Stop(kAborted, "abort");
        ::_exit(1);
    });
    Os().fault = [](const char* op, const std::string&) {
        if (std::strcmp(op, "close") != 0)
        {
            Stop(kAtPoint, op);
        }
        return 0;
    };
    auto& me = g_state->w[self];
    std::shared_ptr<ISharedMemoryResource> held[2];
    Stop(kAtPoint, "start");
    for (const auto& s : program)
    {
        auto& rec = me.ops[me.n_ops];
        rec = OpRecord{};
        rec.op = s.op;
        rec.path = s.path;
        rec.start = g_state->step;
        rec.held_before = held[s.path] != nullptr;
        me.n_ops = me.n_ops + 1U;
        auto cb = [&](std::shared_ptr<ISharedMemoryResource> r) {
            ++rec.callbacks;
            g_state->next_gen = g_state->next_gen + 1U;
            rec.my_gen = g_state->next_gen;
            Fill(*r, rec.my_gen, s.size, [] { Stop(kAtPoint, "initialize"); });
        };
        std::shared_ptr<ISharedMemoryResource> got;
        bool is_access{true};
        switch (s.op)
        {
            case 'c':
                got = Factory::Create(kPaths[s.path], cb, s.size);
                break;
            case 'C':
                got = Factory::CreateOrOpen(kPaths[s.path], cb, s.size);
                break;
            case 'o':
                got = Factory::Open(kPaths[s.path], s.rw);
                break;
            case 'd':
                is_access = false;
                held[s.path].reset();
                break;
            default:
                is_access = false;
                if (held[s.path] != nullptr)
                {
                    Factory::Remove(kPaths[s.path]);
                    held[s.path].reset();
                }
                break;
        }
        rec.end = g_state->step;
        if (is_access)
        {
            rec.null = got == nullptr;
            rec.same = got != nullptr && got == held[s.path];
            if (got != nullptr)
            {
                rec.gen = Verify(*got);
                struct stat st
                {
                };
                ::fstat(got->GetFileDescriptor(), &st);
                rec.inode = st.st_ino;
                held[s.path] = got;
            }
        }
        rec.finished = true;
        for (auto& h : held)
        {
            if (h != nullptr && Verify(*h) == 0U)
            {
                g_state->bad_held = true;
                std::snprintf(g_state->bad_text, sizeof g_state->bad_text, "after operation %u of process %d a region it has open lost its content", me.n_ops, self);
            }
        }
        Stop(kAtPoint, "between");
    }
    held[0].reset();
    held[1].reset();
    Stop(kDone, "done");
    ::_exit(0);
}
}  // namespace

PBT_PROPERTY(factory_schedules, 20000, 600000)
{
    Tree tree;
    if (g_state == nullptr)
    {
        g_state = static_cast<SharedState*>(::mmap(nullptr, sizeof(SharedState), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    std::memset(static_cast<void*>(g_state), 0, sizeof(SharedState));
    const unsigned n = src.Range<unsigned>(2, kMaxWorkers);
    const unsigned n_paths = src.Chance(1, 4) ? 2U : 1U;
    const bool removals = src.Chance(1, 3);
    std::vector<std::vector<Step>> programs(n);
    for (unsigned w = 0; w < n; ++w)
    {
        const unsigned k = src.Range<unsigned>(1, 4);
        for (unsigned i = 0; i < k; ++i)
        {
            Step s{"cCodr"[src.Weighted({3, 4, 4, 2, removals ? 2U : 0U})], static_cast<unsigned>(src.Below(n_paths)), 0U, false};
            s.size = kContentHead + 8U + 8U * src.Below(12);
            s.rw = src.Bool();
            programs[w].push_back(s);
        }
    }
    // a process that dies does so after this many of its steps
    int victim{-1};
    unsigned victim_steps{0};
    if (src.Chance(1, 4))
    {
        victim = static_cast<int>(src.Below(n));
        victim_steps = src.Range<unsigned>(1, 20);
    }
    const mode_t old_umask = ::umask(0);
    std::vector<pid_t> pids(n);
    for (unsigned w = 0; w < n; ++w)
    {
        sem_init(&g_state->w[w].go, 1, 0);
        sem_init(&g_state->w[w].at, 1, 0);
    }
    for (unsigned w = 0; w < n; ++w)
    {
        pids[w] = ::fork();
        if (pids[w] == 0)
        {
            WorkerMain(static_cast<int>(w), programs[w]);
        }
    }
    auto wait_for = [&](unsigned w) {
        struct timespec t
        {
        };
        ::clock_gettime(CLOCK_REALTIME, &t);
        t.tv_sec += 15;
        while (sem_timedwait(&g_state->w[w].at, &t) != 0)
        {
            if (errno == ETIMEDOUT)
            {
                return false;
            }
        }
        return true;
    };
    bool stuck{false};
    for (unsigned w = 0; w < n; ++w)
    {
        stuck |= !wait_for(w);
    }
    struct Snapshot
    {
        std::uint64_t shm[2];
        std::uint64_t lock[2];
        int lock_owner[2];
    };
    std::vector<Snapshot> snaps;
    Snapshot now{};
    now.lock_owner[0] = now.lock_owner[1] = -1;
    auto look = [&](int who) {
        for (unsigned p = 0; p < 2; ++p)
        {
            now.shm[p] = Tree::Inode(tree.Shm(kPaths[p]));
            const auto lock = Tree::Inode(tree.Lock(kPaths[p]));
            if (lock == 0U)
            {
                now.lock_owner[p] = -1;
            }
            else if (lock != now.lock[p] || now.lock_owner[p] < 0)
            {
                now.lock_owner[p] = who;
            }
            now.lock[p] = lock;
        }
        snaps.push_back(now);
    };
    look(-1);
    unsigned taken[kMaxWorkers]{};
    unsigned naps{0};
    unsigned switches{0};
    int last{-1};
    bool crashed{false};
    std::string crashed_at;
    while (!stuck)
    {
        std::vector<unsigned> ready;
        std::vector<unsigned> asleep;
        for (unsigned w = 0; w < n; ++w)
        {
            const int st = g_state->w[w].state;
            if (st == kAtPoint)
            {
                ready.push_back(w);
            }
            else if (st == kSleeping)
            {
                asleep.push_back(w);
            }
        }
        if (ready.empty() && asleep.empty())
        {
            break;
        }
        unsigned pick;
        if (ready.empty() || (!asleep.empty() && naps < 15U && src.Chance(1, 5)))
        {
            pick = asleep[src.Below(asleep.size())];
            naps += ready.empty() ? 0U : 1U;
        }
        else
        {
            // mostly go on with the same process
            const bool stay = last >= 0 && g_state->w[last].state == kAtPoint && !src.Chance(2, 5);
            pick = stay ? static_cast<unsigned>(last) : ready[src.Below(ready.size())];
        }
        auto& w = g_state->w[pick];
        if (static_cast<int>(pick) != last)
        {
            ++switches;
        }
        last = static_cast<int>(pick);
        if (static_cast<int>(pick) == victim && ++taken[pick] == victim_steps)
        {
            w.die = true;
            crashed = true;
            crashed_at = w.what;
        }
        ctx.Note("%u: %s%s", pick, w.what, w.die ? " (dies)" : "");
        g_state->step = g_state->step + 1U;
        sem_post(&w.go);
        stuck |= !wait_for(pick);
        look(static_cast<int>(pick));
        if (g_state->step > 3000U)
        {
            stuck = true;
        }
    }
    for (const auto pid : pids)
    {
        if (stuck)
        {
            ::kill(pid, SIGKILL);
        }
        int status{0};
        while (::waitpid(pid, &status, 0) < 0 && errno == EINTR)
        {
        }
    }
    ::umask(old_umask);
    PBT_CHECK(ctx, !stuck, "the processes do not come to an end");
    PBT_CHECK(ctx, !g_state->bad_held, "%s", g_state->bad_text);

    std::map<std::uint64_t, unsigned> creations;  // inode -> creators
    unsigned opened_by_others{0};
    for (unsigned w = 0; w < n; ++w)
    {
        const auto& me = g_state->w[w];
        for (unsigned i = 0; i < me.n_ops; ++i)
        {
            const auto& r = me.ops[i];
            const char* const name = r.op == 'c' ? "Create" : r.op == 'C' ? "CreateOrOpen" : r.op == 'o' ? "Open" : r.op == 'd' ? "drop" : "Remove";
            if (!r.finished)
            {
                // the process died in this operation
                if (me.state == kAborted)
                {
                    bool stale{false};
                    for (unsigned p = 0; p < 2; ++p)
                    {
                        const int owner = snaps.back().lock_owner[p];
                        stale |= owner >= 0 && g_state->w[owner].state == kKilled;
                    }
                    PBT_CHECK(ctx, stale, "process %u: %s(%s) terminated the process although nobody left a lock file behind", w, name, kPaths[r.path].c_str());
                }
                continue;
            }
            bool always{true};
            bool ever{false};
            bool vanished{false};
            bool foreign_lock{false};
            for (unsigned k = r.start; k <= r.end; ++k)
            {
                always &= snaps[k].shm[r.path] != 0U;
                ever |= snaps[k].shm[r.path] != 0U;
                vanished |= k > r.start && snaps[k].shm[r.path] != snaps[k - 1U].shm[r.path] && snaps[k - 1U].shm[r.path] != 0U;
                foreign_lock |= snaps[k].lock[r.path] != 0U && snaps[k].lock_owner[r.path] != static_cast<int>(w);
            }
            if (r.op == 'd')
            {
                continue;
            }
            if (r.op == 'r')
            {
                if (r.held_before)
                {
                    bool gone{false};
                    for (unsigned k = r.start; k <= r.end; ++k)
                    {
                        gone |= snaps[k].shm[r.path] == 0U;
                    }
                    PBT_CHECK(ctx, gone, "process %u: Remove(%s) left the object in place", w, kPaths[r.path].c_str());
                }
                continue;
            }
            ctx.Note("process %u %s(%s) steps %u-%u -> %s gen %lu callbacks %u", w, name, kPaths[r.path].c_str(), r.start, r.end, r.null ? "null" : "resource", r.gen, r.callbacks);
            if (!r.null)
            {
                PBT_CHECK(ctx, r.gen != 0U, "process %u: %s(%s) handed out a region without its complete content", w, name, kPaths[r.path].c_str());
                PBT_CHECK(ctx, r.callbacks <= 1U, "process %u: %s(%s) initialised the region %u times", w, name, kPaths[r.path].c_str(), r.callbacks);
                PBT_CHECK(ctx, r.callbacks == 0U || r.gen == r.my_gen, "process %u: %s(%s) initialised a region and returned another one", w, name, kPaths[r.path].c_str());
                if (r.callbacks == 1U)
                {
                    PBT_CHECK(ctx, ++creations[r.inode] == 1U, "%s was initialised by two processes", kPaths[r.path].c_str());
                }
                else if (!r.held_before)
                {
                    ++opened_by_others;
                }
            }
            else
            {
                PBT_CHECK(ctx, r.callbacks == 0U, "process %u: %s(%s) initialised a region but returned none", w, name, kPaths[r.path].c_str());
            }
            if (r.held_before)
            {
                if (r.op == 'c')
                {
                    PBT_CHECK(ctx, r.null, "process %u: Create(%s) succeeded for an object that this process has open", w, kPaths[r.path].c_str());
                }
                else
                {
                    PBT_CHECK(ctx, r.same, "process %u: %s(%s) did not return the resource this process has open", w, name, kPaths[r.path].c_str());
                }
                continue;
            }
            switch (r.op)
            {
                case 'c':
                    PBT_CHECK(ctx, r.null || r.callbacks == 1U, "process %u: Create(%s) returned a region it did not initialise", w, kPaths[r.path].c_str());
                    PBT_CHECK(ctx, r.null || !always || vanished, "process %u: Create(%s) succeeded although the object existed", w, kPaths[r.path].c_str());
                    PBT_CHECK(ctx, !r.null || ever || foreign_lock, "process %u: Create(%s) failed although there was no such object and nobody worked on it", w, kPaths[r.path].c_str());
                    break;
                case 'o':
                    PBT_CHECK(ctx, !r.null || !always, "process %u: Open(%s) failed although the object existed", w, kPaths[r.path].c_str());
                    PBT_CHECK(ctx, r.null || ever, "process %u: Open(%s) succeeded although there was no such object", w, kPaths[r.path].c_str());
                    PBT_CHECK(ctx, r.callbacks == 0U, "process %u: Open(%s) initialised the region", w, kPaths[r.path].c_str());
                    break;
                default:
                    PBT_CHECK(ctx, !r.null || vanished, "process %u: CreateOrOpen(%s) returned nothing", w, kPaths[r.path].c_str());
                    break;
            }
        }
    }
    if (!crashed)
    {
        PBT_CHECK(ctx, Tree::List(tree.root + "/tmp").empty(), "a lock file is left after all processes ended");
    }
    ctx.Count("steps", g_state->step);
    if (crashed)
    {
        ctx.Label(("died at " + crashed_at).c_str());
    }
    if (opened_by_others > 0U)
    {
        ctx.Label("opened what another process created");
    }
    if ((switches > n && !creations.empty()) || crashed)
    {
        ctx.NonTrivial();
    }
    // whatever happened: a restarted provider cleans up and creates the object afresh
    const std::size_t size = kContentHead + 64U;
    for (unsigned p = 0; p < n_paths; ++p)
    {
        Factory::RemoveStaleArtefacts(kPaths[p]);
        unsigned calls{0};
        auto r = Factory::Create(kPaths[p], [&](std::shared_ptr<ISharedMemoryResource> m) {
            ++calls;
            Fill(*m, 77U, size, [] {});
        }, size);
        PBT_CHECK(ctx, r != nullptr && calls == 1U && Verify(*r) == 77U, "after RemoveStaleArtefacts(%s) the object cannot be created afresh", kPaths[p].c_str());
        Factory::Remove(kPaths[p]);
        PBT_CHECK(ctx, Verify(*r) == 77U, "the region lost its content when its name was removed");
    }
    PBT_CHECK(ctx, Tree::List(tree.root + "/tmp").empty() && Tree::List(tree.root + "/dev/shm").empty(), "files are left after Remove");
}

// ------------------------------------------------------------------------------------------------ sequential model
namespace
{
class Provider final : public TypedMemory
{
  public:
    score::cpp::expected_blank<score::os::Error> AllocateNamedTypedMemory(const std::size_t size, const std::string name, const permission::UserPermissions&) const noexcept override
    {
        if (refuse)
        {
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOMEM));
        }
        const auto f = Os().root + "/dev/shm" + (name[0] == '/' ? name : "/" + name);
        const int fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd < 0)
        {
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(errno));
        }
        ++named;
        if (::ftruncate(fd, static_cast<off_t>(size)) != 0)
        {
            std::abort();
        }
        ::close(fd);
        return {};
    }
    score::cpp::expected<int, score::os::Error> AllocateAndOpenAnonymousTypedMemory(const std::uint64_t size) const noexcept override
    {
        if (refuse)
        {
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOMEM));
        }
        ++anonymous;
        const int fd = ::memfd_create("vp", MFD_CLOEXEC);
        if (::ftruncate(fd, static_cast<off_t>(size)) != 0)
        {
            std::abort();
        }
        return fd;
    }
    score::cpp::expected_blank<score::os::Error> Unlink(std::string_view name) const noexcept override
    {
        ++unlinked;
        ::unlink((Os().root + "/dev/shm" + std::string{name}).c_str());
        return {};
    }
    score::cpp::expected<uid_t, score::os::Error> GetCreatorUid(std::string_view) const noexcept override { return 0; }
    bool refuse{false};
    mutable unsigned named{0};
    mutable unsigned anonymous{0};
    mutable unsigned unlinked{0};
};
}  // namespace

PBT_PROPERTY(factory_model, 60000, 2000000)
{
    const std::size_t fds = OpenFds();
    Tree tree;
    score::os::AccessControlList::Records().clear();
    static const std::array<std::string, 4> paths{"/vp_one", "/vp_two", "/intervm-shared-shmem_no", "/intervm-shared-shmem/x"};
    ::mkdir((tree.root + "/dev/shm/intervm-shared-shmem").c_str(), 0777);
    ::mkdir((tree.root + "/tmp/intervm-shared-shmem").c_str(), 0777);
    struct Entry
    {
        bool exists{false};
        std::uint64_t gen{0};
        std::size_t size{0};
        uid_t owner{0};
        bool typed{false};
        std::shared_ptr<ISharedMemoryResource> held;  // known to the factory
        std::shared_ptr<ISharedMemoryResource> old;   // removed but still mapped
        std::uint64_t old_gen{0};
        bool lock{false};
    };
    std::array<Entry, 4> model;
    auto typed = src.Chance(1, 2) ? std::make_shared<Provider>() : nullptr;
    auto inter = src.Chance(1, 2) ? std::make_shared<Provider>() : nullptr;
    Factory::SetTypedMemoryProvider(typed);
    Factory::SetInterVMMemoryProvider(inter);
    static const mode_t masks[]{0000, 0002, 0022, 0077};
    const mode_t mask = masks[src.Below(4)];
    const mode_t old_mask = ::umask(mask);
    struct Restore
    {
        mode_t m;
        ~Restore()
        {
            ::umask(m);
            Factory::SetTypedMemoryProvider(nullptr);
            Factory::SetInterVMMemoryProvider(nullptr);
        }
    } restore{old_mask};
    static const uid_t uids[]{0, 1000, 1001, 70000};
    uid_t me{0};
    bool refused_lock{false};
    bool refused_provider{false};
    unsigned successes{0};
    std::uint64_t gen{0};
    std::vector<std::shared_ptr<ISharedMemoryResource>> anonymous;
    const unsigned n = src.Range<unsigned>(3, 25);
    for (unsigned i = 0; i < n; ++i)
    {
        const unsigned p = src.Weighted({4, 3, 1, 1});
        auto& e = model[p];
        const auto& path = paths[p];
        const bool inter_path = p == 3U;
        const std::size_t size = kContentHead + 8U + src.Below(src.Chance(1, 8) ? 20000U : 200U);
        unsigned callbacks{0};
        auto cb = [&](std::shared_ptr<ISharedMemoryResource> r) {
            ++callbacks;
            const auto content = r->getUsableBaseAddress();
            PBT_CHECK(ctx, r->GetUserAllocatedBytes() == 0U, "a new region starts with %zu bytes allocated", r->GetUserAllocatedBytes());
            PBT_CHECK(ctx, static_cast<Content*>(content)->magic == 0U, "a new region is not empty");
            Fill(*r, ++gen, size - size % 8U, [] {});
        };
        const std::size_t rounded = size - size % 8U;
        bool null_expected{false};
        auto fresh = [&](const std::shared_ptr<ISharedMemoryResource>& r, const char* what, bool use_typed, const ISharedMemoryResource::UserPermissions& perms) {
            PBT_CHECK(ctx, r != nullptr, "%s(%s) failed", what, path.c_str());
            PBT_CHECK(ctx, callbacks == 1U, "%s(%s) called the initialiser %u times", what, path.c_str(), callbacks);
            PBT_CHECK(ctx, Verify(*r) == gen, "%s(%s): content wrong", what, path.c_str());
            PBT_CHECK(ctx, r->getPath() != nullptr && *r->getPath() == path, "%s(%s): path wrong", what, path.c_str());
            PBT_CHECK(ctx, r->IsShmInTypedMemory() == use_typed, "%s(%s): in typed memory %d, expected %d", what, path.c_str(), r->IsShmInTypedMemory(), use_typed);
            e.exists = true;
            e.gen = gen;
            e.size = rounded;
            e.owner = 0;
            e.typed = use_typed;
            e.held = r;
            ++successes;
            struct stat st
            {
            };
            PBT_CHECK(ctx, ::stat(tree.Shm(path).c_str(), &st) == 0, "%s(%s): no such object", what, path.c_str());
            if (!use_typed)
            {
                const bool ww = std::holds_alternative<ISharedMemoryResource::WorldWritable>(perms);
                const bool wr = std::holds_alternative<ISharedMemoryResource::WorldReadable>(perms);
                const mode_t mode = ww ? 0666 : wr ? (0644 & ~mask) : (0600 & ~mask);
                PBT_CHECK(ctx, (st.st_mode & 07777) == mode, "%s(%s): mode %o, expected %o", what, path.c_str(), st.st_mode & 07777, mode);
                score::os::AccessControlList::Grants expected;
                if (const auto* const m = std::get_if<ISharedMemoryResource::UserPermissionsMap>(&perms))
                {
                    for (const auto& kv : *m)
                    {
                        for (const auto u : kv.second)
                        {
                            expected.insert({u, kv.first});
                        }
                    }
                }
                const auto& granted = score::os::AccessControlList::Records()[score::os::AccessControlList::KeyOf(r->GetFileDescriptor())];
                PBT_CHECK(ctx, granted == expected, "%s(%s): %zu users granted access, expected %zu", what, path.c_str(), granted.size(), expected.size());
                score::os::AccessControlList::Records().clear();
            }
        };
        auto some_permissions = [&]() -> ISharedMemoryResource::UserPermissions {
            switch (src.Below(3))
            {
                case 0:
                    return ISharedMemoryResource::WorldWritable{};
                case 1:
                    return ISharedMemoryResource::WorldReadable{};
                default:
                {
                    ISharedMemoryResource::UserPermissionsMap m;
                    for (const auto perm : {score::os::Acl::Permission::kRead, score::os::Acl::Permission::kWrite, score::os::Acl::Permission::kExecute})
                    {
                        const auto k = src.Below(3);
                        for (unsigned j = 0; j < k; ++j)
                        {
                            m[perm].push_back(static_cast<uid_t>(src.Below(3000)));
                        }
                    }
                    return m;
                }
            }
        };
        const bool prefer = src.Chance(1, 4);
        if (typed)
        {
            typed->refuse = src.Chance(1, 5);
        }
        if (inter)
        {
            inter->refuse = src.Chance(1, 5);
        }
        const auto* const provider = inter_path ? inter.get() : prefer ? typed.get() : nullptr;
        const bool no_provider = (inter_path && inter == nullptr) || (!inter_path && prefer && typed == nullptr);
        // an existing object: the provider cannot allocate it again, which is not an error by itself
        const bool use_typed = provider != nullptr && !provider->refuse && !e.exists;
        const unsigned op = src.Weighted({5, 4, 5, 3, 3, 2, 2, 1, 2});
        switch (op)
        {
            case 0:
            {
                const auto perms = some_permissions();
                if (e.old != nullptr)
                {
                    break;  // the old mapping has the id of the new one: documented to terminate
                }
                const auto r = Factory::Create(path, cb, rounded, perms, prefer);
                null_expected = no_provider || e.held != nullptr || e.lock || e.exists;
                ctx.Note("Create(%s, %zu, prefer typed %d) -> %s", path.c_str(), rounded, prefer, r ? "resource" : "null");
                refused_lock |= e.lock;
                refused_provider |= no_provider;
                if (null_expected)
                {
                    PBT_CHECK(ctx, r == nullptr && callbacks == 0U, "Create(%s) returned %s and called the initialiser %u times (held %d, exists %d, locked %d)", path.c_str(), r ? "a resource" : "null", callbacks, e.held != nullptr, e.exists, e.lock);
                }
                else
                {
                    fresh(r, "Create", use_typed, perms);
                }
                break;
            }
            case 1:
            {
                if (e.lock || e.old != nullptr)
                {
                    break;  // waits and terminates
                }
                const auto perms = some_permissions();
                std::vector<uid_t> allowed;
                std::optional<score::cpp::span<const uid_t>> allowed_arg;
                bool ok{true};
                const uid_t owner = e.exists || e.held ? e.owner : 0;
                if (src.Chance(1, 3))
                {
                    const auto k = src.Below(3);
                    for (unsigned j = 0; j < k; ++j)
                    {
                        allowed.push_back(uids[src.Below(4)]);
                    }
                    allowed_arg = score::cpp::span<const uid_t>{allowed.data(), allowed.size()};
                    ok = owner == me || std::count(allowed.begin(), allowed.end(), owner) != 0;
                }
                const bool creates = e.held == nullptr && !e.exists;
                const auto r = Factory::CreateOrOpen(path, cb, rounded, ISharedMemoryResource::AccessControl{perms, allowed_arg}, prefer);
                ctx.Note("CreateOrOpen(%s, %zu) -> %s", path.c_str(), rounded, r ? "resource" : "null");
                // a known resource needs no provider
                if ((inter_path && inter == nullptr) || (no_provider && e.held == nullptr))
                {
                    PBT_CHECK(ctx, r == nullptr && callbacks == 0U, "CreateOrOpen(%s) worked without the provider it needs", path.c_str());
                    refused_provider = true;
                    break;
                }
                if (!ok)
                {
                    PBT_CHECK(ctx, r == nullptr, "CreateOrOpen(%s) returned a resource of user %u, who is not allowed", path.c_str(), owner);
                    if (creates)
                    {
                        PBT_CHECK(ctx, callbacks == 1U, "initialiser called %u times", callbacks);
                        e.exists = true;
                        e.gen = gen;
                        e.size = rounded;
                        e.owner = 0;
                        e.typed = use_typed;
                        score::os::AccessControlList::Records().clear();
                    }
                    break;
                }
                if (creates)
                {
                    fresh(r, "CreateOrOpen", use_typed, perms);
                }
                else
                {
                    PBT_CHECK(ctx, r != nullptr && callbacks == 0U, "CreateOrOpen(%s) of an existing object: %s, %u initialisations", path.c_str(), r ? "resource" : "null", callbacks);
                    PBT_CHECK(ctx, Verify(*r) == e.gen, "CreateOrOpen(%s): content wrong", path.c_str());
                    PBT_CHECK(ctx, e.held == nullptr || e.held == r, "CreateOrOpen(%s) mapped an object again that is mapped", path.c_str());
                    e.held = r;
                    ++successes;
                }
                break;
            }
            case 2:
            {
                if (e.lock || e.old != nullptr)
                {
                    break;
                }
                const bool rw = src.Bool();
                std::vector<uid_t> allowed;
                std::optional<score::cpp::span<const uid_t>> allowed_arg;
                bool ok{true};
                if (src.Chance(1, 2))
                {
                    const auto k = src.Below(3);
                    for (unsigned j = 0; j < k; ++j)
                    {
                        allowed.push_back(uids[src.Below(4)]);
                    }
                    allowed_arg = score::cpp::span<const uid_t>{allowed.data(), allowed.size()};
                    ok = e.owner == me || std::count(allowed.begin(), allowed.end(), e.owner) != 0;
                }
                const auto r = Factory::Open(path, rw, allowed_arg);
                ctx.Note("Open(%s, rw %d, %zu allowed) -> %s", path.c_str(), rw, allowed.size(), r ? "resource" : "null");
                const bool expected = (e.held != nullptr || e.exists) && ok && !(inter_path && inter == nullptr);
                PBT_CHECK(ctx, (r != nullptr) == expected, "Open(%s) by %u returned %s (exists %d, owner %u)", path.c_str(), me, r ? "a resource" : "null", e.exists, e.owner);
                if (r != nullptr)
                {
                    PBT_CHECK(ctx, e.held == nullptr || e.held == r, "Open(%s) mapped an object again that is mapped", path.c_str());
                    PBT_CHECK(ctx, Verify(*r) == e.gen, "Open(%s): content wrong", path.c_str());
                    PBT_CHECK(ctx, r->getPath() != nullptr && *r->getPath() == path, "Open(%s): path wrong", path.c_str());
                    if (e.held == nullptr)
                    {
                        // the protection of the mapping is the one asked for
                        const bool dies = src.Chance(1, 8) ? pbt::Dies([&] {
                            std::signal(SIGSEGV, SIG_DFL);
                            static_cast<volatile Content*>(r->getUsableBaseAddress())->magic = Content::kMagic;
                        })
                                                           : !rw;
                        PBT_CHECK(ctx, dies == !rw, "Open(%s, read-write %d): writing %s", path.c_str(), rw, dies ? "is refused" : "is possible");
                    }
                    e.held = r;
                    ++successes;
                }
                break;
            }
            case 3:
                ctx.Note("drop %s", path.c_str());
                e.held.reset();
                if (src.Bool())
                {
                    e.old.reset();
                }
                break;
            case 4:
            {
                const auto before = (typed ? typed->unlinked : 0U) + (inter ? inter->unlinked : 0U);
                Factory::Remove(path);
                ctx.Note("Remove(%s)", path.c_str());
                if (e.held != nullptr)
                {
                    const auto after = (typed ? typed->unlinked : 0U) + (inter ? inter->unlinked : 0U);
                    const bool by_provider = e.held->IsShmInTypedMemory();
                    PBT_CHECK(ctx, after - before == (by_provider ? 1U : 0U), "Remove(%s): provider asked %u times", path.c_str(), after - before);
                    e.old = e.held;
                    e.old_gen = e.gen;
                    e.held.reset();
                    e.exists = false;
                }
                PBT_CHECK(ctx, (Tree::Inode(tree.Shm(path)) != 0U) == e.exists, "after Remove(%s) the object %s", path.c_str(), e.exists ? "is gone although this process did not have it open" : "is still there");
                break;
            }
            case 5:
                if (e.held == nullptr)
                {
                    Factory::RemoveStaleArtefacts(path);
                    ctx.Note("RemoveStaleArtefacts(%s)", path.c_str());
                    e.exists = false;
                    e.lock = false;
                    PBT_CHECK(ctx, Tree::Inode(tree.Shm(path)) == 0U && Tree::Inode(tree.Lock(path)) == 0U, "RemoveStaleArtefacts(%s) left something", path.c_str());
                }
                break;
            case 6:
                me = uids[src.Below(4)];
                Os().uid = static_cast<long>(me);
                if (e.exists && e.held == nullptr)
                {
                    e.owner = uids[src.Below(4)];
                    if (::chown(tree.Shm(path).c_str(), e.owner, 0) != 0)
                    {
                        e.owner = 0;
                    }
                    ctx.Note("%s belongs to %u", path.c_str(), e.owner);
                }
                ctx.Note("this is user %u", me);
                break;
            case 7:
                // another process died while creating the object
                if (!e.lock)
                {
                    const int fd = ::open(tree.Lock(path).c_str(), O_CREAT | O_RDONLY, 0444);
                    ::close(fd);
                    e.lock = true;
                    ctx.Note("lock file of %s", path.c_str());
                }
                break;
            default:
            {
                const std::uint64_t id = 0x7000000U + i;
                const auto perms = some_permissions();
                if (!typed || !prefer || typed->refuse)
                {
                    if (prefer && !typed)
                    {
                        PBT_CHECK(ctx, Factory::CreateAnonymous(id, cb, rounded, perms, true) == nullptr && callbacks == 0U, "anonymous memory without the provider it needs");
                    }
                    break;  // there is no anonymous memory without typed memory on this platform
                }
                const auto count = typed->anonymous;
                auto r = Factory::CreateAnonymous(id, cb, rounded, perms, true);
                PBT_CHECK(ctx, r != nullptr && callbacks == 1U && typed->anonymous == count + 1U, "CreateAnonymous: %s, %u initialisations", r ? "resource" : "null", callbacks);
                PBT_CHECK(ctx, Verify(*r) == gen && r->getPath() == nullptr && r->IsShmInTypedMemory(), "anonymous region wrong");
                if (src.Bool())
                {
                    anonymous.push_back(r);
                }
                break;
            }
        }
        for (unsigned k = 0; k < model.size(); ++k)
        {
            const auto& m = model[k];
            PBT_CHECK(ctx, m.held == nullptr || Verify(*m.held) == m.gen, "%s lost its content", paths[k].c_str());
            PBT_CHECK(ctx, m.old == nullptr || Verify(*m.old) == m.old_gen, "%s, removed but in use, lost its content", paths[k].c_str());
            PBT_CHECK(ctx, (Tree::Inode(tree.Shm(paths[k])) != 0U) == m.exists, "object %s: exists %d, expected %d", paths[k].c_str(), !m.exists, m.exists);
            PBT_CHECK(ctx, (Tree::Inode(tree.Lock(paths[k])) != 0U) == m.lock, "lock file of %s: exists %d, expected %d", paths[k].c_str(), !m.lock, m.lock);
        }
    }
    for (auto& m : model)
    {
        m.held.reset();
        m.old.reset();
    }
    anonymous.clear();
    Tree::Empty(tree.root + "/dev/shm/intervm-shared-shmem");
    Tree::Empty(tree.root + "/tmp/intervm-shared-shmem");
    ::rmdir((tree.root + "/dev/shm/intervm-shared-shmem").c_str());
    ::rmdir((tree.root + "/tmp/intervm-shared-shmem").c_str());
    PBT_CHECK(ctx, OpenFds() == fds, "%zu descriptors open, %zu before", OpenFds(), fds);
    ctx.Count("successful accesses", successes);
    if (successes >= 3U && (refused_lock || refused_provider || me != 0U))
    {
        ctx.NonTrivial();
    }
}

// ------------------------------------------------------------------------------------------------ lock files
PBT_PROPERTY(lock_files, 100000, 3000000)
{
    const std::size_t fds = OpenFds();
    Tree tree;
    static const std::string names[3]{"/l0", "/l1", "/l2"};
    struct Handle
    {
        std::unique_ptr<std::optional<LockFile>> file;
        unsigned path{0};
        bool live{false};
        bool owns{false};
        std::uint64_t inode{0};
        int lock{0};  // 0 none, 1 shared, 2 exclusive
    };
    std::vector<Handle> handles;
    std::uint64_t exists[3]{};
    bool interesting{false};
    auto check_files = [&](const char* after) {
        for (unsigned p = 0; p < 3; ++p)
        {
            const auto ino = Tree::Inode(tree.root + names[p]);
            PBT_CHECK(ctx, ino == exists[p], "after %s: file %u %s", after, p, exists[p] == 0U ? "exists" : ino == 0U ? "is gone" : "was replaced");
        }
    };
    auto ended = [&](Handle& h) {
        if (h.live && h.owns)
        {
            interesting |= exists[h.path] != h.inode;
            exists[h.path] = 0U;
        }
        h.live = false;
        h.lock = 0;
    };
    const mode_t masks[]{0, 022, 077};
    const mode_t old = ::umask(masks[src.Below(3)]);
    struct Restore
    {
        mode_t m;
        ~Restore() { ::umask(m); }
    } restore{old};
    const unsigned n = src.Range<unsigned>(4, 30);
    for (unsigned i = 0; i < n; ++i)
    {
        const unsigned p = static_cast<unsigned>(src.Below(3));
        const unsigned op = src.Weighted({3, 3, 3, 2, 3, 2, 2, 1, 8});
        if (op <= 2U)
        {
            const bool fail = op != 2U && src.Chance(1, 12);
            if (fail)
            {
                Os().fault = [](const char* o, const std::string&) { return std::strcmp(o, "chmod") == 0 ? EPERM : 0; };
            }
            const bool take = src.Bool();
            auto f = std::make_unique<std::optional<LockFile>>(op == 0U ? LockFile::Create(names[p]) : op == 1U ? LockFile::CreateOrOpen(names[p], take) : LockFile::Open(names[p]));
            Os().fault = nullptr;
            ctx.Note("%s(%u)%s -> %d", op == 0U ? "Create" : op == 1U ? (take ? "CreateOrOpen+own" : "CreateOrOpen") : "Open", p, fail ? " (chmod fails)" : "", f->has_value());
            const bool expected = op == 0U ? exists[p] == 0U && !fail : op == 1U ? !fail : exists[p] != 0U;
            PBT_CHECK(ctx, f->has_value() == expected, "%s of a file that %s: %d", op == 0U ? "Create" : op == 1U ? "CreateOrOpen" : "Open", exists[p] != 0U ? "exists" : "does not exist", f->has_value());
            if (fail && op == 1U)
            {
                // whether a file that could not be made readable for all stays is not specified
                exists[p] = Tree::Inode(tree.root + names[p]);
            }
            if (!expected)
            {
                check_files("a failed attempt");
                continue;
            }
            const auto ino = Tree::Inode(tree.root + names[p]);
            PBT_CHECK(ctx, ino != 0U && (exists[p] == 0U || exists[p] == ino), "file %u is missing or was replaced", p);
            exists[p] = ino;
            if (op != 2U)
            {
                struct stat st
                {
                };
                ::stat((tree.root + names[p]).c_str(), &st);
                PBT_CHECK(ctx, (st.st_mode & 07777) == 0444, "lock file has mode %o", st.st_mode & 07777);
            }
            Handle h;
            h.file = std::move(f);
            h.path = p;
            h.live = true;
            h.owns = op == 0U || (op == 1U && take);
            h.inode = ino;
            handles.push_back(std::move(h));
            continue;
        }
        if (handles.empty())
        {
            continue;
        }
        auto& h = handles[src.Below(handles.size())];
        switch (op)
        {
            case 3:
                if (h.live)
                {
                    ctx.Note("TakeOwnership(%u)", h.path);
                    h.file->value().TakeOwnership();
                    h.owns = true;
                }
                break;
            case 4:
            {
                ctx.Note("end of a handle of %u (owns %d)", h.path, h.owns);
                const bool last_owner = h.live && h.owns;
                h.file.reset();
                ended(h);
                interesting |= last_owner;
                h = std::move(handles.back());
                handles.pop_back();
                break;
            }
            case 5:
            {
                ctx.Note("move construction");
                auto moved = std::make_unique<std::optional<LockFile>>(std::move(h.file->value()));
                h.file = std::move(moved);  // the source ends here
                break;
            }
            case 6:
            {
                auto& other = handles[src.Below(handles.size())];
                ctx.Note("move assignment%s", &other == &h ? " to itself" : "");
                if (&other == &h)
                {
                    auto& self = h.file->value();
                    h.file->value() = std::move(self);
                    break;
                }
                ended(h);
                h.file->value() = std::move(other.file->value());
                h.path = other.path;
                h.live = other.live;
                h.owns = other.owns;
                h.inode = other.inode;
                h.lock = other.lock;
                other.live = false;
                other.lock = 0;
                break;
            }
            case 7:
                ctx.Note("file %u is removed by someone else", p);
                ::unlink((tree.root + names[p]).c_str());
                exists[p] = 0U;
                break;
            default:
            {
                if (!h.live)
                {
                    break;
                }
                const bool exclusive = src.Bool();
                if (h.lock != 0)
                {
                    ctx.Note("unlock %u", h.path);
                    if (exclusive)
                    {
                        ExclusiveFlockMutex{h.file->value()}.unlock();
                    }
                    else
                    {
                        SharedFlockMutex{h.file->value()}.unlock();
                    }
                    h.lock = 0;
                    break;
                }
                bool free{true};
                for (const auto& o : handles)
                {
                    free &= !(o.live && o.inode == h.inode && (o.lock == 2 || (exclusive && o.lock == 1)));
                }
                interesting |= !free;
                if (src.Chance(1, 4))
                {
                    // lock and release by scope
                    bool got;
                    if (exclusive)
                    {
                        FlockMutexAndLock<ExclusiveFlockMutex> l{h.file->value()};
                        got = l.TryLock();
                    }
                    else
                    {
                        FlockMutexAndLock<SharedFlockMutex> l{h.file->value()};
                        got = l.TryLock();
                    }
                    PBT_CHECK(ctx, got == free, "scoped %s try-lock gave %d, expected %d", exclusive ? "exclusive" : "shared", got, free);
                    break;
                }
                bool got{true};
                if (free && src.Chance(1, 3))
                {
                    exclusive ? ExclusiveFlockMutex{h.file->value()}.lock() : SharedFlockMutex{h.file->value()}.lock();
                }
                else
                {
                    got = exclusive ? ExclusiveFlockMutex{h.file->value()}.try_lock() : SharedFlockMutex{h.file->value()}.try_lock();
                }
                ctx.Note("%s lock of %u -> %d", exclusive ? "exclusive" : "shared", h.path, got);
                PBT_CHECK(ctx, got == free, "%s try-lock gave %d, expected %d", exclusive ? "exclusive" : "shared", got, free);
                if (got)
                {
                    h.lock = exclusive ? 2 : 1;
                }
                break;
            }
        }
        check_files("an operation");
    }
    while (!handles.empty())
    {
        handles.back().file.reset();
        ended(handles.back());
        handles.pop_back();
        check_files("the end of a handle");
    }
    PBT_CHECK(ctx, OpenFds() == fds, "%zu descriptors open, %zu before", OpenFds(), fds);
    Tree::Empty(tree.root + "/tmp");
    for (const auto& nm : names)
    {
        ::unlink((tree.root + nm).c_str());
    }
    if (interesting)
    {
        ctx.NonTrivial();
    }
}
