#include "pbt.h"

namespace pbt
{
namespace
{
double Now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::uint64_t Hash(const std::string& s, std::uint64_t h = 0xcbf29ce484222325ull)
{
    for (unsigned char c : s)
    {
        h = (h ^ c) * 0x100000001b3ull;
    }
    return h;
}
std::uint64_t HashSeq(const std::vector<std::uint64_t>& v)
{
    std::uint64_t h{v.size()};
    for (auto x : v)
    {
        h = Mix(h ^ Mix(x));
    }
    return h;
}
std::string JsonEsc(const std::string& s)
{
    std::string o{"\""};
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
        {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

struct Outcome
{
    bool failed{false};
    bool discarded{false};
    std::string msg{};
    std::vector<std::uint64_t> seq{};
};

Outcome RunCase(const Prop& p, Src& src, Ctx& ctx)
{
    Outcome o;
    try
    {
        p.fn(src, ctx);
    }
    catch (const Failure& f)
    {
        o.failed = true;
        o.msg = f.msg;
    }
    catch (const Discard&)
    {
        o.discarded = true;
    }
    catch (const std::exception& e)
    {
        o.failed = true;
        o.msg = std::string{"uncaught exception: "} + e.what();
    }
    o.seq = src.Recorded();
    return o;
}

std::string SignalName(int status)
{
    if (WIFSIGNALED(status))
    {
        return std::string{"killed by signal "} + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
    }
    return std::string{"exited with status "} + std::to_string(WEXITSTATUS(status));
}

std::string ReadTail(const std::string& path, std::size_t max)
{
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    // prefer lines that name the reason
    for (const char* key : {"ASSERT-FAILED", "ERROR: AddressSanitizer", "runtime error:", "terminate called", "ThreadSanitizer"})
    {
        const auto at = s.find(key);
        if (at != std::string::npos)
        {
            return s.substr(at, max);
        }
    }
    return s.size() > max ? s.substr(s.size() - max) : s;
}

/// Runs one case in a forked child; returns the outcome (crash and timeout count as failures).
struct Child
{
    bool failed{false};
    bool timeout{false};
    std::string msg{};
    std::string trace{};
    std::vector<std::uint64_t> seq{};
};
std::string g_tmp;

Child RunForked(const Prop& p, const std::vector<std::uint64_t>* replay, std::uint64_t seed, unsigned timeout_s, bool want_trace)
{
    Child res;
    const std::string base = g_tmp + "/c" + std::to_string(getpid());
    const std::string outf = base + ".out";
    const std::string errf = base + ".err";
    unlink(outf.c_str());
    static std::uint64_t* mirror = static_cast<std::uint64_t*>(
        mmap(nullptr, kMirrorCap * sizeof(std::uint64_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    static char* tmirror =
        static_cast<char*>(mmap(nullptr, kTraceCap + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mirror[0] = 0;
    tmirror[0] = 0;
    const pid_t pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0);
        g_mirror = mirror;
        g_trace_mirror = want_trace ? tmirror : nullptr;
        const int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (getenv("PBT_RAW") == nullptr)
        {
            dup2(fd, 2);
            dup2(fd, 1);
        }
        Src src = replay != nullptr ? Src{*replay} : Src{seed};
        Ctx ctx;
        const auto o = RunCase(p, src, ctx);
        std::ofstream f(outf + ".t", std::ios::binary);
        f << (o.failed ? 'F' : (o.discarded ? 'D' : 'P')) << '\n' << o.msg.size() << '\n' << o.msg << '\n';
        f.close();
        rename((outf + ".t").c_str(), outf.c_str());
        _exit(0);
    }
    const double t0 = Now();
    int status{0};
    useconds_t nap{100};
    while (true)
    {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
        {
            break;
        }
        if (Now() - t0 > timeout_s)
        {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            res.timeout = true;
            break;
        }
        usleep(nap);
        nap = std::min<useconds_t>(nap * 2, 5000);
    }
    kill(-pid, SIGKILL);
    std::ifstream f(outf, std::ios::binary);
    char kind{0};
    res.trace = tmirror;
    res.seq.assign(mirror + 1, mirror + 1 + mirror[0]);
    if (!res.timeout && f && (f >> kind))
    {
        std::size_t ml{0};
        f >> ml;
        f.get();
        res.msg.resize(ml);
        f.read(&res.msg[0], static_cast<std::streamsize>(ml));
        res.failed = kind == 'F';
    }
    else
    {
        res.failed = true;
        res.msg = res.timeout ? "no termination within " + std::to_string(timeout_s) + " s" : "crash: " + SignalName(status) + ": " + ReadTail(errf, 400);
    }
    unlink(outf.c_str());
    unlink(errf.c_str());
    return res;
}

void PutStr(std::string& b, const std::string& s)
{
    b += std::to_string(s.size()) + " " + s;
}
std::string GetStr(const std::string& b, std::size_t& at)
{
    const auto sp = b.find(' ', at);
    const auto n = std::strtoull(b.c_str() + at, nullptr, 10);
    auto r = b.substr(sp + 1, n);
    at = sp + 1 + n;
    return r;
}

/// Runs one case in a forked child of the worker and carries the whole context back. Returns false when the child died.
bool RunIsolated(const Prop& p, std::uint64_t seed, Outcome& oc, Ctx& ctx, int& status, volatile pid_t* child_slot)
{
    int fds[2];
    if (pipe(fds) != 0)
    {
        _exit(3);
    }
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fds[0]);
        const char* keep = getenv("PBT_KEEP_ERR");  // debugging aid: directory that keeps the log of every failing case
        const std::string keepf = keep != nullptr ? std::string{keep} + "/case." + std::to_string(seed) : std::string{};
        if (keep != nullptr)
        {
            dup2(open(keepf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
        }
        Src src{seed};
        Ctx c;
        const auto o = RunCase(p, src, c);
        if (keep != nullptr && !o.failed)
        {
            unlink(keepf.c_str());
        }
        std::string b;
        b += o.failed ? 'F' : (o.discarded ? 'D' : 'P');
        b += c.nontrivial_ ? '1' : '0';
        PutStr(b, o.msg);
        PutStr(b, std::to_string(HashSeq(o.seq)));
        PutStr(b, c.trace_.substr(0, 800));
        PutStr(b, std::to_string(c.labels_.size()));
        for (auto& l : c.labels_)
        {
            PutStr(b, l);
        }
        PutStr(b, std::to_string(c.counts_.size()));
        for (auto& l : c.counts_)
        {
            PutStr(b, l.first);
            PutStr(b, std::to_string(l.second));
        }
        PutStr(b, std::to_string(c.known_.size()));
        for (auto& l : c.known_)
        {
            PutStr(b, l);
        }
        b += "END";
        std::size_t off{0};
        while (off < b.size())
        {
            const auto n = write(fds[1], b.data() + off, b.size() - off);
            if (n <= 0)
            {
                break;
            }
            off += static_cast<std::size_t>(n);
        }
        _exit(0);
    }
    *child_slot = pid;
    close(fds[1]);
    std::string b;
    char buf[4096];
    while (true)
    {
        const auto n = read(fds[0], buf, sizeof buf);
        if (n <= 0)
        {
            break;
        }
        b.append(buf, static_cast<std::size_t>(n));
    }
    close(fds[0]);
    waitpid(pid, &status, 0);
    if (b.size() < 5 || b.substr(b.size() - 3) != "END")
    {
        return false;
    }
    oc.failed = b[0] == 'F';
    oc.discarded = b[0] == 'D';
    ctx.nontrivial_ = b[1] == '1';
    std::size_t at{2};
    oc.msg = GetStr(b, at);
    oc.seq = {std::strtoull(GetStr(b, at).c_str(), nullptr, 10)};
    ctx.trace_ = GetStr(b, at);
    for (auto n = std::strtoull(GetStr(b, at).c_str(), nullptr, 10); n > 0; --n)
    {
        ctx.labels_.insert(GetStr(b, at));
    }
    for (auto n = std::strtoull(GetStr(b, at).c_str(), nullptr, 10); n > 0; --n)
    {
        const auto k = GetStr(b, at);
        ctx.counts_[k] += std::strtoull(GetStr(b, at).c_str(), nullptr, 10);
    }
    for (auto n = std::strtoull(GetStr(b, at).c_str(), nullptr, 10); n > 0; --n)
    {
        ctx.known_.insert(GetStr(b, at));
    }
    return true;
}

struct Shared
{
    volatile std::uint64_t current[64];
    volatile std::uint64_t started_ms[64];
    volatile std::uint64_t done[64];
    volatile std::uint64_t stop;
};

struct Stats
{
    std::uint64_t evaluations{0};
    std::uint64_t discarded{0};
    std::uint64_t nontrivial{0};
    std::unordered_set<std::uint64_t> distinct{};
    std::map<std::string, std::uint64_t> labels{};
    std::map<std::string, std::uint64_t> counts{};
    std::map<std::string, std::uint64_t> known{};
    std::vector<std::string> samples{};
    void Merge(const Stats& o)
    {
        evaluations += o.evaluations;
        discarded += o.discarded;
        nontrivial += o.nontrivial;
        distinct.insert(o.distinct.begin(), o.distinct.end());
        for (auto& k : o.labels)
        {
            labels[k.first] += k.second;
        }
        for (auto& k : o.counts)
        {
            counts[k.first] += k.second;
        }
        for (auto& k : o.known)
        {
            known[k.first] += k.second;
        }
        for (auto& s : o.samples)
        {
            if (samples.size() < 6)
            {
                samples.push_back(s);
            }
        }
    }
};

void WriteStats(const Stats& s, const std::string& path)
{
    std::ofstream f(path + ".t", std::ios::binary);
    f << s.evaluations << ' ' << s.discarded << ' ' << s.nontrivial << ' ' << s.distinct.size() << '\n';
    for (auto h : s.distinct)
    {
        f << h << '\n';
    }
    for (auto* m : {&s.labels, &s.counts, &s.known})
    {
        f << m->size() << '\n';
        for (auto& k : *m)
        {
            f << k.second << ' ' << k.first << '\n';
        }
    }
    f << s.samples.size() << '\n';
    for (auto& x : s.samples)
    {
        f << x.size() << '\n' << x << '\n';
    }
    f.close();
    rename((path + ".t").c_str(), path.c_str());
}
bool ReadStats(Stats& s, const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::size_t nd{0};
    if (!(f >> s.evaluations >> s.discarded >> s.nontrivial >> nd))
    {
        return false;
    }
    for (std::size_t i = 0; i < nd; ++i)
    {
        std::uint64_t h{};
        f >> h;
        s.distinct.insert(h);
    }
    for (auto* m : {&s.labels, &s.counts, &s.known})
    {
        std::size_t n{0};
        f >> n;
        for (std::size_t i = 0; i < n; ++i)
        {
            std::uint64_t v{};
            std::string k;
            f >> v;
            f.get();
            std::getline(f, k);
            (*m)[k] += v;
        }
    }
    std::size_t ns{0};
    f >> ns;
    for (std::size_t i = 0; i < ns; ++i)
    {
        std::size_t l{0};
        f >> l;
        f.get();
        std::string x(l, ' ');
        f.read(&x[0], static_cast<std::streamsize>(l));
        s.samples.push_back(x);
    }
    return true;
}

struct Opts
{
    std::string tier{"quick"};
    std::uint64_t seed{1};
    std::string out{};
    std::string replay_dir{"."};
    std::string id{"X"};
    double budget{60};
    std::string only{};
    std::uint64_t cases{0};
    unsigned workers{8};
    std::string replay{};
    bool exact{false};
};

std::uint64_t CaseSeed(const Prop& p, const Opts& o, std::uint64_t i)
{
    return Mix(Hash(p.name) ^ Mix(o.seed * 0x9E3779B97F4A7C15ull + i));
}

void Record(const Prop&, Stats& st, const Outcome& o, Ctx& ctx)
{
    ++st.evaluations;
    if (o.discarded)
    {
        ++st.discarded;
    }
    for (auto& l : ctx.labels_)
    {
        ++st.labels[l];
    }
    for (auto& l : ctx.counts_)
    {
        st.counts[l.first] += l.second;
    }
    for (auto& l : ctx.known_)
    {
        ++st.known[l];
    }
    if (ctx.nontrivial_ && !o.discarded)
    {
        ++st.nontrivial;
        if (st.distinct.size() < 2000000)
        {
            st.distinct.insert(HashSeq(o.seq));
        }
        if (st.samples.size() < 2 || (st.samples.size() < 4 && st.nontrivial % 97 == 0))
        {
            st.samples.push_back(ctx.trace_.substr(0, 600));
        }
    }
}

[[noreturn]] void Worker(const Prop& p, const Opts& o, Shared* sh, unsigned w, unsigned nw, std::uint64_t first, std::uint64_t total, double deadline, const std::string& base)
{
    const int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    Stats st;
    double last_flush = Now();
    std::uint64_t i = first;
    for (; i < total; i += nw)
    {
        const double t = Now();
        if (sh->stop != 0U || t > deadline)
        {
            break;
        }
        sh->current[w] = i;
        sh->started_ms[w] = static_cast<std::uint64_t>(t * 1000);
        Ctx ctx;
        Outcome oc;
        if (p.isolate)
        {
            int status{0};
            static volatile pid_t slot;
            if (!RunIsolated(p, CaseSeed(p, o, i), oc, ctx, status, &slot))
            {
                std::ofstream f(base + ".fail");
                f << i << "\ncrash: " << SignalName(status) << ": " << ReadTail(base + ".err", 400) << "\n";
                f.close();
                WriteStats(st, base + ".stats");
                _exit(10);
            }
        }
        else
        {
            Src src{CaseSeed(p, o, i)};
            oc = RunCase(p, src, ctx);
        }
        Record(p, st, oc, ctx);
        if (oc.failed)
        {
            std::ofstream f(base + ".fail");
            f << i << '\n' << oc.msg << '\n';
            f.close();
            WriteStats(st, base + ".stats");
            _exit(10);
        }
        sh->done[w] = i + nw;
        if (t - last_flush > 0.5)
        {
            WriteStats(st, base + ".stats");
            if (ftruncate(fd, 0) != 0)
            {
            }
            lseek(fd, 0, SEEK_SET);
            last_flush = Now();
        }
    }
    sh->started_ms[w] = 0;
    WriteStats(st, base + ".stats");
    _exit(0);
}

std::vector<std::uint64_t> Shrink(const Prop& p, std::vector<std::uint64_t> best, std::string& msg, double limit_s)
{
    const double end = Now() + limit_s;
    std::uint64_t runs{0};
    const auto kind = [](const std::string& m) { return m.substr(0, std::min<std::size_t>(m.find_first_of("0123456789:"), 24)); };
    const auto want = kind(msg);
    auto fails = [&](const std::vector<std::uint64_t>& c) {
        if (Now() > end || runs > 4000)
        {
            return false;
        }
        ++runs;
        const auto r = RunForked(p, &c, 0, std::min(p.timeout_s, 20U), false);
        if (r.failed && kind(r.msg) == want)
        {
            msg = r.msg;
            return true;
        }
        return false;
    };
    bool progress{true};
    while (progress && Now() < end)
    {
        progress = false;
        for (std::size_t chunk = std::max<std::size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2)
        {
            for (std::size_t i = best.size(); i >= chunk && i > 0;)
            {
                auto c = best;
                const auto at = i - chunk;
                c.erase(c.begin() + static_cast<std::ptrdiff_t>(at), c.begin() + static_cast<std::ptrdiff_t>(at + chunk));
                if (fails(c))
                {
                    best = c;
                    progress = true;
                    i = std::min(i, best.size());
                    if (at < chunk)
                    {
                        break;
                    }
                    i = at;
                }
                else
                {
                    if (i <= chunk)
                    {
                        break;
                    }
                    i -= chunk;
                }
                if (Now() > end)
                {
                    break;
                }
            }
            if (chunk == 1)
            {
                break;
            }
        }
        for (std::size_t i = 0; i < best.size() && Now() < end; ++i)
        {
            if (best[i] == 0)
            {
                continue;
            }
            for (std::uint64_t v : {std::uint64_t{0}, std::uint64_t{1}, best[i] / 2, best[i] - 1})
            {
                if (v >= best[i])
                {
                    continue;
                }
                auto c = best;
                c[i] = v;
                if (fails(c))
                {
                    best = c;
                    progress = true;
                    break;
                }
            }
        }
    }
    return best;
}

bool Confirm(const Prop& p, const std::vector<std::uint64_t>& seq, std::string& msg, std::string& trace, unsigned need, unsigned tries)
{
    unsigned ok{0};
    for (unsigned i = 0; i < tries && ok < need; ++i)
    {
        auto r = RunForked(p, &seq, 0, p.timeout_s * (i == 0 ? 1 : 2), true);
        if (r.failed)
        {
            ++ok;
            msg = r.msg;
            if (!r.trace.empty())
            {
                trace = r.trace;
            }
        }
    }
    return ok >= need;
}

void SaveReplay(const std::string& path, const Opts& o, const Prop& p, const std::vector<std::uint64_t>& seq, const std::string& msg, const std::string& trace)
{
    std::ofstream f(path);
    f << "prop " << p.name << "\nseq " << seq.size();
    for (auto x : seq)
    {
        f << ' ' << x;
    }
    f << "\nid " << o.id << "\nmessage " << msg << "\ntrace " << trace << "\n";
}
}  // namespace

static bool Selected(const std::string& only, const std::string& name)
{
    return only.empty() || ("," + only + ",").find("," + name + ",") != std::string::npos;
}

int Main(int argc, char** argv)
{
    Opts o;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") o.out = val();
        else if (a == "--replay-dir") o.replay_dir = val();
        else if (a == "--id") o.id = val();
        else if (a == "--budget") o.budget = std::atof(val().c_str());
        else if (a == "--only") o.only = val();
        else if (a == "--cases") o.cases = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = static_cast<unsigned>(std::atoi(val().c_str()));
        else if (a == "--replay") o.replay = val();
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    {
        char t[] = "/dev/shm/pbtXXXXXX";
        const char* d = mkdtemp(t);
        char t2[] = "/tmp/pbtXXXXXX";
        if (d == nullptr)
        {
            d = mkdtemp(t2);
        }
        g_tmp = d;
        setenv("PBT_TMP", g_tmp.c_str(), 1);
    }
    struct Clean
    {
        ~Clean()
        {
            if (g_tmp.rfind("/dev/shm/pbt", 0) == 0 || g_tmp.rfind("/tmp/pbt", 0) == 0)
            {
                const std::string cmd = "rm -rf '" + g_tmp + "'";
                if (std::system(cmd.c_str()) != 0)
                {
                }
            }
        }
    } clean;
    rlimit rl{0, 0};
    if (getenv("PBT_CORE") == nullptr)
    {
        setrlimit(RLIMIT_CORE, &rl);
    }

    if (!o.replay.empty())
    {
        std::ifstream f(o.replay);
        std::string w, name;
        std::size_t n{0};
        f >> w >> name >> w >> n;
        std::vector<std::uint64_t> seq(n);
        for (auto& x : seq)
        {
            f >> x;
        }
        for (auto& p : Props())
        {
            if (name == p.name)
            {
                const auto r = RunForked(p, &seq, 0, p.timeout_s * 2, true);
                std::printf("%s: %s\n  %s\n  trace: %s\n", name.c_str(), r.failed ? "FAILED" : "passed", r.msg.c_str(), r.trace.c_str());
                return r.failed ? 1 : 0;
            }
        }
        std::fprintf(stderr, "no such property %s\n", name.c_str());
        return 2;
    }

    const double start = Now();
    unsigned shares{0};
    for (auto& p : Props())
    {
        if (Selected(o.only, p.name))
        {
            shares += p.share;
        }
    }
    std::ostringstream js;
    js << "{\"props\":[";
    bool first_prop{true};
    bool violated{false};
    std::string vio_path;
    std::uint64_t unreproduced{0};
    double carry{0};
    for (auto& p : Props())
    {
        if (!Selected(o.only, p.name))
        {
            continue;
        }
        const double pbudget = o.budget * p.share / shares + carry;
        const double pstart = Now();
        const double deadline = pstart + pbudget;
        const std::uint64_t total = o.cases != 0 ? o.cases : (o.tier == "quick" ? p.quick : p.thorough);
        const unsigned nw = std::min<unsigned>(64, p.workers != 0 ? p.workers : o.workers);
        auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::memset(static_cast<void*>(sh), 0, sizeof(Shared));
        Stats total_stats;
        struct W
        {
            pid_t pid{-1};
            unsigned gen{0};
            std::string base{};
            bool active{false};
        };
        std::vector<W> ws(nw);
        auto spawn = [&](unsigned w, std::uint64_t first) {
            ws[w].base = g_tmp + "/" + p.name + "." + std::to_string(w) + "." + std::to_string(ws[w].gen++);
            sh->started_ms[w] = 0;
            ws[w].active = true;
            const pid_t pid = fork();
            if (pid == 0)
            {
                setpgid(0, 0);
                Worker(p, o, sh, w, nw, first, total, deadline, ws[w].base);
            }
            ws[w].pid = pid;
        };
        for (unsigned w = 0; w < nw; ++w)
        {
            spawn(w, w);
        }
        unsigned handled_failures{0};
        bool prop_violated{false};
        while (true)
        {
            bool any{false};
            for (unsigned w = 0; w < nw; ++w)
            {
                if (!ws[w].active)
                {
                    continue;
                }
                any = true;
                int status{0};
                const auto r = waitpid(ws[w].pid, &status, WNOHANG);
                bool timeout{false};
                if (r == 0)
                {
                    const auto s = sh->started_ms[w];
                    if (s != 0 && static_cast<std::uint64_t>(Now() * 1000) > s + p.timeout_s * 1000ull)
                    {
                        kill(-ws[w].pid, SIGKILL);
                        kill(ws[w].pid, SIGKILL);
                        waitpid(ws[w].pid, &status, 0);
                        timeout = true;
                    }
                    else
                    {
                        continue;
                    }
                }
                kill(-ws[w].pid, SIGKILL);
                ws[w].active = false;
                Stats st;
                if (ReadStats(st, ws[w].base + ".stats"))
                {
                    total_stats.Merge(st);
                }
                if (!timeout && WIFEXITED(status) && WEXITSTATUS(status) == 0)
                {
                    continue;
                }
                // a failing case
                const std::uint64_t idx = sh->current[w];
                std::string msg = timeout ? "no termination within " + std::to_string(p.timeout_s) + " s"
                                          : "crash: " + SignalName(status) + ": " + ReadTail(ws[w].base + ".err", 400);
                {
                    std::ifstream f(ws[w].base + ".fail");
                    std::uint64_t ii{};
                    if (f >> ii)
                    {
                        f.get();
                        std::getline(f, msg);
                    }
                }
                if (prop_violated)
                {
                    continue;
                }
                // recover the sequence: run the generator once more in a child
                ++handled_failures;
                std::vector<std::uint64_t> seq;
                bool have{false};
                for (int attempt = 0; attempt < 8 && !have; ++attempt)
                {
                    auto rr = RunForked(p, nullptr, CaseSeed(p, o, idx), p.timeout_s, false);
                    if (rr.failed)
                    {
                        seq = rr.seq;
                        msg = rr.msg;
                        have = true;
                    }
                }
                std::string trace;
                bool confirmed = have && Confirm(p, seq, msg, trace, 3, 6);
                if (!confirmed && have)
                {
                    confirmed = Confirm(p, seq, msg, trace, 2, 20);
                }
                if (confirmed)
                {
                    prop_violated = true;
                    sh->stop = 1;
                    auto small = Shrink(p, seq, msg, o.tier == "quick" ? 40 : 120);
                    std::string m2 = msg, t2;
                    if (!Confirm(p, small, m2, t2, 1, 10))
                    {
                        small = seq;
                        m2 = msg;
                        t2 = trace;
                    }
                    mkdir(o.replay_dir.c_str(), 0755);
                    vio_path = o.replay_dir + "/" + o.id + "-" + p.name + ".replay";
                    SaveReplay(vio_path, o, p, small, m2, t2);
                    std::printf("property %s failed (case %llu, %zu choices shrunk to %zu): %s\n  trace: %s\n", p.name,
                                static_cast<unsigned long long>(idx), seq.size(), small.size(), m2.c_str(), t2.substr(0, 3000).c_str());
                    std::printf("VIOLATION property=%s replay=%s\n", o.id.c_str(), vio_path.c_str());
                    std::fflush(stdout);
                    violated = true;
                }
                else
                {
                    ++unreproduced;
                    std::printf("note: case %llu of %s failed once and did not reproduce: %s\n", static_cast<unsigned long long>(idx), p.name, msg.c_str());
                    std::fflush(stdout);
                    if (handled_failures < 20)
                    {
                        spawn(w, idx + nw);
                    }
                }
            }
            if (!any)
            {
                break;
            }
            usleep(2000);
        }
        munmap(sh, sizeof(Shared));
        const double used = Now() - pstart;
        carry = std::max(0.0, pbudget - used);
        std::fprintf(stderr, "%s: %llu cases, %zu distinct non-trivial, %.1f s%s\n", p.name, static_cast<unsigned long long>(total_stats.evaluations),
                     total_stats.distinct.size(), used, prop_violated ? " VIOLATED" : "");
        js << (first_prop ? "" : ",") << "{\"name\":" << JsonEsc(p.name) << ",\"evaluations\":" << total_stats.evaluations << ",\"discarded\":" << total_stats.discarded
           << ",\"nontrivial\":" << total_stats.nontrivial << ",\"distinct\":" << total_stats.distinct.size() << ",\"planned\":" << total << ",\"wall_s\":" << used
           << ",\"violated\":" << (prop_violated ? "true" : "false") << ",\"labels\":{";
        bool f{true};
        for (auto& k : total_stats.labels)
        {
            js << (f ? "" : ",") << JsonEsc(k.first) << ':' << k.second;
            f = false;
        }
        js << "},\"counts\":{";
        f = true;
        for (auto& k : total_stats.counts)
        {
            js << (f ? "" : ",") << JsonEsc(k.first) << ':' << k.second;
            f = false;
        }
        js << "},\"known\":{";
        f = true;
        for (auto& k : total_stats.known)
        {
            js << (f ? "" : ",") << JsonEsc(k.first) << ':' << k.second;
            f = false;
        }
        js << "},\"samples\":[";
        f = true;
        for (auto& k : total_stats.samples)
        {
            js << (f ? "" : ",") << JsonEsc(k);
            f = false;
        }
        js << "]}";
        first_prop = false;
        if (violated)
        {
            break;
        }
    }
    js << "],\"violated\":" << (violated ? "true" : "false") << ",\"replay\":" << JsonEsc(vio_path) << ",\"unreproduced\":" << unreproduced << ",\"wall_s\":" << (Now() - start) << "}";
    if (!o.out.empty())
    {
        std::ofstream f(o.out);
        f << js.str() << "\n";
    }
    return violated ? 1 : 0;
}
}  // namespace pbt

int main(int argc, char** argv)
{
    return pbt::Main(argc, argv);
}
