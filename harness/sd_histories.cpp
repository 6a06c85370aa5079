// S01/S02: service discovery through the public runtime against a reference model of what is offered. The harness decides
// when, and in batches of which size, file system events reach the code; a second provider process offers, stops and dies.
#include "e2e.h"

#include "score/mw/com/impl/handle_type.h"
#include "score/mw/com/impl/runtime.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/flag_file.h"

#include <map>
#include <mutex>
#include <set>

#include <sys/socket.h>
#include <sys/wait.h>

using namespace e2e;
namespace impl = ::score::mw::com::impl;

namespace
{
struct Inst
{
    const char* spec;
    int svc;
    int inst;
    bool b;
};
// instance and service numbers that are prefixes of each other
constexpr Inst kInst[] = {{"s/a1", 60, 1, true}, {"s/a2", 60, 2, false}, {"s/a11", 60, 11, false}, {"s/b1", 600, 1, true}, {"s/a3", 60, 3, true}};
constexpr std::size_t kInsts = sizeof(kInst) / sizeof(kInst[0]);
struct Query
{
    const char* spec;
    int svc;
    int inst;  // -1: any
    bool b;
};
constexpr Query kQuery[] = {{"s/a1", 60, 1, true},   {"s/a2", 60, 2, false},  {"s/a11", 60, 11, false}, {"s/b1", 600, 1, true}, {"q/a1", 60, 1, false},
                            {"q/b1", 600, 1, false}, {"q/any", 60, -1, false}, {"q/anyb", 60, -1, true}, {"q/any2", 600, -1, false}, {"q/a2b", 60, 2, true},
                            {"q/a3", 60, 3, false}};
constexpr std::size_t kQueries = sizeof(kQuery) / sizeof(kQuery[0]);

std::string Cfg()
{
    std::string s = R"({"serviceTypes":[)";
    auto type = [](const char* n, int id) {
        return std::string{"{\"serviceTypeName\":\""} + n + "\",\"version\":{\"major\":1,\"minor\":0},\"bindings\":[{\"binding\":\"SHM\",\"serviceId\":" + std::to_string(id) +
               ",\"events\":[{\"eventName\":\"ev\",\"eventId\":1}]}]}";
    };
    s += type("/v/A", 60) + "," + type("/v/B", 600) + R"(],"serviceInstances":[)";
    std::set<std::string> done;
    auto inst = [&](const char* spec, int svc, int id, bool b) {
        if (!done.insert(spec).second)
        {
            return;
        }
        s += (done.size() > 1 ? "," : "") + std::string{"{\"instanceSpecifier\":\""} + spec + "\",\"serviceTypeName\":\"" + (svc == 60 ? "/v/A" : "/v/B") +
             "\",\"version\":{\"major\":1,\"minor\":0},\"instances\":[{" + (id >= 0 ? "\"instanceId\":" + std::to_string(id) + "," : std::string{}) + "\"asil-level\":\"" +
             (b ? "B" : "QM") + "\",\"binding\":\"SHM\",\"events\":[{\"eventName\":\"ev\",\"numberOfSampleSlots\":2,\"maxSubscribers\":2}]}]}";
    };
    for (auto& i : kInst)
    {
        inst(i.spec, i.svc, i.inst, i.b);
    }
    for (auto& q : kQuery)
    {
        inst(q.spec, q.svc, q.inst, q.b);
    }
    return s + R"(],"global":{"asil-level":"B"}})";
}

impl::InstanceIdentifier Id(const char* spec)
{
    return impl::Runtime::getInstance().resolve(Spec(spec)).at(0);
}
impl::IServiceDiscovery& Sd()
{
    return impl::Runtime::getInstance().GetServiceDiscovery();
}
/// A provider process: offers and stops on command, so that it can be killed like a crashed one.
struct Remote
{
    pid_t pid{-1};
    int fd{-1};
    bool alive{false};
    explicit Remote(const Scratch& scratch)
    {
        int sp[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) != 0)
        {
            return;
        }
        pid = fork();
        if (pid == 0)
        {
            close(sp[0]);
            // a container of its own would give it a pid of its own
            bool up{false};
            unsigned char c[2];
            while (read(sp[1], c, 2) == 2)
            {
                if (!up)
                {
                    ::score::mw::com::runtime::RuntimeConfiguration rc{score::filesystem::Path{"/cfg.json"}};
                    ::score::mw::com::runtime::InitializeRuntime(rc);
                    up = true;
                }
                unsigned char r{0};
                const auto id = Id(kInst[c[1]].spec);
                switch (c[0])
                {
                    case 'o':
                        r = Sd().OfferService(id).has_value();
                        break;
                    case 's':
                        r = Sd().StopOfferService(id).has_value();
                        break;
                    case 'q':
                        r = Sd().StopOfferService(id, impl::IServiceDiscovery::QualityTypeSelector::kAsilQm).has_value();
                        break;
                    default:
                        break;
                }
                if (write(sp[1], &r, 1) != 1)
                {
                    break;
                }
            }
            _exit(0);
        }
        close(sp[1]);
        fd = sp[0];
        alive = true;
        (void)scratch;
    }
    bool Do(char what, std::size_t inst)
    {
        const unsigned char c[2] = {static_cast<unsigned char>(what), static_cast<unsigned char>(inst)};
        unsigned char r{0};
        return write(fd, c, 2) == 2 && read(fd, &r, 1) == 1 && r == 1;
    }
    void Kill()
    {
        if (alive)
        {
            kill(pid, SIGKILL);
            int st;
            waitpid(pid, &st, 0);
            close(fd);
            alive = false;
        }
    }
    ~Remote() { Kill(); }
};

/// What is offered at which quality; a crashed provider's instances may or may not be visible.
struct Offer
{
    bool qm{false};
    bool b{false};
    int owner{-1};       // 0: this process, 1: the remote one, -1: nobody
    bool unsure{false};  // the provider died
};

using Ids = std::set<int>;

struct Search
{
    std::size_t query{0};
    std::optional<impl::FindServiceHandle> handle{};
    bool stopped{false};
    std::vector<Ids> reports{};
    bool late{false};
    bool foreign{false};
    bool repeated{false};
    std::size_t plan_stop{SIZE_MAX};   // stop itself in its n-th call
    std::size_t plan_start{SIZE_MAX};  // start another search in its n-th call
    bool used_find{false};
    std::size_t calls{0};
};

Ids IdsOf(const impl::ServiceHandleContainer<impl::HandleType>& c, bool& foreign, int svc)
{
    Ids r;
    for (auto& h : c)
    {
        const auto lola = std::get<impl::LolaServiceInstanceId>(h.GetInstanceId().binding_info_);
        if (!r.insert(lola.GetId()).second)
        {
            foreign = true;  // reported twice in one call
        }
        const auto& t = std::get<impl::LolaServiceTypeDeployment>(h.GetServiceTypeDeployment().binding_info_);
        foreign = foreign || t.service_id_ != svc;
    }
    return r;
}

struct World
{
    std::recursive_mutex m;
    std::vector<std::unique_ptr<Search>> searches;
    std::map<int, Offer> offers;  // by index into kInst
    std::vector<std::pair<std::size_t, std::size_t>> nested;

    bool Match(const Query& q, std::size_t i, bool& maybe) const
    {
        maybe = false;
        if (kInst[i].svc != q.svc || (q.inst >= 0 && kInst[i].inst != q.inst))
        {
            return false;
        }
        const auto it = offers.find(static_cast<int>(i));
        if (it == offers.end())
        {
            return false;
        }
        const bool on = q.b ? it->second.b : it->second.qm;
        maybe = it->second.unsure && on;
        return on && !it->second.unsure;
    }
    void Expect(const Query& q, Ids& must, Ids& may) const
    {
        for (std::size_t i = 0; i < kInsts; ++i)
        {
            bool maybe{false};
            if (Match(q, i, maybe))
            {
                must.insert(kInst[i].inst);
                may.insert(kInst[i].inst);
            }
            else if (maybe)
            {
                may.insert(kInst[i].inst);
            }
        }
    }
    bool Agrees(const Query& q, const Ids& got) const
    {
        Ids must, may;
        Expect(q, must, may);
        return std::includes(got.begin(), got.end(), must.begin(), must.end()) && std::includes(may.begin(), may.end(), got.begin(), got.end());
    }

    void Start(std::size_t query, std::size_t plan_stop, std::size_t plan_start, bool by_id)
    {
        std::unique_lock<std::recursive_mutex> l{m};
        searches.push_back(std::make_unique<Search>());
        auto* s = searches.back().get();
        s->query = query;
        s->plan_stop = plan_stop;
        s->plan_start = plan_start;
        l.unlock();
        auto handler = [this, s](impl::ServiceHandleContainer<impl::HandleType> c, impl::FindServiceHandle h) {
            std::size_t n{0};
            {
                std::lock_guard<std::recursive_mutex> g{m};
                n = ++s->calls;
                const auto ids = IdsOf(c, s->foreign, kQuery[s->query].svc);
                s->late = s->late || s->stopped;
                s->repeated = s->repeated || (s->reports.empty() ? ids.empty() : s->reports.back() == ids);
                s->foreign = s->foreign || (s->handle.has_value() && !(*s->handle == h));
                s->reports.push_back(ids);
                if (n == s->plan_stop)
                {
                    s->stopped = true;
                }
            }
            if (n == s->plan_stop)
            {
                (void)Sd().StopFindService(h);
            }
            if (n == s->plan_start)
            {
                Start((s->query * 5 + 3) % kQueries, SIZE_MAX, SIZE_MAX, false);
            }
        };
        auto r = by_id ? Sd().StartFindService(handler, Id(kQuery[query].spec)) : Sd().StartFindService(handler, Spec(kQuery[query].spec));
        l.lock();
        if (r.has_value())
        {
            s->handle = r.value();
        }
    }
};

std::string Show(const Ids& ids)
{
    std::string s = "{";
    for (auto i : ids)
    {
        s += std::to_string(i) + " ";
    }
    return s + "}";
}
}  // namespace

PBT_PROPERTY_EX(discovery_histories, 40000, 2000000, true, 60, 3, 0)
{
    Scratch scratch;
    auto& control = verif_shim::InotifyControl::Get();
    std::ofstream(scratch.root + "/cfg.json") << Cfg();
    std::unique_ptr<Remote> remote;
    const bool with_remote = src.Chance(1, 3);
    if (with_remote)
    {
        remote = std::make_unique<Remote>(scratch);
    }
    Start(scratch, Cfg());
    auto* w = new World{};
    const auto batch = src.Below(4);
    control.max_batch = static_cast<unsigned>(batch);
    bool dirty{false};
    auto settle = [&] {
        const bool was = control.hold.exchange(false);
        PBT_CHECK(ctx, control.Drain(30.0), "the service discovery worker does not come to rest");
        control.hold = was;
        std::lock_guard<std::recursive_mutex> g{w->m};
        for (auto& s : w->searches)
        {
            PBT_CHECK(ctx, !s->late, "the handler of %s was called after its search was stopped", kQuery[s->query].spec);
            PBT_CHECK(ctx, !s->foreign, "the handler of %s got a foreign or doubled instance or a wrong search handle", kQuery[s->query].spec);
            PBT_CHECK(ctx, !s->repeated, "the handler of %s was called although nothing had changed for it", kQuery[s->query].spec);
            if (!s->stopped)
            {
                PBT_CHECK(ctx, s->handle.has_value(), "StartFindService failed");
                const Ids last = s->reports.empty() ? Ids{} : s->reports.back();
                Ids must, may;
                w->Expect(kQuery[s->query], must, may);
                PBT_CHECK(ctx, w->Agrees(kQuery[s->query], last), "search %s last reported %s, offered are %s", kQuery[s->query].spec, Show(last).c_str(), Show(must).c_str());
            }
        }
        dirty = false;
    };
    const auto steps = 4 + src.Below(26);
    std::size_t held_ops{0}, restarts{0};
    for (std::uint64_t i = 0; i < steps; ++i)
    {
        switch (src.Weighted({8, 5, 2, 4, 3, 2, 3, 3, 2, with_remote ? 1U : 0U}))
        {
            case 0:  // offer or stop
            case 1:
            {
                const auto k = src.Below(kInsts);
                auto& o = w->offers[static_cast<int>(k)];
                if (o.owner < 0)
                {
                    const int who = remote && remote->alive && src.Bool() ? 1 : 0;
                    const bool ok = who == 1 ? remote->Do('o', k) : Sd().OfferService(Id(kInst[k].spec)).has_value();
                    PBT_CHECK(ctx, ok, "OfferService of %s failed", kInst[k].spec);
                    restarts += o.unsure ? 1U : 0U;
                    o = Offer{true, kInst[k].b, who, false};
                    ctx.Note("offer %s by %d", kInst[k].spec, who);
                }
                else
                {
                    const bool ok = o.owner == 1 ? remote->Do('s', k) : Sd().StopOfferService(Id(kInst[k].spec)).has_value();
                    PBT_CHECK(ctx, ok, "StopOfferService of %s failed", kInst[k].spec);
                    ctx.Note("stop %s by %d", kInst[k].spec, o.owner);
                    o = Offer{};
                }
                dirty = true;
                held_ops += control.hold ? 1U : 0U;
                break;
            }
            case 2:  // quick stop and offer again, or offer and stop again
            {
                const auto k = src.Below(kInsts);
                auto& o = w->offers[static_cast<int>(k)];
                if (o.owner == 1 || o.unsure)
                {
                    break;
                }
                const auto n = 1 + src.Below(3);
                for (std::uint64_t j = 0; j < n; ++j)
                {
                    if (o.owner == 0)
                    {
                        PBT_CHECK(ctx, Sd().StopOfferService(Id(kInst[k].spec)).has_value(), "StopOfferService failed");
                        o = Offer{};
                    }
                    else
                    {
                        PBT_CHECK(ctx, Sd().OfferService(Id(kInst[k].spec)).has_value(), "OfferService failed");
                        o = Offer{true, kInst[k].b, 0, false};
                    }
                }
                ctx.Note("flip %s %llu times", kInst[k].spec, (unsigned long long)n);
                ctx.Label("quick changes");
                dirty = true;
                break;
            }
            case 3:
            {
                const auto q = src.Below(kQueries);
                const auto ps = src.Chance(1, 5) ? 1 + src.Below(3) : SIZE_MAX;
                const auto pst = src.Chance(1, 6) ? 1 + src.Below(2) : SIZE_MAX;
                ctx.Note("search %s stop@%lld start@%lld", kQuery[q].spec, (long long)ps, (long long)pst);
                w->Start(q, ps, pst, src.Bool());
                break;
            }
            case 4:
            {
                std::unique_lock<std::recursive_mutex> g{w->m};
                if (w->searches.empty())
                {
                    break;
                }
                auto* s = w->searches[src.Below(w->searches.size())].get();
                if (!s->handle.has_value())
                {
                    break;
                }
                const auto h = *s->handle;
                g.unlock();
                PBT_CHECK(ctx, Sd().StopFindService(h).has_value(), "StopFindService failed");
                g.lock();
                s->stopped = true;
                ctx.Note("stop search %s", kQuery[s->query].spec);
                break;
            }
            case 5:
            {
                const auto k = src.Below(kInsts);
                auto it = w->offers.find(static_cast<int>(k));
                if (it == w->offers.end() || it->second.owner < 0)
                {
                    break;
                }
                const bool ok = it->second.owner == 1 ? remote->Do('q', k)
                                                      : Sd().StopOfferService(Id(kInst[k].spec), impl::IServiceDiscovery::QualityTypeSelector::kAsilQm).has_value();
                PBT_CHECK(ctx, ok, "stopping the QM offer of %s failed", kInst[k].spec);
                it->second.qm = false;
                ctx.Note("stop QM of %s", kInst[k].spec);
                ctx.Label("QM only stop");
                dirty = true;
                break;
            }
            case 6:
            {
                const auto q = src.Below(kQueries);
                auto r = src.Bool() ? Sd().FindService(Spec(kQuery[q].spec)) : Sd().FindService(Id(kQuery[q].spec));
                PBT_CHECK(ctx, r.has_value() || kQuery[q].inst >= 0 || true, "FindService failed");
                bool foreign{false};
                const auto got = r.has_value() ? IdsOf(r.value(), foreign, kQuery[q].svc) : Ids{};
                Ids must, may;
                w->Expect(kQuery[q], must, may);
                PBT_CHECK(ctx, !foreign, "FindService(%s) returned a foreign or doubled instance", kQuery[q].spec);
                PBT_CHECK(ctx, w->Agrees(kQuery[q], got), "FindService(%s) returned %s, offered are %s", kQuery[q].spec, Show(got).c_str(), Show(must).c_str());
                ctx.Note("find %s -> %s", kQuery[q].spec, Show(got).c_str());
                break;
            }
            case 7:
            {
                if (!control.hold)
                {
                    settle();
                    control.hold = true;
                    ctx.Note("hold");
                }
                else
                {
                    const auto p = control.Pending(30.0);
                    if (p > 0)
                    {
                        const auto n = 1 + src.Below(6);
                        (void)control.Release(static_cast<unsigned>(n));
                        ctx.Note("release %llu of %ld", (unsigned long long)n, p);
                        ctx.Label("batch released");
                    }
                }
                break;
            }
            case 8:
                settle();
                ctx.Note("settle");
                break;
            default:
                if (remote->alive)
                {
                    remote->Kill();
                    for (auto& o : w->offers)
                    {
                        if (o.second.owner == 1)
                        {
                            o.second.owner = -1;
                            o.second.unsure = true;
                        }
                    }
                    ctx.Note("provider killed");
                    ctx.Label("provider killed");
                }
                break;
        }
    }
    settle();
    control.hold = false;
    std::size_t told{0};
    {
        std::lock_guard<std::recursive_mutex> g{w->m};
        for (auto& s : w->searches)
        {
            told += s->reports.size() > 1 ? 1U : 0U;
        }
    }
    if (restarts > 0)
    {
        ctx.Label("taken over after a crash");
    }
    if (told > 0)
    {
        ctx.NonTrivial();
    }
    (void)held_ops;
    (void)dirty;
    for (auto& o : w->offers)
    {
        if (o.second.owner == 0)
        {
            (void)Sd().StopOfferService(Id(kInst[o.first].spec));
        }
    }
}
