// M01: remote method calls through the public API against a reference of what each call must do.
#include "e2e.h"

#include <atomic>
#include <mutex>
#include <thread>

using namespace e2e;

namespace
{
struct Small
{
    std::uint8_t a;
    std::uint32_t b;
    std::uint8_t c;
    std::uint64_t d;
};

template <typename T>
class Iface : public T::Base
{
  public:
    using T::Base::Base;
    typename T::template Method<std::int64_t(std::int64_t, std::int32_t, std::uint8_t)> calc{*this, "calc"};
    typename T::template Method<Payload(Payload, std::uint16_t)> mix{*this, "mix"};
    typename T::template Method<void(std::uint8_t, Small)> sink{*this, "sink"};
    typename T::template Method<std::uint64_t()> source{*this, "source"};
    typename T::template Method<void()> ping{*this, "ping"};
};
using Proxy = com::AsProxy<Iface>;
using Skeleton = com::AsSkeleton<Iface>;
constexpr std::size_t kMethods{5};
const char* const kNames[kMethods] = {"calc", "mix", "sink", "source", "ping"};

std::string Cfg(const bool (&use)[kMethods], bool asil_b)
{
    std::string types, inst;
    for (std::size_t i = 0; i < kMethods; ++i)
    {
        types += (i ? "," : "") + std::string{"{\"methodName\":\""} + kNames[i] + "\",\"methodId\":" + std::to_string(20 + i) + "}";
        inst += (i ? "," : "") + std::string{"{\"methodName\":\""} + kNames[i] + "\",\"queueSize\":1,\"use\":" + (use[i] ? "true" : "false") + "}";
    }
    const std::string asil = asil_b ? "B" : "QM";
    return R"({"serviceTypes":[{"serviceTypeName":"/v/M","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":5001,"methods":[)" + types +
           R"(]}]}],"serviceInstances":[{"instanceSpecifier":"v/inst","serviceTypeName":"/v/M","version":{"major":1,"minor":0},"instances":[{"instanceId":1,"asil-level":")" + asil +
           R"(","binding":"SHM","methods":[)" + inst + R"(]}]}],"global":{"asil-level":")" + asil + "\"}}";
}

std::int64_t CalcOf(std::uint64_t key, std::int64_t a, std::int32_t b, std::uint8_t c)
{
    return static_cast<std::int64_t>(pbt::Mix(key ^ static_cast<std::uint64_t>(a) * 3 ^ (static_cast<std::uint64_t>(static_cast<std::uint32_t>(b)) << 17U) ^ c));
}

/// What the handlers saw.
struct Seen
{
    std::mutex mu;
    std::uint64_t count[kMethods]{};
    std::uint64_t digest[kMethods]{};  // order-independent sum of the argument hashes
    void Add(std::size_t m, std::uint64_t h)
    {
        std::lock_guard<std::mutex> g{mu};
        ++count[m];
        digest[m] += pbt::Mix(h);
    }
};

std::uint64_t HashOf(std::uint8_t a, const Small& s)
{
    return pbt::Mix(a) ^ pbt::Mix(s.a + 1000ull) ^ pbt::Mix(s.b + 77777ull) * 3 ^ pbt::Mix(s.c + 31ull) * 5 ^ pbt::Mix(s.d) * 7;
}

struct Expect
{
    std::uint64_t count[kMethods]{};
    std::uint64_t digest[kMethods]{};
    void Add(std::size_t m, std::uint64_t h)
    {
        ++count[m];
        digest[m] += pbt::Mix(h);
    }
};

template <typename Sk>
void Register(Sk& sk, std::uint64_t key, Seen& seen, std::size_t m)
{
    switch (m)
    {
        case 0:
            sk.calc.RegisterHandler([key, &seen](std::int64_t& r, const std::int64_t& a, const std::int32_t& b, const std::uint8_t& c) {
                r = CalcOf(key, a, b, c);
                seen.Add(0, static_cast<std::uint64_t>(r));
            });
            break;
        case 1:
            sk.mix.RegisterHandler([&seen](Payload& r, const Payload& p, const std::uint16_t& n) {
                seen.Add(1, p.Valid() ? p.seq * 65536 + n : 0xBAD);
                r = Payload::Make(p.seq + n);
            });
            break;
        case 2:
            sk.sink.RegisterHandler([&seen](const std::uint8_t& a, const Small& s) { seen.Add(2, HashOf(a, s)); });
            break;
        case 3:
            sk.source.RegisterHandler([key, &seen](std::uint64_t& r) {
                r = pbt::Mix(key + seen.count[3]);
                seen.Add(3, 3);
            });
            break;
        default:
            sk.ping.RegisterHandler([&seen] { seen.Add(4, 4); });
            break;
    }
}

struct Client
{
    explicit Client(Proxy p) : proxy{std::move(p)} {}
    Proxy proxy;
    using RCalc = decltype(std::declval<Proxy&>().calc(1, 2, 3));
    using RMix = decltype(std::declval<Proxy&>().mix(std::declval<const Payload&>(), std::uint16_t{1}));
    using RSource = decltype(std::declval<Proxy&>().source());
    using ACalc = decltype(std::declval<Proxy&>().calc.Allocate());
    using AMix = decltype(std::declval<Proxy&>().mix.Allocate());
    using ASink = decltype(std::declval<Proxy&>().sink.Allocate());
    std::optional<RCalc> calc_ret;
    std::int64_t calc_want{};
    std::optional<RMix> mix_ret;
    std::uint64_t mix_want{};
    std::optional<RSource> source_ret;
    std::uint64_t source_want{};
    std::optional<ACalc> calc_args;
    std::optional<AMix> mix_args;
    std::optional<ASink> sink_args;
    bool Holds(std::size_t m) const
    {
        switch (m)
        {
            case 0:
                return calc_ret || calc_args;
            case 1:
                return mix_ret || mix_args;
            case 2:
                return sink_args.has_value();
            case 3:
                return source_ret.has_value();
            default:
                return false;
        }
    }
    void Release(std::size_t m)
    {
        switch (m)
        {
            case 0:
                calc_ret.reset();
                calc_args.reset();
                break;
            case 1:
                mix_ret.reset();
                mix_args.reset();
                break;
            case 2:
                sink_args.reset();
                break;
            case 3:
                source_ret.reset();
                break;
            default:
                break;
        }
    }
};

/// One call of one method. `up`: the call has to succeed, unless storage of this method is still held.
struct Caller
{
    pbt::Src& src;
    pbt::Ctx& ctx;
    std::uint64_t key;
    Seen& seen;
    Expect& want;
    const bool (&use)[kMethods];
    std::uint64_t calls{0};
    std::uint64_t refused{0};

    template <typename R>
    bool Refused(const R& r, bool up, bool held, std::size_t m, const char* how)
    {
        const bool ok = up && use[m] && !held;
        if (!up && *how == 'A')
        {
            // a proxy learns about StopOfferService asynchronously: storage may still be handed out
            return !r.has_value();
        }
        PBT_CHECK(ctx, r.has_value() == ok, "%s of %s returned %d (offered %d, enabled %d, storage held %d)", how, kNames[m], r.has_value(), up, use[m], held);
        if (!ok)
        {
            ++refused;
            const auto e = static_cast<com::impl::ComErrc>(*r.error());
            if (!use[m])
            {
                PBT_CHECK(ctx, e == com::impl::ComErrc::kMethodBindingDisabled || e == com::impl::ComErrc::kBindingFailure, "call of a disabled method failed with %d", (int)e);
            }
            else if (held)
            {
                PBT_CHECK(ctx, e == com::impl::ComErrc::kCallQueueFull || (!up), "call with held storage failed with %d", (int)e);
            }
        }
        return !ok;
    }
    void One(Client& c, bool up, std::size_t m)
    {
        const bool held = c.Holds(m);
        const bool zero_copy = src.Chance(1, 3);
        const bool keep = src.Chance(1, 4);
        ctx.Note("%s%s%s%s", kNames[m], zero_copy ? "/zc" : "", held ? " (held)" : "", keep ? " keep" : "");
        switch (m)
        {
            case 0:
            {
                const auto a = src.Int<std::int64_t>();
                const auto b = src.Int<std::int32_t>();
                const auto cc = src.Int<std::uint8_t>();
                const auto w = CalcOf(key, a, b, cc);
                std::optional<Client::RCalc> r;
                if (zero_copy)
                {
                    auto args = c.proxy.calc.Allocate();
                    if (Refused(args, up, held, m, "Allocate"))
                    {
                        return;
                    }
                    auto& [x, y, z] = args.value();
                    *x = a;
                    *y = b;
                    *z = cc;
                    if (src.Chance(1, 5))
                    {
                        c.calc_args.emplace(std::move(args));
                        return;
                    }
                    auto before = seen.count[0];
                    r.emplace(c.proxy.calc(std::move(x), std::move(y), std::move(z)));
                    PBT_CHECK(ctx, !up || !use[0] || seen.count[0] == before + 1, "zero-copy call invoked the handler %d times", (int)(seen.count[0] - before));
                }
                else
                {
                    r.emplace(c.proxy.calc(a, b, cc));
                }
                if (Refused(*r, up, held, m, "call"))
                {
                    return;
                }
                PBT_CHECK(ctx, *r->value() == w, "calc(%lld,%d,%u) returned a wrong value", (long long)a, b, cc);
                want.Add(0, static_cast<std::uint64_t>(w));
                if (keep)
                {
                    c.calc_ret.emplace(std::move(*r));
                    c.calc_want = w;
                }
                break;
            }
            case 1:
            {
                const auto s = src.Below(100000);
                const auto n = src.Int<std::uint16_t>();
                std::optional<Client::RMix> r;
                if (zero_copy)
                {
                    auto args = c.proxy.mix.Allocate();
                    if (Refused(args, up, held, m, "Allocate"))
                    {
                        return;
                    }
                    auto& [x, y] = args.value();
                    *x = Payload::Make(s);
                    *y = n;
                    if (src.Chance(1, 5))
                    {
                        c.mix_args.emplace(std::move(args));
                        return;
                    }
                    r.emplace(c.proxy.mix(std::move(x), std::move(y)));
                }
                else
                {
                    r.emplace(c.proxy.mix(Payload::Make(s), n));
                }
                if (Refused(*r, up, held, m, "call"))
                {
                    return;
                }
                PBT_CHECK(ctx, r->value()->Valid() && r->value()->seq == s + n, "mix returned a wrong value");
                want.Add(1, s * 65536 + n);
                if (keep)
                {
                    c.mix_ret.emplace(std::move(*r));
                    c.mix_want = s + n;
                }
                break;
            }
            case 2:
            {
                const Small s{src.Int<std::uint8_t>(), src.Int<std::uint32_t>(), src.Int<std::uint8_t>(), src.Int<std::uint64_t>()};
                const auto a = src.Int<std::uint8_t>();
                if (zero_copy)
                {
                    auto args = c.proxy.sink.Allocate();
                    if (Refused(args, up, held, m, "Allocate"))
                    {
                        return;
                    }
                    auto& [x, y] = args.value();
                    *x = a;
                    *y = s;
                    if (src.Chance(1, 5))
                    {
                        c.sink_args.emplace(std::move(args));
                        return;
                    }
                    if (Refused(c.proxy.sink(std::move(x), std::move(y)), up, held, m, "call"))
                    {
                        return;
                    }
                }
                else if (Refused(c.proxy.sink(a, s), up, held, m, "call"))
                {
                    return;
                }
                want.Add(2, HashOf(a, s));
                break;
            }
            case 3:
            {
                const auto w = pbt::Mix(key + seen.count[3]);
                auto r = c.proxy.source();
                if (Refused(r, up, held, m, "call"))
                {
                    return;
                }
                PBT_CHECK(ctx, *r.value() == w, "source returned a wrong value");
                want.Add(3, 3);
                if (keep)
                {
                    c.source_ret.emplace(std::move(r));
                    c.source_want = w;
                }
                break;
            }
            default:
                if (Refused(c.proxy.ping(), up, false, m, "call"))
                {
                    return;
                }
                want.Add(4, 4);
                break;
        }
        ++calls;
    }
    void CheckKept(const Client& c)
    {
        PBT_CHECK(ctx, !c.calc_ret || *c.calc_ret->value() == c.calc_want, "a kept return value of calc changed");
        PBT_CHECK(ctx, !c.mix_ret || (c.mix_ret->value()->Valid() && c.mix_ret->value()->seq == c.mix_want), "a kept return value of mix changed");
        PBT_CHECK(ctx, !c.source_ret || *c.source_ret->value() == c.source_want, "a kept return value of source changed");
    }
    void CheckSeen()
    {
        for (std::size_t m = 0; m < kMethods; ++m)
        {
            PBT_CHECK(ctx, seen.count[m] == want.count[m] && seen.digest[m] == want.digest[m], "handler of %s ran %llu times, %llu calls succeeded (arguments %s)", kNames[m],
                      (unsigned long long)seen.count[m], (unsigned long long)want.count[m], seen.digest[m] == want.digest[m] ? "match" : "differ");
        }
    }
};
}  // namespace

PBT_PROPERTY_EX(method_histories, 60000, 2000000, true, 60, 3, 0)
{
    Scratch scratch;
    bool use[kMethods];
    bool any{false};
    for (auto& u : use)
    {
        u = !src.Chance(1, 6);
        any = any || u;
    }
    const bool asil_b = src.Bool();
    Start(scratch, Cfg(use, asil_b));
    const auto spec = Spec("v/inst");
    const auto key = src.U64();
    Seen seen;
    Expect want;
    auto sk_box = std::make_unique<Skeleton>(Skeleton::Create(spec).value());
    // a service with a method without handler cannot be offered
    std::vector<std::size_t> order{0, 1, 2, 3, 4};
    src.Shuffle(order);
    for (std::size_t i = 0; i < kMethods; ++i)
    {
        if (src.Chance(1, 5))
        {
            PBT_CHECK(ctx, !sk_box->OfferService().has_value(), "OfferService succeeded although %s has no handler", kNames[order[i]]);
            PBT_CHECK(ctx, Proxy::FindService(spec).value().empty(), "a service whose OfferService failed is visible");
            ctx.Label("offer refused");
        }
        if (src.Chance(1, 5))
        {
            sk_box = std::make_unique<Skeleton>(std::move(*sk_box));
        }
        Register(*sk_box, key, seen, order[i]);
    }
    PBT_CHECK(ctx, sk_box->OfferService().has_value(), "OfferService failed");
    bool up{true};
    auto handles = Proxy::FindService(spec).value();
    PBT_CHECK(ctx, handles.size() == 1, "offered instance not found");
    std::vector<std::unique_ptr<Client>> clients(3);
    Caller call{src, ctx, key, seen, want, use};
    const auto steps = 4 + src.Below(40);
    unsigned cycles{0};
    for (std::uint64_t i = 0; i < steps; ++i)
    {
        const auto ci = src.Below(clients.size());
        auto& c = clients[ci];
        if (!c)
        {
            if (up)
            {
                ctx.Note("c%llu create", (unsigned long long)ci);
                Quiesce();  // a stale discovery cache is the business of S03
                auto r = Proxy::Create(handles[0]);
                PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed");
                c = std::make_unique<Client>(std::move(r).value());
            }
            else
            {
                up = true;
                PBT_CHECK(ctx, sk_box->OfferService().has_value(), "re-offer failed");
                ctx.Note("re-offer");
                ++cycles;
                // surviving proxies are re-connected asynchronously
                for (auto& o : clients)
                {
                    if (!o)
                    {
                        continue;
                    }
                    for (std::size_t m = 0; m < kMethods; ++m)
                    {
                        o->Release(m);
                    }
                    if (!any)
                    {
                        continue;
                    }
                    std::size_t m{0};
                    while (!use[m])
                    {
                        ++m;
                    }
                    auto& p = o->proxy;
                    const bool ok = Eventually([&] {
                        bool done{false};
                        std::uint64_t h{m};
                        switch (m)
                        {
                            case 0:
                                done = p.calc(1, 2, 3).has_value();
                                h = static_cast<std::uint64_t>(CalcOf(key, 1, 2, 3));
                                break;
                            case 1:
                                done = p.mix(Payload::Make(5), 6).has_value();
                                h = 5 * 65536 + 6;
                                break;
                            case 2:
                                done = p.sink(7, Small{1, 2, 3, 4}).has_value();
                                h = HashOf(7, Small{1, 2, 3, 4});
                                break;
                            case 3:
                                done = p.source().has_value();
                                break;
                            default:
                                done = p.ping().has_value();
                                break;
                        }
                        if (done)
                        {
                            want.Add(m, h);
                        }
                        return done;
                    });
                    PBT_CHECK(ctx, ok, "methods of a surviving proxy do not work again after a re-offer");
                }
                // all methods of a proxy are re-enabled together under one lock; wait out that loop
                std::this_thread::sleep_for(std::chrono::microseconds(300));
            }
            continue;
        }
        switch (src.Weighted({14, 4, 1, 1, 1, 1}))
        {
            case 0:
                call.One(*c, up, src.Below(kMethods));
                break;
            case 1:
            {
                const auto m = src.Below(kMethods);
                if (c->calc_args && m == 0 && up)
                {
                    // storage allocated earlier is still good for a call
                    auto& [x, y, z] = c->calc_args->value();
                    const auto w = CalcOf(key, *x, *y, *z);
                    {
                        auto r = c->proxy.calc(std::move(x), std::move(y), std::move(z));
                        PBT_CHECK(ctx, r.has_value() && *r.value() == w, "call with storage allocated earlier failed");
                    }
                    want.Add(0, static_cast<std::uint64_t>(w));
                    c->calc_args.reset();
                    ctx.Label("deferred zero-copy call");
                    break;
                }
                c->Release(m);
                ctx.Note("release %s", kNames[m]);
                break;
            }
            case 2:
                if (!c->Holds(0) && !c->Holds(1) && !c->Holds(2) && !c->Holds(3))
                {
                    c = std::make_unique<Client>(std::move(c->proxy));
                    ctx.Note("c%llu move", (unsigned long long)ci);
                }
                break;
            case 3:
                ctx.Note("c%llu destroy", (unsigned long long)ci);
                for (std::size_t m = 0; m < kMethods; ++m)
                {
                    c->Release(m);
                }
                c.reset();
                break;
            case 4:
                if (up)
                {
                    // storage stays valid across StopOfferService, but is given back here to keep the reference simple
                    for (auto& o : clients)
                    {
                        for (std::size_t m = 0; o && m < kMethods; ++m)
                        {
                            o->Release(m);
                        }
                    }
                    sk_box->StopOfferService();
                    up = false;
                    ctx.Note("stop-offer");
                    ctx.Label("stop-offer");
                }
                break;
            default:
                if (!up && src.Bool())
                {
                    sk_box = std::make_unique<Skeleton>(std::move(*sk_box));
                    ctx.Note("move skeleton");
                }
                break;
        }
        for (auto& o : clients)
        {
            if (o)
            {
                call.CheckKept(*o);
            }
        }
        call.CheckSeen();
    }
    if (call.calls >= 3)
    {
        ctx.NonTrivial();
    }
    if (call.refused)
    {
        ctx.Label("call refused");
    }
    if (cycles)
    {
        ctx.Label("re-offered");
    }
    ctx.Count("successful calls", call.calls);
    clients.clear();
}

// Several threads call concurrently, each with its own proxy: every call gets the answer to its own arguments.
PBT_PROPERTY_EX(method_concurrent, 20000, 500000, true, 60, 1, 0)
{
    Scratch scratch;
    const bool use[kMethods] = {true, true, true, true, true};
    Start(scratch, Cfg(use, src.Bool()));
    const auto spec = Spec("v/inst");
    const auto key = src.U64();
    Seen seen;
    Expect want;
    auto sk = Skeleton::Create(spec).value();
    for (std::size_t m = 0; m < kMethods; ++m)
    {
        Register(sk, key, seen, m);
    }
    PBT_CHECK(ctx, sk.OfferService().has_value(), "OfferService failed");
    const auto handles = Proxy::FindService(spec).value();
    const auto n = 2 + src.Below(2);
    struct Job
    {
        std::unique_ptr<Proxy> p;
        std::vector<std::tuple<std::int64_t, std::int32_t, std::uint8_t>> args;
        std::string error;
    };
    std::vector<Job> jobs(n);
    for (auto& j : jobs)
    {
        auto r = Proxy::Create(handles[0]);
        PBT_CHECK(ctx, r.has_value(), "Proxy::Create failed");
        j.p = std::make_unique<Proxy>(std::move(r).value());
        const auto k = 3 + src.Below(20);
        for (std::uint64_t i = 0; i < k; ++i)
        {
            j.args.emplace_back(src.Int<std::int64_t>(), src.Int<std::int32_t>(), src.Int<std::uint8_t>());
            want.Add(0, static_cast<std::uint64_t>(CalcOf(key, std::get<0>(j.args.back()), std::get<1>(j.args.back()), std::get<2>(j.args.back()))));
            want.Add(1, (static_cast<std::uint64_t>(std::get<0>(j.args.back())) & 0xFFFF) * 65536 + std::get<2>(j.args.back()));
        }
    }
    std::vector<std::thread> th;
    for (auto& j : jobs)
    {
        th.emplace_back([&j, key] {
            for (auto& [a, b, c] : j.args)
            {
                {
                    auto r = j.p->calc(a, b, c);
                    if (!r.has_value() || *r.value() != CalcOf(key, a, b, c))
                    {
                        j.error = "calc gave a wrong answer";
                    }
                }
                const auto s = static_cast<std::uint64_t>(a) & 0xFFFF;
                auto r = j.p->mix(Payload::Make(s), std::uint16_t{c});
                if (!r.has_value() || !r.value()->Valid() || r.value()->seq != s + c)
                {
                    j.error = "mix gave a wrong answer";
                }
            }
        });
    }
    for (auto& t : th)
    {
        t.join();
    }
    for (auto& j : jobs)
    {
        PBT_CHECK(ctx, j.error.empty(), "concurrent caller: %s", j.error.c_str());
    }
    Caller{src, ctx, key, seen, want, use}.CheckSeen();
    ctx.NonTrivial();
}
