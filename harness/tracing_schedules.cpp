// Tracing: the two tracing runtimes over a model of the trace library that fails as generated.
#include "pbt.h"
#include "owned_sched.h"
#include "death.h"

#include "score/analysis/tracing/generic_trace_library/interface_types/generic_trace_api.h"
#include "score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/configuration/lola_service_instance_deployment.h"
#include "score/mw/com/impl/configuration/lola_service_type_deployment.h"
#include "score/mw/com/impl/tracing/trace_error.h"
#include "score/mw/com/impl/tracing/tracing_runtime.h"

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

using namespace score::mw::com::impl;
namespace at = score::analysis::tracing;
using tracing::ServiceElementInstanceIdentifierView;
using TP = at::TracePointType;

namespace
{
enum class Outcome
{
    kOk,
    kRecoverable,
    kFatal,
    kTerminal,
};
score::result::Error Err(Outcome o, std::uint64_t which)
{
    static const at::ErrorCode kSoft[]{at::ErrorCode::kNotEnoughMemoryRecoverable, at::ErrorCode::kRingBufferFullRecoverable, at::ErrorCode::kMessageSendFailedRecoverable};
    static const at::ErrorCode kHard[]{at::ErrorCode::kInvalidArgumentFatal, at::ErrorCode::kDaemonNotConnectedFatal, at::ErrorCode::kUnknownFatal};
    return at::MakeError(o == Outcome::kRecoverable ? kSoft[which % 3] : o == Outcome::kFatal ? kHard[which % 3] : at::ErrorCode::kTerminalFatal);
}
Outcome Draw(pbt::Src& src, unsigned rough)
{
    return src.Chance(rough, 100) ? static_cast<Outcome>(1 + src.Weighted({8, 3, 1})) : Outcome::kOk;
}

/// a sample whose end is seen
struct Live
{
    explicit Live(std::shared_ptr<bool> flag) : alive{std::move(flag)} { *alive = true; }
    Live(Live&&) noexcept = default;
    Live(const Live&) = delete;
    Live& operator=(Live&&) = delete;
    Live& operator=(const Live&) = delete;
    ~Live()
    {
        if (alive != nullptr)
        {
            *alive = false;
        }
    }
    std::shared_ptr<bool> alive;
};

struct Library : at::TraceBackend
{
    struct Call
    {
        bool shm;
        at::AraComMetaInfo meta;
        std::optional<at::SharedMemoryChunk> chunk;
        std::optional<at::LocalDataChunk> local;
        at::TraceContextId id;
    };
    Outcome next_register{Outcome::kOk}, next_unregister{Outcome::kOk};
    std::uint64_t which{0};
    std::string app;
    at::TraceClientId client{7};
    std::optional<at::TraceDoneCallBackType> done;
    std::map<int, Outcome> next_trace;  // per task
    std::map<int, std::optional<Call>> last;
    std::map<at::ShmObjectHandle, int> handles;
    std::vector<int> fds;
    at::ShmObjectHandle next_handle{100};
    int registers{0}, unregisters{0};
    bool wrong_client{false}, wrong_handle{false};

    at::RegisterClientResult RegisterClient(at::BindingType b, const std::string& id) override
    {
        app = b == at::BindingType::kLoLa ? id : "wrong binding";
        return client;
    }
    at::TraceResult RegisterTraceDoneCB(at::TraceClientId c, at::TraceDoneCallBackType cb) override
    {
        wrong_client = wrong_client || c != client;
        done.emplace(std::move(cb));
        return score::Blank{};
    }
    at::RegisterSharedMemoryObjectResult RegisterShmObject(at::TraceClientId c, int fd) override
    {
        wrong_client = wrong_client || c != client;
        ++registers;
        fds.push_back(fd);
        if (next_register != Outcome::kOk)
        {
            return score::MakeUnexpected<at::ShmObjectHandle>(Err(next_register, which));
        }
        handles[next_handle] = fd;
        return next_handle++;
    }
    at::TraceResult UnregisterShmObject(at::TraceClientId c, at::ShmObjectHandle h) override
    {
        wrong_client = wrong_client || c != client;
        ++unregisters;
        wrong_handle = wrong_handle || handles.erase(h) != 1;
        if (next_unregister != Outcome::kOk)
        {
            return score::MakeUnexpected<score::Blank>(Err(next_unregister, which));
        }
        return score::Blank{};
    }
    at::TraceResult Answer(Call call)
    {
        const auto me = sched::Current();
        sched::Point();
        last[me].emplace(std::move(call));
        if (traced)
        {
            traced(*last[me]);
        }
        const auto o = next_trace[me];
        sched::Point();
        if (o != Outcome::kOk)
        {
            return score::MakeUnexpected<score::Blank>(Err(o, which));
        }
        return score::Blank{};
    }
    at::TraceResult TraceShm(at::TraceClientId c, const at::AraComMetaInfo& m, const at::ShmDataChunkList& l, at::TraceContextId id) override
    {
        wrong_client = wrong_client || c != client;
        return Answer(Call{true, m, l.Chunks().size() == 1 ? std::optional<at::SharedMemoryChunk>{l.Chunks()[0]} : std::nullopt, std::nullopt, id});
    }
    at::TraceResult TraceLocal(at::TraceClientId c, const at::AraComMetaInfo& m, const at::LocalDataChunkList& l) override
    {
        wrong_client = wrong_client || c != client;
        return Answer(Call{false, m, std::nullopt, l.Chunks().size() == 1 ? std::optional<at::LocalDataChunk>{l.Chunks()[0]} : std::nullopt, 0});
    }
    std::function<void(const Call&)> traced;
};

struct Element
{
    bool field{false};
    std::string name;
    std::uint8_t id{0};
    tracing::ServiceElementTracingData data{};
    std::map<at::TraceContextId, std::shared_ptr<bool>> pending{};  // samples the library holds
};
struct Instance
{
    std::string type_name;
    std::uint16_t service_id, instance_id;
    std::uint32_t major, minor;
    std::string specifier;
    std::vector<Element> elements;
    // registration of the shared memory
    enum class Shm
    {
        kNone,
        kRegistered,
        kRetry,
        kGivenUp,
    } shm{Shm::kNone};
    int fd{-1};
    char* base{nullptr};
    at::ShmObjectHandle handle{};
    std::vector<char> memory{std::vector<char>(4096)};
};

/// the memory of the runtimes, wherever they keep their state
struct Allocations
{
    static constexpr std::size_t kMax{256};
    static inline bool on{false};
    static inline std::size_t n{0};
    static inline std::pair<void*, std::size_t> blocks[kMax]{};
};

struct Setup
{
    static constexpr std::uint64_t kSpareSlots{8};
    Library lib;
    at::TraceBackend* before{at::TraceBackend::Current()};
    std::vector<std::unique_ptr<Instance>> instances;
    std::unique_ptr<Configuration> config;
    std::unique_ptr<lola::tracing::TracingRuntime> binding;
    std::unique_ptr<tracing::TracingRuntime> runtime;
    std::uint64_t capacity{0};
    std::string app;

    explicit Setup(pbt::Src& src)
    {
        at::TraceBackend::Current() = &lib;
        Configuration::ServiceTypeDeployments td;
        Configuration::ServiceInstanceDeployments id;
        const auto n_types = 1 + src.Below(2);
        std::set<std::string> specs;
        unsigned n{0};
        for (std::uint64_t t = 0; t < n_types; ++t)
        {
            const std::string type_name = t == 0 ? "/svc" : "/svc1";
            const auto major = static_cast<std::uint32_t>(src.Below(3)), minor = static_cast<std::uint32_t>(src.Below(3));
            const auto ident = make_ServiceIdentifierType(type_name, major, minor);
            const auto service_id = static_cast<std::uint16_t>(src.Chance(1, 3) ? 65535U - t : 10U + t);
            const auto n_elements = 1 + src.Below(3);
            std::vector<Element> elements;
            LolaServiceTypeDeployment::EventIdMapping events;
            LolaServiceTypeDeployment::FieldIdMapping fields;
            for (std::uint64_t e = 0; e < n_elements; ++e)
            {
                Element el;
                el.field = src.Chance(1, 3);
                // an event and a field may bear the same name
                el.name = src.Chance(1, 2) ? std::string(1, static_cast<char>('a' + e)) : "same" + std::string(e == 2 ? "x" : "");
                el.id = static_cast<std::uint8_t>(1 + e + t * 7);
                if (el.field ? fields.count(el.name) != 0 : events.count(el.name) != 0)
                {
                    el.name += std::to_string(e);
                }
                (el.field ? fields[el.name] : events[el.name]) = el.id;
                elements.push_back(std::move(el));
            }
            td.emplace(ident, ServiceTypeDeployment{LolaServiceTypeDeployment{service_id, events, fields}});
            const auto n_instances = 1 + src.Below(2);
            for (std::uint64_t i = 0; i < n_instances; ++i)
            {
                auto in = std::make_unique<Instance>();
                in->type_name = type_name;
                in->service_id = service_id;
                in->instance_id = static_cast<std::uint16_t>(src.Chance(1, 3) ? 65535U - i : 1U + i);
                in->major = major;
                in->minor = minor;
                in->specifier = "v/i" + std::to_string(n++);
                for (auto& e : elements)
                {
                    Element c;
                    c.field = e.field;
                    c.name = e.name;
                    c.id = e.id;
                    in->elements.push_back(std::move(c));
                }
                auto spec = InstanceSpecifier::Create(std::string{in->specifier}).value();
                LolaServiceInstanceDeployment::EventInstanceMapping ev;
                id.emplace(spec, ServiceInstanceDeployment{ident, LolaServiceInstanceDeployment{LolaServiceInstanceId{in->instance_id}}, QualityType::kASIL_QM, spec});
                instances.push_back(std::move(in));
            }
        }
        TracingConfiguration tc;
        app = src.Chance(1, 2) ? "app" : std::string{"a longer name of the application"};
        tc.SetApplicationInstanceID(app);
        tc.SetTracingEnabled(true);
        config = std::make_unique<Configuration>(std::move(td), std::move(id), GlobalConfiguration{}, std::move(tc));
        std::vector<std::uint8_t> want;
        for (auto& i : instances)
        {
            for (auto& e : i->elements)
            {
                (void)e;
                want.push_back(static_cast<std::uint8_t>(src.Chance(1, 20) ? 200 + src.Below(56) : 1 + src.Below(3)));
                capacity += want.back();
            }
        }
        Allocations::n = 0;
        Allocations::on = true;
        binding = std::make_unique<lola::tracing::TracingRuntime>(static_cast<std::uint16_t>(capacity + kSpareSlots), *config);
        std::unordered_map<BindingType, tracing::IBindingTracingRuntime*> map{{BindingType::kLoLa, binding.get()}};
        runtime = std::make_unique<tracing::TracingRuntime>(std::move(map));
        Allocations::on = false;
        std::size_t k{0};
        for (auto& i : instances)
        {
            for (auto& e : i->elements)
            {
                e.data = runtime->RegisterServiceElement(BindingType::kLoLa, want[k++]);
            }
        }
    }
    ~Setup()
    {
        runtime.reset();
        lib.done.reset();
        binding.reset();
        at::TraceBackend::Current() = before;
    }
    void CheckSetup(pbt::Ctx& ctx)
    {
        PBT_CHECK(ctx, lib.app == app, "registered as '%s'", lib.app.c_str());
        PBT_CHECK(ctx, lib.done.has_value(), "no callback for finished traces was registered");
        std::set<std::uint64_t> slots;
        for (auto& i : instances)
        {
            for (auto& e : i->elements)
            {
                for (std::uint64_t s = 0; s < e.data.number_of_service_element_tracing_slots; ++s)
                {
                    PBT_CHECK(ctx, slots.insert(e.data.service_element_range_start + s).second, "slot %llu belongs to two elements", (unsigned long long)(e.data.service_element_range_start + s));
                }
            }
        }
        PBT_CHECK(ctx, slots.size() == capacity && *slots.rbegin() + 1 == capacity, "%zu slots are used of %llu", slots.size(), (unsigned long long)capacity);
    }
    static ServiceElementInstanceIdentifierView Name(const Instance& i, const Element& e)
    {
        return {{i.type_name, e.name, e.field ? ServiceElementType::FIELD : ServiceElementType::EVENT}, i.specifier};
    }
    static ServiceElementInstanceIdentifierView ShmName(const Instance& i)
    {
        return {{i.type_name, lola::tracing::TracingRuntime::kDummyElementNameForShmRegisterCallback, lola::tracing::TracingRuntime::kDummyElementTypeForShmRegisterCallback}, i.specifier};
    }
    static void CheckMeta(pbt::Ctx& ctx, const at::AraComMetaInfo& m, const Instance& i, const Element& e, TP type, std::optional<std::uint32_t> data_id)
    {
        const auto& p = m.Properties();
        PBT_CHECK(ctx, p.trace_point_type == type, "trace point %d reported as %d", static_cast<int>(type), static_cast<int>(p.trace_point_type));
        PBT_CHECK(ctx, p.data_id.has_value() == data_id.has_value() && (!data_id.has_value() || *p.data_id == *data_id), "wrong data id");
        const auto& el = p.element;
        PBT_CHECK(ctx, el.service_id == i.service_id && el.instance_id == i.instance_id && el.major_version == i.major && el.minor_version == i.minor, "%s traced as service %u instance %u version %u.%u",
                  i.specifier.c_str(), el.service_id, el.instance_id, el.major_version, el.minor_version);
        if (e.field)
        {
            const auto* f = std::get_if<at::ServiceInstanceElement::FieldId>(&el.element);
            PBT_CHECK(ctx, f != nullptr && f->id == e.id, "field %s traced as another element", e.name.c_str());
        }
        else
        {
            const auto* f = std::get_if<at::ServiceInstanceElement::EventId>(&el.element);
            PBT_CHECK(ctx, f != nullptr && f->id == e.id, "event %s traced as another element", e.name.c_str());
        }
    }
};

std::pair<tracing::TracingRuntime::TracePointType, TP> Point(pbt::Src& src, bool field, bool shm)
{
    using PE = tracing::ProxyEventTracePointType;
    using PF = tracing::ProxyFieldTracePointType;
    using SE = tracing::SkeletonEventTracePointType;
    using SF = tracing::SkeletonFieldTracePointType;
    static const std::vector<std::pair<PE, TP>> pe{{PE::SUBSCRIBE, TP::kProxyEventSub}, {PE::UNSUBSCRIBE, TP::kProxyEventUnsub}, {PE::SUBSCRIBE_STATE_CHANGE, TP::kProxyEventSubstateChange},
        {PE::SET_SUBSCRIPTION_STATE_CHANGE_HANDLER, TP::kProxyEventSetChghdl}, {PE::UNSET_SUBSCRIPTION_STATE_CHANGE_HANDLER, TP::kProxyEventUnsetChghdl},
        {PE::SUBSCRIPTION_STATE_CHANGE_HANDLER_CALLBACK, TP::kProxyEventChghdl}, {PE::SET_RECEIVE_HANDLER, TP::kProxyEventSetRechdl}, {PE::UNSET_RECEIVE_HANDLER, TP::kProxyEventUnsetRechdl},
        {PE::RECEIVE_HANDLER_CALLBACK, TP::kProxyEventRechdl}, {PE::GET_NEW_SAMPLES, TP::kProxyEventGetSamples}, {PE::GET_NEW_SAMPLES_CALLBACK, TP::kProxyEventSampleCb}};
    static const std::vector<std::pair<PF, TP>> pf{{PF::SUBSCRIBE, TP::kProxyFieldSub}, {PF::UNSUBSCRIBE, TP::kProxyFieldUnsub}, {PF::SUBSCRIBE_STATE_CHANGE, TP::kProxyFieldSubstateChange},
        {PF::SET_SUBSCRIPTION_STATE_CHANGE_HANDLER, TP::kProxyFieldSetChghdl}, {PF::UNSET_SUBSCRIPTION_STATE_CHANGE_HANDLER, TP::kProxyFieldUnsetChghdl},
        {PF::SUBSCRIPTION_STATE_CHANGE_HANDLER_CALLBACK, TP::kProxyFieldChghdl}, {PF::SET_RECEIVE_HANDLER, TP::kProxyFieldSetRechdl}, {PF::UNSET_RECEIVE_HANDLER, TP::kProxyFieldUnsetRechdl},
        {PF::RECEIVE_HANDLER_CALLBACK, TP::kProxyFieldRechdl}, {PF::GET_NEW_SAMPLES, TP::kProxyFieldGetSamples}, {PF::GET_NEW_SAMPLES_CALLBACK, TP::kProxyFieldSampleCb},
        {PF::GET, TP::kProxyFieldGet}, {PF::GET_RESULT, TP::kProxyFieldGetResult}, {PF::SET, TP::kProxyFieldSet}, {PF::SET_RESULT, TP::kProxyFieldSetResult}};
    static const std::vector<std::pair<SE, TP>> se{{SE::SEND, TP::kSkelEventSnd}, {SE::SEND_WITH_ALLOCATE, TP::kSkelEventSndA}};
    static const std::vector<std::pair<SF, TP>> sf{{SF::UPDATE, TP::kSkelFieldUpd}, {SF::UPDATE_WITH_ALLOCATE, TP::kSkelFieldUpdA}, {SF::GET_CALL, TP::kSkelFieldGetCall},
        {SF::GET_CALL_RESULT, TP::kSkelFieldGetCallResult}, {SF::SET_CALL, TP::kSkelFieldSetCall}, {SF::SET_CALL_RESULT, TP::kSkelFieldSetCallResult}};
    if (shm)
    {
        if (field)
        {
            const auto& p = sf[src.Below(2)];
            return {p.first, p.second};
        }
        const auto& p = src.Pick(se);
        return {p.first, p.second};
    }
    if (field)
    {
        if (src.Chance(1, 3))
        {
            const auto& p = src.Pick(sf);
            return {p.first, p.second};
        }
        const auto& p = src.Pick(pf);
        return {p.first, p.second};
    }
    const auto& p = src.Pick(pe);
    return {p.first, p.second};
}
constexpr auto kDisableAll = tracing::TraceErrorCode::TraceErrorDisableAllTracePoints;
constexpr auto kDisableInstance = tracing::TraceErrorCode::TraceErrorDisableTracePointInstance;
}  // namespace

// One thread: everything is predicted.
PBT_PROPERTY(tracing_histories, 200000, 6000000)
{
    Setup s{src};
    s.CheckSetup(ctx);
    bool enabled{true}, loss{false};
    const unsigned rough = src.PickOf<unsigned>({0, 10, 30});
    unsigned taken{0}, errors{0}, full{0};
    std::string story;
    const auto steps = 4 + src.Below(30);
    auto error_is = [&](const score::Result<void>& r, tracing::TraceErrorCode code) {
        return !r.has_value() && *r.error() == static_cast<score::result::ErrorCode>(code);
    };
    auto expect = [&](const score::Result<void>& r, Outcome o, const char* what) {
        switch (o)
        {
            case Outcome::kOk:
                PBT_CHECK(ctx, r.has_value(), "%s: a successful trace is reported as failed", what);
                loss = false;
                break;
            case Outcome::kRecoverable:
                ++errors;
                PBT_CHECK(ctx, r.has_value(), "%s: a recoverable error ends the tracing of the element", what);
                loss = true;
                break;
            case Outcome::kFatal:
                ++errors;
                PBT_CHECK(ctx, error_is(r, kDisableInstance), "%s: a fatal error does not end the tracing of the element", what);
                loss = true;
                break;
            case Outcome::kTerminal:
                ++errors;
                PBT_CHECK(ctx, error_is(r, kDisableAll), "%s: a terminal error does not end all tracing", what);
                enabled = false;
                break;
        }
    };
    for (std::uint64_t k = 0; k < steps; ++k)
    {
        auto& in = *s.instances[src.Below(s.instances.size())];
        auto& el = in.elements[src.Below(in.elements.size())];
        s.lib.which = src.Below(3);
        const auto regs = s.lib.registers, unregs = s.lib.unregisters;
        switch (src.Weighted({12, 4, 5, 4, 2, 2, 1}))
        {
            case 0:
            {
                // a sample in shared memory
                if (in.shm == Instance::Shm::kNone)
                {
                    break;
                }
                const auto [type, want] = Point(src, el.field, true);
                auto alive = std::make_shared<bool>(false);
                const auto offset = src.Below(4000), size = src.Below(96);
                const auto data_id = src.Int<std::uint32_t>();
                const auto o = Draw(src, rough);
                s.lib.next_trace[-1] = o;
                s.lib.next_register = Draw(src, rough);
                s.lib.last[-1].reset();
                const bool was_enabled = enabled;
                const auto before = in.shm;
                std::size_t seen{0};
                s.lib.traced = [&](const Library::Call&) { seen += *alive ? 1U : 0U; };
                const auto r = s.runtime->Trace(BindingType::kLoLa, el.data, Setup::Name(in, el), type, data_id, tracing::TypeErasedSamplePtr{Live{alive}}, in.memory.data() + offset, size);
                s.lib.traced = nullptr;
                story += "trace; ";
                if (!was_enabled)
                {
                    PBT_CHECK(ctx, error_is(r, kDisableAll) && !s.lib.last[-1] && !*alive, "traced although tracing is disabled");
                    break;
                }
                if (before == Instance::Shm::kRetry)
                {
                    if (s.lib.registers == regs)
                    {
                        // Known finding: the retry looks for the shared memory under the name of the element, it is kept under another one
                        ctx.Known("shared-memory-registration-not-retried");
                        PBT_CHECK(ctx, error_is(r, kDisableInstance) && !s.lib.last[-1] && !*alive, "without shared memory the trace is not refused");
                        break;
                    }
                    PBT_CHECK(ctx, s.lib.registers == regs + 1 && s.lib.fds.back() == in.fd, "the registration is repeated for another object");
                    if (s.lib.next_register == Outcome::kOk)
                    {
                        in.shm = Instance::Shm::kRegistered;
                        in.handle = s.lib.next_handle - 1;
                    }
                    else
                    {
                        in.shm = Instance::Shm::kGivenUp;
                        enabled = s.lib.next_register != Outcome::kTerminal;
                        PBT_CHECK(ctx, error_is(r, enabled ? kDisableInstance : kDisableAll) && !s.lib.last[-1] && !*alive, "without shared memory the trace is not refused");
                        break;
                    }
                }
                else
                {
                    PBT_CHECK(ctx, s.lib.registers == regs, "shared memory is registered again");
                }
                if (in.shm == Instance::Shm::kGivenUp)
                {
                    PBT_CHECK(ctx, error_is(r, kDisableInstance) && !s.lib.last[-1] && !*alive, "without shared memory the trace is not refused");
                    break;
                }
                if (el.pending.size() == el.data.number_of_service_element_tracing_slots)
                {
                    ++full;
                    PBT_CHECK(ctx, r.has_value() && !s.lib.last[-1] && !*alive, "a sample was traced although all slots are in use");
                    loss = true;
                    break;
                }
                PBT_CHECK(ctx, s.lib.last[-1].has_value(), "a sample was not traced although %zu of %u slots are in use", el.pending.size(), el.data.number_of_service_element_tracing_slots);
                const auto& c = *s.lib.last[-1];
                Setup::CheckMeta(ctx, c.meta, in, el, want, data_id);
                PBT_CHECK(ctx, c.meta.DataLoss() == loss, "data loss %s, expected %s", c.meta.DataLoss() ? "reported" : "not reported", loss ? "reported" : "not reported");
                PBT_CHECK(ctx, c.shm && c.chunk.has_value() && c.chunk->start_.shm_object_handle_ == in.handle && c.chunk->start_.offset_ == offset && c.chunk->size_ == size, "wrong place of the sample");
                PBT_CHECK(ctx, seen == 1, "the sample is not kept while it is traced");
                PBT_CHECK(ctx, c.id >= el.data.service_element_range_start && c.id < std::uint32_t{el.data.service_element_range_start} + el.data.number_of_service_element_tracing_slots,
                          "slot %u is not one of the element", c.id);
                PBT_CHECK(ctx, el.pending.count(c.id) == 0, "slot %u is used twice", c.id);
                expect(r, o, "sample");
                PBT_CHECK(ctx, *alive == (o == Outcome::kOk), "the sample is %s after the trace", *alive ? "kept" : "given up");
                if (o == Outcome::kOk)
                {
                    el.pending[c.id] = alive;
                    ++taken;
                }
                break;
            }
            case 1:
            {
                // data of the caller
                const auto [type, want] = Point(src, el.field, false);
                const char data[8]{};
                const auto size = src.Below(9);
                const auto data_id = src.Bool() ? std::optional<std::uint32_t>{src.Int<std::uint32_t>()} : std::nullopt;
                const auto o = Draw(src, rough);
                s.lib.next_trace[-1] = o;
                s.lib.last[-1].reset();
                const auto r = s.runtime->Trace(BindingType::kLoLa, Setup::Name(in, el), type, data_id, data, size);
                story += "local; ";
                if (!enabled)
                {
                    PBT_CHECK(ctx, error_is(r, kDisableAll) && !s.lib.last[-1], "traced although tracing is disabled");
                    break;
                }
                PBT_CHECK(ctx, s.lib.last[-1].has_value(), "not traced");
                const auto& c = *s.lib.last[-1];
                Setup::CheckMeta(ctx, c.meta, in, el, want, data_id);
                PBT_CHECK(ctx, c.meta.DataLoss() == loss, "data loss %s, expected %s", c.meta.DataLoss() ? "reported" : "not reported", loss ? "reported" : "not reported");
                PBT_CHECK(ctx, !c.shm && c.local.has_value() && c.local->start_ == data && c.local->size_ == size, "wrong data");
                expect(r, o, "data");
                break;
            }
            case 2:
            {
                // the library has done with a slot: one in use, or a late or doubled call
                const auto id = static_cast<at::TraceContextId>(el.data.service_element_range_start + src.Below(el.data.number_of_service_element_tracing_slots));
                story += "done; ";
                (*s.lib.done)(id);
                const auto it = el.pending.find(id);
                if (it != el.pending.end())
                {
                    PBT_CHECK(ctx, !*it->second, "a traced sample is not given back");
                    el.pending.erase(it);
                }
                break;
            }
            case 3:
            {
                // offered: the shared memory is registered
                if (in.shm != Instance::Shm::kNone)
                {
                    break;
                }
                in.fd = static_cast<int>(20 + k);
                s.lib.next_register = Draw(src, rough * 2);
                s.runtime->RegisterShmObject(BindingType::kLoLa, Setup::ShmName(in), in.fd, in.memory.data());
                story += "register; ";
                if (!enabled)
                {
                    PBT_CHECK(ctx, s.lib.registers == regs, "registered although tracing is disabled");
                    break;
                }
                PBT_CHECK(ctx, s.lib.registers == regs + 1 && s.lib.fds.back() == in.fd, "the shared memory is not registered");
                in.handle = s.lib.next_handle - 1;
                switch (s.lib.next_register)
                {
                    case Outcome::kOk:
                        in.shm = Instance::Shm::kRegistered;
                        break;
                    case Outcome::kRecoverable:
                        in.shm = Instance::Shm::kRetry;
                        break;
                    case Outcome::kTerminal:
                        enabled = false;
                        [[fallthrough]];
                    default:
                        in.shm = Instance::Shm::kGivenUp;
                        break;
                }
                break;
            }
            case 4:
            {
                // stopped: the shared memory goes away
                if (in.shm == Instance::Shm::kNone)
                {
                    break;
                }
                s.lib.next_unregister = Draw(src, rough);
                s.runtime->UnregisterShmObject(BindingType::kLoLa, Setup::ShmName(in));
                story += "unregister; ";
                PBT_CHECK(ctx, s.lib.unregisters == unregs + (enabled && in.shm == Instance::Shm::kRegistered ? 1 : 0), "shared memory is not unregistered exactly if it was registered");
                if (enabled)
                {
                    enabled = !(in.shm == Instance::Shm::kRegistered && s.lib.next_unregister == Outcome::kTerminal);
                    in.shm = Instance::Shm::kNone;
                }
                break;
            }
            case 5:
                // an element is no longer offered
                s.binding->ClearTypeErasedSamplePtrs(el.data);
                story += "clear; ";
                for (auto& [id, alive] : el.pending)
                {
                    PBT_CHECK(ctx, !*alive, "the sample in slot %u is not given back when the element is no longer offered", id);
                }
                el.pending.clear();
                break;
            default:
                if (src.Chance(1, 8))
                {
                    s.runtime->DisableTracing();
                    enabled = false;
                    story += "disable; ";
                }
                else
                {
                    s.runtime->SetDataLossFlag(BindingType::kLoLa);
                    loss = enabled || loss;
                }
                break;
        }
        PBT_CHECK(ctx, s.runtime->IsTracingEnabled() == enabled, "tracing is %s, expected %s", enabled ? "disabled" : "enabled", enabled ? "enabled" : "disabled");
        PBT_CHECK(ctx, !s.lib.wrong_client && !s.lib.wrong_handle, "wrong client or handle");
        for (auto& i : s.instances)
        {
            for (auto& e : i->elements)
            {
                for (auto& [id, alive] : e.pending)
                {
                    PBT_CHECK(ctx, *alive, "the sample in slot %u was given up while it is traced", id);
                }
            }
        }
    }
    if (taken > 1 && (errors > 0 || full > 0))
    {
        ctx.NonTrivial();
    }
    ctx.Label(full > 0 ? "slots ran out" : "slots left");
    if (errors > 0)
    {
        ctx.Label("errors of the library");
    }
    ctx.Note("%zu instances, %u traced, %u errors, %u without slot: %s", s.instances.size(), taken, errors, full, story.c_str());
}

// Senders of different elements, the library's callbacks and the end of offers at the same time.
PBT_PROPERTY(tracing_schedules, 100000, 3000000)
{
    Setup s{src};
    s.CheckSetup(ctx);
    struct Sample
    {
        std::shared_ptr<bool> alive{std::make_shared<bool>(false)};
        bool done_called{false};
    };
    std::vector<std::pair<Instance*, Element*>> all;
    // the last instance may come and go while the others are traced
    const bool moving = s.instances.size() > 1 && src.Chance(2, 3);
    for (auto& i : s.instances)
    {
        if (moving && i == s.instances.back())
        {
            break;
        }
        s.runtime->RegisterShmObject(BindingType::kLoLa, Setup::ShmName(*i), 3, i->memory.data());
        for (auto& e : i->elements)
        {
            all.emplace_back(i.get(), &e);
        }
    }
    const auto senders = std::min<std::size_t>(all.size(), 1 + src.Below(3));
    std::map<at::TraceContextId, std::shared_ptr<Sample>> held;  // by the library
    std::map<int, std::shared_ptr<Sample>> current;              // per task
    std::vector<std::shared_ptr<Sample>> every;
    std::map<std::size_t, unsigned> dones;                       // callbacks per element that began
    std::size_t refused{0}, taken{0}, freed{0};
    const unsigned rough = src.PickOf<unsigned>({0, 20});
    s.lib.traced = [&](const Library::Call& c) {
        auto& sample = current[sched::Current()];
        PBT_CHECK(ctx, *sample->alive, "the sample is not kept while it is traced");
        PBT_CHECK(ctx, held.count(c.id) == 0, "slot %u is used twice", c.id);
        // the callback may come before Trace returns; the library does not keep what it refuses
        if (s.lib.next_trace[sched::Current()] == Outcome::kOk)
        {
            held[c.id] = sample;
        }
    };
    std::vector<std::function<void()>> tasks;
    std::vector<std::vector<Outcome>> plans(senders);
    std::size_t running{senders};
    for (std::size_t t = 0; t < senders; ++t)
    {
        const auto n = 1 + src.Below(6);
        for (std::uint64_t k = 0; k < n; ++k)
        {
            plans[t].push_back(src.Chance(rough, 100) ? Outcome::kRecoverable : Outcome::kOk);
        }
        tasks.emplace_back([&, t] {
            auto& [in, el] = all[t];
            for (const auto o : plans[t])
            {
                auto sample = std::make_shared<Sample>();
                every.push_back(sample);
                const auto me = sched::Current();
                current[me] = sample;
                s.lib.next_trace[me] = o;
                s.lib.last[me].reset();
                auto in_use = [&, element = el] {
                    std::size_t n_used{0};
                    for (auto& [id, h] : held)
                    {
                        n_used += id >= element->data.service_element_range_start && id < std::uint32_t{element->data.service_element_range_start} + element->data.number_of_service_element_tracing_slots ? 1U : 0U;
                    }
                    return n_used;
                };
                const auto used = in_use();
                const auto ended = dones[t];
                const auto r = s.runtime->Trace(BindingType::kLoLa, el->data, Setup::Name(*in, *el), el->field ? tracing::TracingRuntime::TracePointType{tracing::SkeletonFieldTracePointType::UPDATE}
                                                                                                              : tracing::TracingRuntime::TracePointType{tracing::SkeletonEventTracePointType::SEND},
                                                1, tracing::TypeErasedSamplePtr{Live{sample->alive}}, in->memory.data(), 8);
                PBT_CHECK(ctx, r.has_value(), "a recoverable outcome is reported as an error");
                if (!s.lib.last[me].has_value())
                {
                    ++refused;
                    PBT_CHECK(ctx, !*sample->alive, "a sample that is not traced is kept");
                    // only the element's own sender takes slots; those in the middle of a callback still count
                    PBT_CHECK(ctx, used + (dones[t] - ended) + 1U >= el->data.number_of_service_element_tracing_slots || used >= el->data.number_of_service_element_tracing_slots,
                              "no slot although %zu of %u are in use", used, el->data.number_of_service_element_tracing_slots);
                }
                else if (o != Outcome::kOk)
                {
                    PBT_CHECK(ctx, !*sample->alive, "a sample whose trace failed is kept");
                }
                else
                {
                    ++taken;
                    PBT_CHECK(ctx, *sample->alive || sample->done_called, "a sample is given up while it is traced");
                }
            }
            --running;
        });
    }
    // the library's thread
    const auto dones_left = 1 + src.Below(14);
    tasks.emplace_back([&] {
        for (std::uint64_t k = 0; k < dones_left; ++k)
        {
            sched::Point();
            std::vector<at::TraceContextId> ids;
            for (auto& [id, h] : held)
            {
                if (!h->done_called)
                {
                    ids.push_back(id);
                }
            }
            if (ids.empty())
            {
                continue;
            }
            const auto id = ids[src.Below(ids.size())];
            auto sample = held[id];
            sample->done_called = true;
            for (std::size_t t = 0; t < senders; ++t)
            {
                const auto& d = all[t].second->data;
                dones[t] += id >= d.service_element_range_start && id < std::uint32_t{d.service_element_range_start} + d.number_of_service_element_tracing_slots ? 1U : 0U;
            }
            held.erase(id);
            (*s.lib.done)(id);
            PBT_CHECK(ctx, !*sample->alive, "a traced sample is not given back");
            ++freed;
        }
    });
    if (moving)
    {
        tasks.emplace_back([&, rounds = 1 + src.Below(3)] {
            auto& in = *s.instances.back();
            for (std::uint64_t k = 0; k < rounds; ++k)
            {
                sched::Point();
                s.runtime->RegisterShmObject(BindingType::kLoLa, Setup::ShmName(in), 9, in.memory.data());
                sched::Point();
                s.runtime->UnregisterShmObject(BindingType::kLoLa, Setup::ShmName(in));
            }
        });
    }
    // services are created meanwhile
    std::set<std::uint64_t> fresh;
    const auto creators = src.Chance(1, 2) ? src.Below(3) : 0;
    for (std::uint64_t c = 0; c < creators; ++c)
    {
        tasks.emplace_back([&, n = static_cast<std::uint8_t>(1 + src.Below(Setup::kSpareSlots / 2))] {
            sched::Point();
            const auto d = s.runtime->RegisterServiceElement(BindingType::kLoLa, n);
            PBT_CHECK(ctx, d.number_of_service_element_tracing_slots == n, "got %u slots instead of %u", d.number_of_service_element_tracing_slots, n);
            for (std::uint64_t k = 0; k < n; ++k)
            {
                const auto slot = d.service_element_range_start + k;
                PBT_CHECK(ctx, slot >= s.capacity && slot < s.capacity + Setup::kSpareSlots && fresh.insert(slot).second, "slot %llu belongs to two elements", (unsigned long long)slot);
            }
        });
    }
    for (std::size_t k = 0; k < Allocations::n; ++k)
    {
        sched::Watch(Allocations::blocks[k].first, Allocations::blocks[k].second, "tracing runtime");
    }
    const auto st = sched::Run(src, std::move(tasks));
    sched::ClearWatches();
    PBT_CHECK(ctx, !st.deadlock && !st.overrun, "no progress");
    PBT_CHECK(ctx, !s.lib.wrong_client && !s.lib.wrong_handle, "wrong client or handle");
    PBT_CHECK(ctx, st.race.empty(), "data race: %s", st.race.c_str());
    for (auto& [id, h] : held)
    {
        if (*h->alive)
        {
            (*s.lib.done)(id);
            PBT_CHECK(ctx, !*h->alive, "a traced sample is not given back");
        }
    }
    for (auto& e : every)
    {
        PBT_CHECK(ctx, !*e->alive, "a sample is never given back");
    }
    if (taken > 1 && st.preemptions > 0 && (freed > 0 || refused > 0))
    {
        ctx.NonTrivial();
    }
    ctx.Label(refused > 0 ? "slots ran out" : "slots left");
    ctx.Note("%zu senders, %zu traced, %zu given back meanwhile, %zu without slot", senders, taken, freed, refused);
}

void* operator new(std::size_t n)
{
    void* const p = std::malloc(n);
    if (p == nullptr)
    {
        throw std::bad_alloc{};
    }
    if (Allocations::on && Allocations::n < Allocations::kMax)
    {
        Allocations::blocks[Allocations::n++] = {p, n};
    }
    return p;
}
void operator delete(void* p) noexcept
{
    for (std::size_t k = 0; Allocations::on && k < Allocations::n; ++k)
    {
        if (Allocations::blocks[k].first == p)
        {
            Allocations::blocks[k] = Allocations::blocks[--Allocations::n];
        }
    }
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    operator delete(p);
}
