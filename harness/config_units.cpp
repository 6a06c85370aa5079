// Configuration: parsing against a model, rejection of corrupted documents, queries and merging, serialization,
// identifiers, orders, hashes and names of shared objects.
#include "pbt.h"
#include "death.h"

#include "score/json/json_parser.h"
#include "score/json/json_writer.h"
#include "score/mw/com/impl/bindings/lola/element_fq_id.h"
#include "score/mw/com/impl/bindings/lola/linear_search_map.h"
#include "score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/partial_restart_path_builder.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/known_instances_container.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/lola_service_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/shm_path_builder.h"
#include "score/mw/com/impl/bindings/lola/skeleton_instance_identifier.h"
#include "score/mw/com/impl/com_error.h"
#include "score/mw/com/impl/configuration/config_parser.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/configuration/configuration_error.h"
#include "score/mw/com/impl/enriched_instance_identifier.h"
#include "score/mw/com/impl/handle_type.h"
#include "score/mw/com/impl/instance_identifier.h"
#include "score/mw/com/impl/instance_specifier.h"
#include "score/mw/com/impl/tracing/configuration/service_element_identifier.h"
#include "score/mw/com/impl/tracing/configuration/service_element_instance_identifier_view.h"

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace score::mw::com::impl
{
/// friend of InstanceIdentifier: sets the configuration received identifiers are added to
class InstanceIdentifierAttorney
{
  public:
    static void SetConfiguration(Configuration* c)
    {
        InstanceIdentifier::SetConfiguration(c);
    }
};
}  // namespace score::mw::com::impl

using namespace score::mw::com::impl;

namespace
{
// ---------------------------------------------------------------------------------------------------- the model

struct MElement
{
    std::string name;
    std::uint16_t id{0};
};
struct MBinding
{
    std::uint16_t service_id{0};
    std::vector<MElement> elements[3];  // events, fields, methods
};
struct MType
{
    std::string name;
    std::uint32_t major{0}, minor{0};
    bool blank{false};
    MBinding binding;
};
struct MSlots
{
    std::string name;
    std::optional<std::uint16_t> slots;
    bool deprecated_key{false};
    std::optional<std::uint8_t> subscribers;
    std::optional<bool> enforce;
    std::optional<std::uint8_t> tracing;
    std::optional<bool> get, set;  // fields
};
struct MMethod
{
    std::string name;
    std::optional<std::uint8_t> queue;
    std::optional<bool> use;
};
struct MInstance
{
    std::string specifier;
    std::string type_name;
    std::uint32_t major{0}, minor{0};
    bool b{false};
    std::optional<std::uint16_t> instance_id;
    std::optional<std::uint64_t> sizes[3];
    std::optional<bool> inter_vm, forwarded;
    std::vector<MSlots> events, fields;
    std::vector<MMethod> methods;
    std::optional<bool> strict;
    // per allowedConsumer / allowedProvider: absent, or lists per quality
    struct Users
    {
        bool present{false};
        std::optional<std::vector<std::uint32_t>> qm, b;
    } users[2];
    bool has_events{true}, has_fields{true}, has_methods{true};
};
struct MGlobal
{
    bool present{false};
    std::optional<bool> b;
    std::optional<std::int32_t> queues[3];
    bool queue_present{false};
    std::optional<bool> analysis;
    std::optional<std::uint32_t> app;
};
struct MTracing
{
    bool present{false};
    std::optional<bool> enable;
    std::string app;
    std::optional<std::string> path;
};
struct MConfig
{
    std::vector<MType> types;
    std::vector<MInstance> instances;
    MGlobal global;
    MTracing tracing;
};

const std::vector<std::string> kNames{"a", "b", "event_0", "event_00", "Door/Open", "x y", "F", "speed", "sp", "\xC3\xA4", "0"};
const std::vector<std::string> kTypeNames{"/svc/A", "/svc/B", "svc", "/svc/AA", "T"};
const std::vector<std::string> kSpecs{"/abc", "abc/def", "x", "/abc/d", "A_1", "_", "/p/q/r", "abc"};

std::string NameOf(pbt::Src& src)
{
    return src.Chance(3, 4) ? src.Pick(kNames) : src.Str(6, "abcXYZ_09/ .-");
}

template <typename T>
std::optional<T> Maybe(pbt::Src& src)
{
    if (src.Chance(1, 2))
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            return src.Bool();
        }
        else
        {
            return src.Int<T>();
        }
    }
    return std::nullopt;
}

MType GenType(pbt::Src& src, std::set<std::string>& used)
{
    MType t;
    do
    {
        t.name = src.Pick(kTypeNames);
        t.major = static_cast<std::uint32_t>(src.Chance(1, 8) ? src.Int<std::uint32_t>() : src.Below(3));
        t.minor = static_cast<std::uint32_t>(src.Chance(1, 8) ? src.Int<std::uint32_t>() : src.Below(40));
    } while (!used.insert(t.name + "|" + std::to_string(t.major) + "|" + std::to_string(t.minor)).second);
    t.blank = src.Chance(1, 10);
    t.binding.service_id = src.Int<std::uint16_t>();
    std::set<std::uint16_t> ids;
    for (auto& list : t.binding.elements)
    {
        std::set<std::string> names;
        const auto n = src.Below(4);
        for (std::uint64_t i = 0; i < n; ++i)
        {
            MElement e;
            e.name = NameOf(src);
            if (!names.insert(e.name).second)
            {
                continue;
            }
            do
            {
                e.id = static_cast<std::uint16_t>(src.Chance(1, 4) ? src.Int<std::uint16_t>() : src.Below(60));
            } while (!ids.insert(e.id).second);
            list.push_back(e);
        }
    }
    return t;
}

MSlots GenSlots(pbt::Src& src, const std::string& name, bool field)
{
    MSlots s;
    s.name = name;
    s.slots = Maybe<std::uint16_t>(src);
    s.deprecated_key = !field && src.Chance(1, 4);
    s.subscribers = Maybe<std::uint8_t>(src);
    s.enforce = Maybe<bool>(src);
    if (src.Chance(1, 2))
    {
        s.tracing = static_cast<std::uint8_t>(src.Chance(1, 3) ? 0 : src.Int<std::uint8_t>());
    }
    if (field)
    {
        s.get = Maybe<bool>(src);
        s.set = Maybe<bool>(src);
    }
    return s;
}

MInstance GenInstance(pbt::Src& src, const std::vector<MType>& types, std::set<std::string>& used, bool references_types)
{
    MInstance m;
    unsigned tries{0};
    do
    {
        m.specifier = src.Pick(kSpecs);
        if (++tries > 4)
        {
            m.specifier += "/s" + std::to_string(used.size());
        }
    } while (!used.insert(m.specifier).second);
    const MType* type{nullptr};
    if (!types.empty() && (references_types || src.Chance(7, 8)))
    {
        type = &src.Pick(types);
        m.type_name = type->name;
        m.major = type->major;
        m.minor = type->minor;
        if (!references_types && src.Chance(1, 12))
        {
            m.minor += 1;
        }
    }
    else
    {
        m.type_name = src.Pick(kTypeNames);
        m.minor = static_cast<std::uint32_t>(src.Below(40));
    }
    m.b = src.Chance(1, 3);
    m.instance_id = Maybe<std::uint16_t>(src);
    for (auto& s : m.sizes)
    {
        s = Maybe<std::uint64_t>(src);
    }
    m.inter_vm = Maybe<bool>(src);
    if (m.inter_vm.value_or(false))
    {
        m.forwarded = Maybe<bool>(src);
    }
    else if (src.Chance(1, 4))
    {
        m.forwarded = false;
    }
    auto names = [&](int kind) {
        std::set<std::string> out;
        if (type != nullptr)
        {
            for (const auto& e : type->binding.elements[kind])
            {
                if (src.Chance(3, 4))
                {
                    out.insert(e.name);
                }
            }
        }
        if (src.Chance(1, references_types ? 40 : 12))
        {
            out.insert(NameOf(src));
        }
        return out;
    };
    for (const auto& n : names(0))
    {
        m.events.push_back(GenSlots(src, n, false));
    }
    for (const auto& n : names(1))
    {
        m.fields.push_back(GenSlots(src, n, true));
    }
    for (const auto& n : names(2))
    {
        m.methods.push_back(MMethod{n, Maybe<std::uint8_t>(src), Maybe<bool>(src)});
    }
    m.has_events = !m.events.empty() || src.Bool();
    m.has_fields = !m.fields.empty() || src.Bool();
    m.has_methods = !m.methods.empty() || src.Bool();
    m.strict = Maybe<bool>(src);
    for (auto& u : m.users)
    {
        u.present = src.Chance(2, 3);
        auto list = [&]() -> std::optional<std::vector<std::uint32_t>> {
            if (src.Chance(1, 3))
            {
                return std::nullopt;
            }
            std::vector<std::uint32_t> v;
            const auto n = src.Chance(1, 6) ? 0 : 1 + src.Below(3);
            for (std::uint64_t i = 0; i < n; ++i)
            {
                v.push_back(src.Chance(1, 4) ? src.Int<std::uint32_t>() : static_cast<std::uint32_t>(src.Below(6)));
            }
            return v;
        };
        if (u.present)
        {
            u.qm = list();
            u.b = list();
        }
    }
    return m;
}

MConfig GenConfig(pbt::Src& src, bool references_types)
{
    MConfig c;
    std::set<std::string> used_types, used_specs;
    const auto nt = src.Below(4);
    for (std::uint64_t i = 0; i < nt; ++i)
    {
        c.types.push_back(GenType(src, used_types));
    }
    const auto ni = src.Below(4);
    for (std::uint64_t i = 0; i < ni; ++i)
    {
        c.instances.push_back(GenInstance(src, c.types, used_specs, references_types));
    }
    c.global.present = src.Chance(3, 4);
    if (c.global.present)
    {
        c.global.b = Maybe<bool>(src);
        c.global.queue_present = src.Chance(2, 3);
        if (c.global.queue_present)
        {
            for (auto& q : c.global.queues)
            {
                q = Maybe<std::int32_t>(src);
            }
        }
        c.global.analysis = src.Chance(1, 3) ? std::optional<bool>(src.Bool()) : std::nullopt;
        c.global.app = Maybe<std::uint32_t>(src);
    }
    c.tracing.present = src.Chance(3, 4);
    if (c.tracing.present)
    {
        c.tracing.enable = src.Chance(3, 4) ? std::optional<bool>(!src.Chance(1, 3)) : std::nullopt;
        c.tracing.app = NameOf(src);
        if (src.Bool())
        {
            c.tracing.path = "./" + NameOf(src);
        }
    }
    return c;
}

// ------------------------------------------------------------------------------------------------ the document

/// A JSON value of the model's own making; printing it keeps the generated member order.
struct J
{
    enum Kind
    {
        kText,
        kObject,
        kList
    } kind{kText};
    std::string text;
    std::vector<std::pair<std::string, J>> members;
    std::vector<J> items;

    static J Raw(std::string t)
    {
        J j;
        j.text = std::move(t);
        return j;
    }
    static J Quoted(const std::string& s)
    {
        std::string t{"\""};
        for (const char c : s)
        {
            if (c == '"' || c == '\\')
            {
                t += '\\';
            }
            t += c;
        }
        return Raw(t + "\"");
    }
    static J Object()
    {
        J j;
        j.kind = kObject;
        return j;
    }
    static J List()
    {
        J j;
        j.kind = kList;
        return j;
    }
    template <typename T>
    static J Num(T v)
    {
        return Raw(std::to_string(v));
    }
    static J Flag(bool b)
    {
        return Raw(b ? "true" : "false");
    }
    J& Add(const std::string& k, J v)
    {
        members.emplace_back(k, std::move(v));
        return *this;
    }
    J* Find(const std::string& k)
    {
        for (auto& m : members)
        {
            if (m.first == k)
            {
                return &m.second;
            }
        }
        return nullptr;
    }
    void Drop(const std::string& k)
    {
        members.erase(std::remove_if(members.begin(), members.end(), [&](const auto& m) { return m.first == k; }), members.end());
    }
    std::string Print() const
    {
        if (kind == kText)
        {
            return text;
        }
        std::string out{kind == kObject ? "{" : "["};
        bool first{true};
        for (const auto& m : members)
        {
            out += (first ? "" : ",") + Quoted(m.first).text + ":" + m.second.Print();
            first = false;
        }
        for (const auto& i : items)
        {
            out += (first ? "" : ",") + i.Print();
            first = false;
        }
        return out + (kind == kObject ? "}" : "]");
    }
    void Walk(const std::function<void(J&)>& f)
    {
        f(*this);
        for (auto& m : members)
        {
            m.second.Walk(f);
        }
        for (auto& i : items)
        {
            i.Walk(f);
        }
    }
};

J Doc(const MType& t)
{
    static const char* const kLists[3]{"events", "fields", "methods"};
    static const char* const kName[3]{"eventName", "fieldName", "methodName"};
    static const char* const kId[3]{"eventId", "fieldId", "methodId"};
    J out = J::Object();
    out.Add("serviceTypeName", J::Quoted(t.name));
    J v = J::Object();
    v.Add("major", J::Num(t.major)).Add("minor", J::Num(t.minor));
    out.Add("version", v);
    J bindings = J::List();
    if (!t.blank)
    {
        J b = J::Object();
        b.Add("binding", J::Quoted("SHM")).Add("serviceId", J::Num(t.binding.service_id));
        for (int k = 0; k < 3; ++k)
        {
            J list = J::List();
            for (const auto& e : t.binding.elements[k])
            {
                J o = J::Object();
                o.Add(kName[k], J::Quoted(e.name)).Add(kId[k], J::Num(e.id));
                list.items.push_back(o);
            }
            if (!list.items.empty() || (t.binding.service_id % 2 == 0))
            {
                b.Add(kLists[k], list);
            }
        }
        bindings.items.push_back(b);
    }
    out.Add("bindings", bindings);
    return out;
}

J Doc(const MSlots& s, bool field)
{
    J o = J::Object();
    o.Add(field ? "fieldName" : "eventName", J::Quoted(s.name));
    if (s.slots)
    {
        o.Add(s.deprecated_key ? "maxSamples" : "numberOfSampleSlots", J::Num(*s.slots));
    }
    if (s.subscribers)
    {
        o.Add("maxSubscribers", J::Num(*s.subscribers));
    }
    if (s.enforce)
    {
        o.Add("enforceMaxSamples", J::Flag(*s.enforce));
    }
    if (s.tracing)
    {
        o.Add("numberOfIpcTracingSlots", J::Num(*s.tracing));
    }
    if (s.get)
    {
        o.Add("useGetIfAvailable", J::Flag(*s.get));
    }
    if (s.set)
    {
        o.Add("useSetIfAvailable", J::Flag(*s.set));
    }
    return o;
}

J Doc(const MInstance& m)
{
    J out = J::Object();
    out.Add("instanceSpecifier", J::Quoted(m.specifier)).Add("serviceTypeName", J::Quoted(m.type_name));
    J v = J::Object();
    v.Add("major", J::Num(m.major)).Add("minor", J::Num(m.minor));
    out.Add("version", v);
    J d = J::Object();
    d.Add("asil-level", J::Quoted(m.b ? "B" : "QM")).Add("binding", J::Quoted("SHM"));
    if (m.instance_id)
    {
        d.Add("instanceId", J::Num(*m.instance_id));
    }
    static const char* const kSizes[3]{"shm-size", "control-asil-b-shm-size", "control-qm-shm-size"};
    for (int i = 0; i < 3; ++i)
    {
        if (m.sizes[i])
        {
            d.Add(kSizes[i], J::Num(*m.sizes[i]));
        }
    }
    if (m.inter_vm)
    {
        d.Add("interVmSupport", J::Flag(*m.inter_vm));
    }
    if (m.forwarded)
    {
        d.Add("interVmForwarded", J::Flag(*m.forwarded));
    }
    J events = J::List(), fields = J::List(), methods = J::List();
    for (const auto& e : m.events)
    {
        events.items.push_back(Doc(e, false));
    }
    for (const auto& f : m.fields)
    {
        fields.items.push_back(Doc(f, true));
    }
    for (const auto& x : m.methods)
    {
        J o = J::Object();
        o.Add("methodName", J::Quoted(x.name));
        if (x.queue)
        {
            o.Add("queueSize", J::Num(*x.queue));
        }
        if (x.use)
        {
            o.Add("use", J::Flag(*x.use));
        }
        methods.items.push_back(o);
    }
    if (m.has_events)
    {
        d.Add("events", events);
    }
    if (m.has_fields)
    {
        d.Add("fields", fields);
    }
    if (m.has_methods)
    {
        d.Add("methods", methods);
    }
    if (m.strict)
    {
        d.Add("permission-checks", J::Quoted(*m.strict ? "strict" : "file-permissions-on-empty"));
    }
    static const char* const kUsers[2]{"allowedConsumer", "allowedProvider"};
    for (int i = 0; i < 2; ++i)
    {
        if (!m.users[i].present)
        {
            continue;
        }
        J u = J::Object();
        auto add = [&](const char* q, const std::optional<std::vector<std::uint32_t>>& list) {
            if (list)
            {
                J l = J::List();
                for (auto id : *list)
                {
                    l.items.push_back(J::Num(id));
                }
                u.Add(q, l);
            }
        };
        add("QM", m.users[i].qm);
        add("B", m.users[i].b);
        d.Add(kUsers[i], u);
    }
    J list = J::List();
    list.items.push_back(d);
    out.Add("instances", list);
    return out;
}

J Doc(const MConfig& c)
{
    J out = J::Object();
    J types = J::List(), instances = J::List();
    for (const auto& t : c.types)
    {
        types.items.push_back(Doc(t));
    }
    for (const auto& i : c.instances)
    {
        instances.items.push_back(Doc(i));
    }
    out.Add("serviceTypes", types).Add("serviceInstances", instances);
    if (c.global.present)
    {
        J g = J::Object();
        if (c.global.b)
        {
            g.Add("asil-level", J::Quoted(*c.global.b ? "B" : "QM"));
        }
        if (c.global.queue_present)
        {
            static const char* const kQ[3]{"QM-receiver", "B-receiver", "B-sender"};
            J q = J::Object();
            for (int i = 0; i < 3; ++i)
            {
                if (c.global.queues[i])
                {
                    q.Add(kQ[i], J::Num(*c.global.queues[i]));
                }
            }
            g.Add("queue-size", q);
        }
        if (c.global.analysis)
        {
            g.Add("shm-size-calc-mode", J::Quoted(*c.global.analysis ? "ANALYSIS" : "SIMULATION"));
        }
        if (c.global.app)
        {
            g.Add("applicationID", J::Num(*c.global.app));
        }
        out.Add("global", g);
    }
    if (c.tracing.present)
    {
        J t = J::Object();
        if (c.tracing.enable)
        {
            t.Add("enable", J::Flag(*c.tracing.enable));
        }
        t.Add("applicationInstanceID", J::Quoted(c.tracing.app));
        if (c.tracing.path)
        {
            t.Add("traceFilterConfigPath", J::Quoted(*c.tracing.path));
        }
        out.Add("tracing", t);
    }
    return out;
}

Configuration ParseText(const std::string& text)
{
    const score::json::JsonParser parser{};
    auto any = parser.FromBuffer(text);
    if (!any.has_value())
    {
        std::fprintf(stderr, "harness: the document is not JSON: %s\n", text.c_str());
        std::exit(99);
    }
    return configuration::Parse(std::move(any).value());
}

// ------------------------------------------------------------------------------------------- expected deployments

ServiceIdentifierType Ident(const MType& t)
{
    return make_ServiceIdentifierType(std::string{t.name}, t.major, t.minor);
}
ServiceIdentifierType Ident(const MInstance& m)
{
    return make_ServiceIdentifierType(std::string{m.type_name}, m.major, m.minor);
}
InstanceSpecifier Spec(const std::string& s)
{
    return InstanceSpecifier::Create(std::string{s}).value();
}
LolaServiceTypeDeployment TypeOf(const MBinding& b)
{
    LolaServiceTypeDeployment d{b.service_id};
    for (const auto& e : b.elements[0])
    {
        d.events_.emplace(e.name, e.id);
    }
    for (const auto& e : b.elements[1])
    {
        d.fields_.emplace(e.name, e.id);
    }
    for (const auto& e : b.elements[2])
    {
        d.methods_.emplace(e.name, e.id);
    }
    return d;
}
LolaEventInstanceDeployment SlotsOf(const MSlots& s)
{
    return LolaEventInstanceDeployment{s.slots, s.subscribers, std::uint8_t{1}, s.enforce.value_or(true), s.tracing.value_or(0)};
}
LolaServiceInstanceDeployment InstanceOf(const MInstance& m)
{
    LolaServiceInstanceDeployment d{};
    if (m.instance_id)
    {
        d.instance_id_ = LolaServiceInstanceId{*m.instance_id};
    }
    d.shared_memory_size_ = m.sizes[0];
    d.control_asil_b_memory_size_ = m.sizes[1];
    d.control_qm_memory_size_ = m.sizes[2];
    for (const auto& e : m.events)
    {
        d.events_.emplace(e.name, SlotsOf(e));
    }
    for (const auto& f : m.fields)
    {
        d.fields_.emplace(f.name, LolaFieldInstanceDeployment{SlotsOf(f), f.get.value_or(true), f.set.value_or(true)});
    }
    for (const auto& x : m.methods)
    {
        d.methods_.emplace(x.name, LolaMethodInstanceDeployment{x.queue, x.use.value_or(true)});
    }
    d.strict_permissions_ = m.strict.value_or(false);
    auto users = [](const MInstance::Users& u) {
        std::unordered_map<QualityType, std::vector<uid_t>> out;
        if (u.qm)
        {
            out[QualityType::kASIL_QM] = *u.qm;
        }
        if (u.b)
        {
            out[QualityType::kASIL_B] = *u.b;
        }
        return out;
    };
    d.allowed_consumer_ = users(m.users[0]);
    d.allowed_provider_ = users(m.users[1]);
    d.inter_vm_support_ = m.inter_vm.value_or(false);
    d.inter_vm_forwarded_ = m.forwarded.value_or(false);
    return d;
}
QualityType Asil(bool b)
{
    return b ? QualityType::kASIL_B : QualityType::kASIL_QM;
}

/// Field by field, independent of the comparison operators under test.
std::string Difference(const LolaEventInstanceDeployment& a, const LolaEventInstanceDeployment& b)
{
    if (a.max_subscribers_ != b.max_subscribers_)
    {
        return "maxSubscribers";
    }
    if (a.max_concurrent_allocations_ != b.max_concurrent_allocations_)
    {
        return "maxConcurrentAllocations";
    }
    if (a.enforce_max_samples_ != b.enforce_max_samples_)
    {
        return "enforceMaxSamples";
    }
    if (a.GetNumberOfSampleSlotsExcludingTracingSlot() != b.GetNumberOfSampleSlotsExcludingTracingSlot())
    {
        return "numberOfSampleSlots";
    }
    if (a.GetNumberOfTracingSlots() != b.GetNumberOfTracingSlots())
    {
        return "numberOfIpcTracingSlots";
    }
    return {};
}
std::string Difference(const LolaFieldInstanceDeployment& a, const LolaFieldInstanceDeployment& b)
{
    if (a.use_get_if_available_ != b.use_get_if_available_)
    {
        return "useGetIfAvailable";
    }
    if (a.use_set_if_available_ != b.use_set_if_available_)
    {
        return "useSetIfAvailable";
    }
    return Difference(a.lola_event_instance_deployment_, b.lola_event_instance_deployment_);
}
std::string Difference(const LolaMethodInstanceDeployment& a, const LolaMethodInstanceDeployment& b)
{
    return a.queue_size_ != b.queue_size_ ? "queueSize" : a.enabled_ != b.enabled_ ? "use" : "";
}
template <typename M>
std::string MapDifference(const M& a, const M& b, const char* what)
{
    if (a.size() != b.size())
    {
        return std::string{"number of "} + what;
    }
    for (const auto& [k, v] : a)
    {
        const auto it = b.find(k);
        if (it == b.end())
        {
            return std::string{what} + " name " + k;
        }
        if constexpr (std::is_integral_v<typename M::mapped_type>)
        {
            if (it->second != v)
            {
                return std::string{what} + " id of " + k;
            }
        }
        else
        {
            const auto d = Difference(v, it->second);
            if (!d.empty())
            {
                return std::string{what} + " " + k + ": " + d;
            }
        }
    }
    return {};
}
std::string Difference(const LolaServiceInstanceDeployment& a, const LolaServiceInstanceDeployment& b)
{
    if (a.instance_id_.has_value() != b.instance_id_.has_value() || (a.instance_id_ && a.instance_id_->GetId() != b.instance_id_->GetId()))
    {
        return "instanceId";
    }
    if (a.shared_memory_size_ != b.shared_memory_size_)
    {
        return "shm-size";
    }
    if (a.control_asil_b_memory_size_ != b.control_asil_b_memory_size_)
    {
        return "control-asil-b-shm-size";
    }
    if (a.control_qm_memory_size_ != b.control_qm_memory_size_)
    {
        return "control-qm-shm-size";
    }
    if (a.strict_permissions_ != b.strict_permissions_)
    {
        return "permission-checks";
    }
    if (a.allowed_consumer_ != b.allowed_consumer_)
    {
        return "allowedConsumer";
    }
    if (a.allowed_provider_ != b.allowed_provider_)
    {
        return "allowedProvider";
    }
    if (a.inter_vm_support_ != b.inter_vm_support_ || a.inter_vm_forwarded_ != b.inter_vm_forwarded_)
    {
        return "inter-VM flags";
    }
    auto d = MapDifference(a.events_, b.events_, "event");
    if (d.empty())
    {
        d = MapDifference(a.fields_, b.fields_, "field");
    }
    if (d.empty())
    {
        d = MapDifference(a.methods_, b.methods_, "method");
    }
    return d;
}
std::string Difference(const LolaServiceTypeDeployment& a, const LolaServiceTypeDeployment& b)
{
    if (a.service_id_ != b.service_id_)
    {
        return "serviceId";
    }
    auto d = MapDifference(a.events_, b.events_, "event");
    if (d.empty())
    {
        d = MapDifference(a.fields_, b.fields_, "field");
    }
    if (d.empty())
    {
        d = MapDifference(a.methods_, b.methods_, "method");
    }
    return d;
}

/// everything a configuration answers about service types and instances, against the lists of the model
void CompareServices(pbt::Ctx& ctx, const Configuration& c, const std::vector<MType>& types, const std::vector<MInstance>& instances, const std::string& when)
{
    PBT_CHECK(ctx, c.GetNumberOfServiceTypes() == types.size() && c.IsServiceTypesEmpty() == types.empty(), "%s: %zu service types, expected %zu", when.c_str(), c.GetNumberOfServiceTypes(), types.size());
    PBT_CHECK(ctx, c.GetNumberOfServiceInstances() == instances.size() && c.IsServiceInstancesEmpty() == instances.empty(), "%s: %zu instances, expected %zu", when.c_str(), c.GetNumberOfServiceInstances(), instances.size());
    std::set<std::string> names;
    std::map<std::string, std::set<std::string>> elements[2];
    bool any_lola{false};
    for (const auto& t : types)
    {
        names.insert(t.name);
        any_lola = any_lola || !t.blank;
        const auto found = c.GetServiceTypeDeployment(Ident(t));
        PBT_CHECK(ctx, found.has_value(), "%s: service type %s %u.%u is not found", when.c_str(), t.name.c_str(), t.major, t.minor);
        const auto& d = found->get();
        PBT_CHECK(ctx, std::holds_alternative<LolaServiceTypeDeployment>(d.binding_info_) == !t.blank, "%s: binding kind of %s", when.c_str(), t.name.c_str());
        if (!t.blank)
        {
            const auto diff = Difference(std::get<LolaServiceTypeDeployment>(d.binding_info_), TypeOf(t.binding));
            PBT_CHECK(ctx, diff.empty(), "%s: service type %s %u.%u differs in %s", when.c_str(), t.name.c_str(), t.major, t.minor, diff.c_str());
            for (int k = 0; k < 2; ++k)
            {
                for (const auto& e : t.binding.elements[k])
                {
                    elements[k][t.name].insert(e.name);
                }
            }
        }
    }
    std::set<std::string> got;
    for (const auto n : c.GetServiceTypeNames())
    {
        got.insert(std::string{n});
    }
    PBT_CHECK(ctx, got == names, "%s: service type names", when.c_str());
    const auto has = c.HasLolaServiceDeployment();
    PBT_CHECK(ctx, has.has_value() && has.value() == any_lola, "%s: HasLolaServiceDeployment", when.c_str());
    for (const auto& n : kTypeNames)
    {
        for (int k = 0; k < 2; ++k)
        {
            std::set<std::string> e;
            for (const auto x : c.GetElementNamesOfServiceType(n, k == 0 ? ServiceElementType::EVENT : ServiceElementType::FIELD))
            {
                e.insert(std::string{x});
            }
            PBT_CHECK(ctx, e == elements[k][n], "%s: %s names of service type %s: %zu, expected %zu", when.c_str(), k == 0 ? "event" : "field", n.c_str(), e.size(), elements[k][n].size());
        }
        std::set<std::string> si, want;
        for (const auto x : c.GetInstancesOfServiceType(n))
        {
            si.insert(std::string{x});
        }
        for (const auto& m : instances)
        {
            if (m.type_name == n)
            {
                want.insert(m.specifier);
            }
        }
        PBT_CHECK(ctx, si == want, "%s: instances of service type %s", when.c_str(), n.c_str());
    }
    for (const auto& m : instances)
    {
        const auto found = c.GetServiceInstanceDeployment(Spec(m.specifier));
        PBT_CHECK(ctx, found.has_value(), "%s: instance %s is not found", when.c_str(), m.specifier.c_str());
        const auto& d = found->get();
        PBT_CHECK(ctx, d.service_.ToString() == m.type_name && d.service_ == Ident(m), "%s: service type of %s", when.c_str(), m.specifier.c_str());
        PBT_CHECK(ctx, d.asilLevel_ == Asil(m.b), "%s: ASIL level of %s", when.c_str(), m.specifier.c_str());
        PBT_CHECK(ctx, d.instance_specifier_ == Spec(m.specifier), "%s: specifier of %s", when.c_str(), m.specifier.c_str());
        PBT_CHECK(ctx, d.GetBindingType() == BindingType::kLoLa, "%s: binding type of %s", when.c_str(), m.specifier.c_str());
        const auto diff = Difference(std::get<LolaServiceInstanceDeployment>(d.bindingInfo_), InstanceOf(m));
        PBT_CHECK(ctx, diff.empty(), "%s: instance %s differs in %s", when.c_str(), m.specifier.c_str(), diff.c_str());
        for (const auto& e : m.events)
        {
            const auto& ed = GetServiceElementInstanceDeployment<ServiceElementType::EVENT>(std::get<LolaServiceInstanceDeployment>(d.bindingInfo_), e.name);
            const std::uint32_t total = static_cast<std::uint32_t>(e.slots.value_or(0)) + e.tracing.value_or(0);
            if (!e.slots || total <= 0xFFFFU)
            {
                const auto n = ed.GetNumberOfSampleSlots();
                PBT_CHECK(ctx, n.has_value() == e.slots.has_value() && (!n || *n == total), "%s: sample slots of %s with tracing", when.c_str(), e.name.c_str());
            }
        }
    }
    // names that are not configured are not found
    for (const auto& s : kSpecs)
    {
        bool in{false};
        for (const auto& m : instances)
        {
            in = in || m.specifier == s;
        }
        PBT_CHECK(ctx, c.GetServiceInstanceDeployment(Spec(s)).has_value() == in, "%s: lookup of specifier %s", when.c_str(), s.c_str());
    }
    for (const auto& t : types)
    {
        bool next{false};
        for (const auto& o : types)
        {
            next = next || (o.name == t.name && o.major == t.major && o.minor == t.minor + 1U);
        }
        PBT_CHECK(ctx, c.GetServiceTypeDeployment(make_ServiceIdentifierType(std::string{t.name}, t.major, t.minor + 1U)).has_value() == next, "%s: lookup of the next minor version of %s", when.c_str(), t.name.c_str());
    }
}

/// the first failing check in the order of the rules, as the set of admissible errors (instances are unordered)
void CompareValidation(pbt::Ctx& ctx, const Configuration& c, const std::vector<MType>& types, const std::vector<MInstance>& instances, bool process_b)
{
    std::set<int> asil, refs;
    for (const auto& m : instances)
    {
        if (m.b && !process_b)
        {
            asil.insert(static_cast<int>(configuration_errc::configuration_invalid_asil_configuration));
        }
        const MType* t{nullptr};
        for (const auto& x : types)
        {
            if (x.name == m.type_name && x.major == m.major && x.minor == m.minor)
            {
                t = &x;
            }
        }
        auto in = [&](int kind, const std::string& n) {
            for (const auto& e : t->binding.elements[kind])
            {
                if (e.name == n)
                {
                    return true;
                }
            }
            return false;
        };
        if (t == nullptr)
        {
            refs.insert(static_cast<int>(configuration_errc::configuration_invalid_type_reference_from_instance));
            continue;
        }
        if (t->blank)
        {
            refs.insert(static_cast<int>(configuration_errc::configuration_unsupported_type_binding));
            continue;
        }
        bool bad{false};
        for (const auto& e : m.events)
        {
            bad = bad || !in(0, e.name);
        }
        if (bad)
        {
            refs.insert(static_cast<int>(configuration_errc::configuration_invalid_event_reference_from_instance));
            continue;
        }
        for (const auto& f : m.fields)
        {
            bad = bad || !in(1, f.name);
        }
        if (bad)
        {
            refs.insert(static_cast<int>(configuration_errc::configuration_invalid_field_reference_from_instance));
        }
    }
    const auto& want = asil.empty() ? refs : asil;
    const auto result = c.Validate();
    PBT_CHECK(ctx, result.has_value() == want.empty(), "Validate %s, expected %s", result.has_value() ? "accepts" : "rejects", want.empty() ? "acceptance" : "rejection");
    if (!result.has_value())
    {
        bool named{false};
        for (const auto e : want)
        {
            named = named || result.error() == static_cast<configuration_errc>(e);
        }
        PBT_CHECK(ctx, named, "Validate rejects with an error that does not apply");
        ctx.Label("rejected by Validate");
    }
}

void CompareUsers(pbt::Ctx& ctx, const Configuration& c, const std::vector<MInstance>& instances)
{
    for (const bool b : {false, true})
    {
        std::set<uid_t> want;
        bool open{false};
        for (const auto& m : instances)
        {
            for (const auto& u : m.users)
            {
                const auto& list = b ? u.b : u.qm;
                if (list && list->empty())
                {
                    open = true;
                }
                else if (list)
                {
                    want.insert(list->begin(), list->end());
                }
            }
        }
        if (open)
        {
            want.clear();
        }
        PBT_CHECK(ctx, c.GetAggregatedAllowedUsers(Asil(b)) == want, "aggregated allowed users of %s: %zu, expected %zu", b ? "B" : "QM", c.GetAggregatedAllowedUsers(Asil(b)).size(), want.size());
    }
}

/// unknown members, any member order and white space do not matter
void Decorate(pbt::Src& src, J& doc)
{
    doc.Walk([&](J& j) {
        if (j.kind == J::kObject)
        {
            if (src.Chance(1, 12))
            {
                j.Add("x-" + std::to_string(src.Below(100)), src.Bool() ? J::Flag(true) : J::Quoted("ignored"));
            }
            if (src.Chance(1, 6) && j.members.size() > 1)
            {
                const auto a = src.Below(j.members.size());
                std::swap(j.members[a], j.members[0]);
            }
        }
    });
}

}  // namespace

PBT_PROPERTY(config_parsing, 200000, 6000000)
{
    const auto m = GenConfig(src, src.Bool());
    auto doc = Doc(m);
    // undecorated members of "allowedConsumer" are quality types and may not be extended
    std::vector<J*> skip;
    if (src.Chance(1, 2))
    {
        Decorate(src, doc);
        doc.Walk([&](J& j) {
            for (const char* k : {"allowedConsumer", "allowedProvider"})
            {
                if (auto* u = j.Find(k))
                {
                    u->members.erase(std::remove_if(u->members.begin(), u->members.end(), [](const auto& x) { return x.first.rfind("x-", 0) == 0; }), u->members.end());
                }
            }
        });
    }
    const auto c = ParseText(doc.Print());
    CompareServices(ctx, c, m.types, m.instances, "parsed");
    CompareUsers(ctx, c, m.instances);
    const bool process_b = m.global.b.value_or(false);
    const auto& g = c.GetGlobalConfiguration();
    PBT_CHECK(ctx, g.GetProcessAsilLevel() == Asil(process_b), "process ASIL level");
    PBT_CHECK(ctx, g.GetReceiverMessageQueueSize(QualityType::kASIL_QM) == m.global.queues[0].value_or(10), "QM receiver queue %d", g.GetReceiverMessageQueueSize(QualityType::kASIL_QM));
    PBT_CHECK(ctx, g.GetReceiverMessageQueueSize(QualityType::kASIL_B) == m.global.queues[1].value_or(10), "B receiver queue %d", g.GetReceiverMessageQueueSize(QualityType::kASIL_B));
    PBT_CHECK(ctx, g.GetSenderMessageQueueSize() == m.global.queues[2].value_or(20), "B sender queue %d", g.GetSenderMessageQueueSize());
    PBT_CHECK(ctx, g.GetShmSizeCalcMode() == (m.global.analysis.value_or(false) ? ShmSizeCalculationMode::kAnalysis : ShmSizeCalculationMode::kSimulation), "size calculation mode");
    PBT_CHECK(ctx, g.GetApplicationId() == m.global.app, "application id");
    const auto& t = c.GetTracingConfiguration();
    const bool tracing = m.tracing.present && m.tracing.enable.value_or(false);
    PBT_CHECK(ctx, t.IsTracingEnabled() == tracing, "tracing is %s", t.IsTracingEnabled() ? "on" : "off");
    if (m.tracing.present)
    {
        PBT_CHECK(ctx, t.GetApplicationInstanceID() == m.tracing.app, "tracing application instance id");
        PBT_CHECK(ctx, t.GetTracingFilterConfigPath() == m.tracing.path.value_or("./etc/mw_com_trace_filter.json"), "trace filter path");
    }
    for (const auto& i : m.instances)
    {
        for (int k = 0; k < 2; ++k)
        {
            for (const auto& e : k == 0 ? i.events : i.fields)
            {
                const auto kind = k == 0 ? ServiceElementType::EVENT : ServiceElementType::FIELD;
                const auto other = k == 0 ? ServiceElementType::FIELD : ServiceElementType::EVENT;
                auto enabled_by_any = [&](ServiceElementType type) {
                    for (const auto& x : type == ServiceElementType::EVENT ? i.events : i.fields)
                    {
                        if (x.name == e.name && x.tracing.value_or(0) > 0)
                        {
                            return tracing;
                        }
                    }
                    return false;
                };
                for (const auto type : {kind, other})
                {
                    PBT_CHECK(ctx, t.IsServiceElementTracingEnabled(tracing::ServiceElementIdentifierView{i.type_name, e.name, type}, i.specifier) == enabled_by_any(type),
                              "tracing of %s in %s", e.name.c_str(), i.specifier.c_str());
                }
                for (const auto& o : m.instances)
                {
                    if (o.specifier != i.specifier && o.type_name != i.type_name)
                    {
                        PBT_CHECK(ctx, !t.IsServiceElementTracingEnabled(tracing::ServiceElementIdentifierView{i.type_name, e.name, kind}, o.specifier), "tracing of %s for the specifier of another instance", e.name.c_str());
                    }
                }
            }
        }
    }
    CompareValidation(ctx, c, m.types, m.instances, process_b);
    if (!m.types.empty() && !m.instances.empty() && (!m.instances[0].events.empty() || !m.instances[0].fields.empty()))
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu types, %zu instances: %.200s", m.types.size(), m.instances.size(), doc.Print().c_str());
}

// -------------------------------------------------------------------------------------------------- corrupted documents

namespace
{
/// Applies one change after which the document must not be accepted; false if it does not apply to the document.
bool Corrupt(pbt::Src& src, J& doc, std::string& what)
{
    auto* types = doc.Find("serviceTypes");
    auto* instances = doc.Find("serviceInstances");
    std::vector<J*> ts, is, bindings, deployments, elements, slots, method_slots;
    for (auto& t : types->items)
    {
        ts.push_back(&t);
        for (auto& b : t.Find("bindings")->items)
        {
            bindings.push_back(&b);
            for (const char* k : {"events", "fields", "methods"})
            {
                if (auto* l = b.Find(k))
                {
                    for (auto& e : l->items)
                    {
                        elements.push_back(&e);
                    }
                }
            }
        }
    }
    for (auto& i : instances->items)
    {
        is.push_back(&i);
        auto& d = i.Find("instances")->items[0];
        deployments.push_back(&d);
        for (const char* k : {"events", "fields"})
        {
            if (auto* l = d.Find(k))
            {
                for (auto& e : l->items)
                {
                    slots.push_back(&e);
                }
            }
        }
        if (auto* l = d.Find("methods"))
        {
            for (auto& e : l->items)
            {
                method_slots.push_back(&e);
            }
        }
    }
    auto pick = [&](std::vector<J*>& v) -> J* {
        return v.empty() ? nullptr : v[src.Below(v.size())];
    };
    auto set = [&](J* j, const std::string& k, J v) {
        j->Drop(k);
        j->Add(k, std::move(v));
        what = k + " := " + j->Find(k)->Print();
        return true;
    };
    auto drop = [&](J* j, const std::string& k) {
        if (j->Find(k) == nullptr)
        {
            return false;
        }
        j->Drop(k);
        what = "no " + k;
        return true;
    };
    // a number that does not fit into BITS, or no number at all
    auto too_big = [&](unsigned bits, bool is_signed = false) {
        switch (src.Below(5))
        {
            case 0:
                return J::Quoted("7");
            case 1:
                return J::Flag(true);
            case 2:
                return is_signed ? J::Raw("-2147483649") : J::Raw("-1");
            case 3:
                return J::List();
            default:
                return bits == 64 ? J::Raw("{}") : J::Raw(std::to_string((is_signed ? (1ULL << (bits - 1U)) : (1ULL << bits)) + src.Below(1000)));
        }
    };
    auto not_string = [&]() {
        return src.Bool() ? J::Raw("7") : J::Object();
    };
    auto not_bool = [&]() {
        return src.Bool() ? J::Quoted("true") : J::List();
    };
    auto not_list = [&]() {
        return src.Bool() ? J::Quoted("x") : J::Raw("3");
    };
    switch (src.Below(32))
    {
        case 0:
            return drop(&doc, src.Bool() ? "serviceTypes" : "serviceInstances");
        case 1:
            return set(&doc, src.PickOf<std::string>({"serviceTypes", "serviceInstances", "global", "tracing"}), not_list());
        case 2:
            if (auto* t = pick(src.Bool() ? ts : is))
            {
                return drop(t, src.Bool() ? "serviceTypeName" : "version");
            }
            return false;
        case 3:
            if (auto* t = pick(src.Bool() ? ts : is))
            {
                auto* v = t->Find("version");
                return src.Bool() ? drop(v, src.Bool() ? "major" : "minor") : set(v, src.Bool() ? "major" : "minor", too_big(32));
            }
            return false;
        case 4:
            if (auto* t = pick(src.Bool() ? ts : is))
            {
                return set(t, "serviceTypeName", not_string());
            }
            return false;
        case 5:
            if (auto* t = pick(ts))
            {
                return src.Bool() ? drop(t, "bindings") : set(t, "bindings", not_list());
            }
            return false;
        case 6:
            if (auto* b = pick(bindings))
            {
                return src.Bool() ? drop(b, src.Bool() ? "binding" : "serviceId") : set(b, "binding", src.Bool() ? J::Quoted("SOME/IP") : not_string());
            }
            return false;
        case 7:
            if (auto* b = pick(bindings))
            {
                return set(b, "serviceId", too_big(16));
            }
            return false;
        case 8:
            if (auto* b = pick(bindings))
            {
                return set(b, src.PickOf<std::string>({"events", "fields", "methods"}), not_list());
            }
            return false;
        case 9:
            if (auto* e = pick(elements))
            {
                return drop(e, e->members[src.Below(e->members.size())].first);
            }
            return false;
        case 10:
            if (auto* e = pick(elements))
            {
                for (auto& m : e->members)
                {
                    if (m.first.size() > 2 && m.first.substr(m.first.size() - 2) == "Id")
                    {
                        m.second = too_big(16);
                        what = m.first + " := " + m.second.Print();
                        return true;
                    }
                }
            }
            return false;
        case 11:  // the same element name twice
            if (auto* b = pick(bindings))
            {
                for (const char* k : {"events", "fields", "methods"})
                {
                    auto* l = b->Find(k);
                    if (l != nullptr && !l->items.empty() && src.Bool())
                    {
                        auto copy = l->items[src.Below(l->items.size())];
                        for (auto& m : copy.members)
                        {
                            if (m.first.size() > 2 && m.first.substr(m.first.size() - 2) == "Id")
                            {
                                m.second = J::Num(40000 + src.Below(1000));
                            }
                        }
                        l->items.push_back(copy);
                        what = std::string{"name twice in "} + k;
                        return true;
                    }
                }
            }
            return false;
        case 12:  // the same id twice, in one list or across the kinds
            if (auto* b = pick(bindings))
            {
                static const char* const kLists[3]{"events", "fields", "methods"};
                static const char* const kName[3]{"eventName", "fieldName", "methodName"};
                static const char* const kId[3]{"eventId", "fieldId", "methodId"};
                const auto from = src.Below(3);
                const auto to = src.Below(3);
                auto* l = b->Find(kLists[from]);
                if (l == nullptr || l->items.empty())
                {
                    return false;
                }
                const auto id = l->items[src.Below(l->items.size())].Find(kId[from])->Print();
                if (b->Find(kLists[to]) == nullptr)
                {
                    b->Add(kLists[to], J::List());
                }
                J e = J::Object();
                e.Add(kName[to], J::Quoted("dup~")).Add(kId[to], J::Raw(id));
                b->Find(kLists[to])->items.push_back(e);
                what = std::string{"id of "} + kLists[from] + " again in " + kLists[to];
                return true;
            }
            return false;
        case 13:  // service type twice
            if (auto* t = pick(ts))
            {
                auto copy = *t;
                types->items.push_back(copy);
                what = "service type twice";
                return true;
            }
            return false;
        case 14:  // instance specifier twice
            if (auto* i = pick(is))
            {
                auto copy = *i;
                instances->items.push_back(copy);
                what = "instance specifier twice";
                return true;
            }
            return false;
        case 15:
            if (auto* i = pick(is))
            {
                return src.Bool() ? drop(i, src.Bool() ? "instanceSpecifier" : "instances")
                                  : set(i, "instanceSpecifier", src.PickOf<J>({J::Quoted(""), J::Quoted("/a/"), J::Quoted("1a"), J::Quoted("a//b"), J::Quoted("a b"), J::Quoted("a-b"), J::Raw("5")}));
            }
            return false;
        case 16:  // none or two deployments
            if (auto* i = pick(is))
            {
                auto* l = i->Find("instances");
                if (src.Bool())
                {
                    l->items.clear();
                }
                else
                {
                    auto copy = l->items[0];
                    l->items.push_back(copy);
                }
                what = std::to_string(l->items.size()) + " deployments";
                return true;
            }
            return false;
        case 17:
            if (auto* d = pick(deployments))
            {
                return src.Bool() ? drop(d, "asil-level") : set(d, "asil-level", src.PickOf<J>({J::Quoted("A"), J::Quoted("b"), J::Quoted(""), J::Quoted("D"), J::Raw("1")}));
            }
            return false;
        case 18:
            if (auto* d = pick(deployments))
            {
                return src.Bool() ? drop(d, "binding") : set(d, "binding", src.PickOf<J>({J::Quoted("shm"), J::Quoted("SOME/IP"), J::Quoted(""), J::Raw("1")}));
            }
            return false;
        case 19:
            if (auto* d = pick(deployments))
            {
                return set(d, "instanceId", too_big(16));
            }
            return false;
        case 20:
            if (auto* d = pick(deployments))
            {
                return set(d, src.PickOf<std::string>({"shm-size", "control-asil-b-shm-size", "control-qm-shm-size"}), too_big(64));
            }
            return false;
        case 21:
            if (auto* d = pick(deployments))
            {
                return set(d, src.PickOf<std::string>({"events", "fields", "methods"}), not_list());
            }
            return false;
        case 22:
            if (auto* d = pick(deployments))
            {
                return set(d, "permission-checks", src.PickOf<J>({J::Quoted("Strict"), J::Quoted(""), J::Quoted("none"), J::Raw("1")}));
            }
            return false;
        case 23:
            if (auto* d = pick(deployments))
            {
                const auto key = src.Bool() ? "allowedConsumer" : "allowedProvider";
                J u = J::Object();
                J l = J::List();
                switch (src.Below(4))
                {
                    case 0:
                        u.Add("C", l);
                        break;
                    case 1:
                        u.Add("B", J::Raw("3"));
                        break;
                    case 2:
                        l.items.push_back(J::Num(1));
                        l.items.push_back(too_big(32));
                        u.Add("QM", l);
                        break;
                    default:
                        u = J::List();
                        break;
                }
                return set(d, key, u);
            }
            return false;
        case 24:
            if (auto* d = pick(deployments))
            {
                d->Drop("interVmSupport");
                if (src.Bool())
                {
                    d->Add("interVmSupport", J::Flag(false));
                }
                return set(d, "interVmForwarded", J::Flag(true));
            }
            return false;
        case 25:
            if (auto* s = pick(slots))
            {
                const auto k = src.Below(3);
                return set(s, k == 0 ? "numberOfSampleSlots" : k == 1 ? "maxSubscribers" : "numberOfIpcTracingSlots", too_big(k == 0 ? 16 : 8));
            }
            return false;
        case 26:
            if (auto* s = pick(slots))
            {
                return src.Bool() ? drop(s, s->Find("eventName") != nullptr ? "eventName" : "fieldName") : set(s, "enforceMaxSamples", not_bool());
            }
            return false;
        case 27:
            if (auto* s = pick(slots))
            {
                if (src.Bool() || s->Find("fieldName") != nullptr)
                {
                    return set(s, "maxConcurrentAllocations", J::Num(src.Below(3)));
                }
                s->Drop("maxSamples");
                s->Drop("numberOfSampleSlots");
                s->Add("maxSamples", J::Num(3));
                return set(s, "numberOfSampleSlots", J::Num(3));
            }
            return false;
        case 28:
            if (auto* s = pick(method_slots))
            {
                const auto k = src.Below(3);
                return k == 0 ? drop(s, "methodName") : k == 1 ? set(s, "queueSize", too_big(8)) : set(s, "use", not_bool());
            }
            return false;
        case 29:  // an element twice in one instance
            if (auto* d = pick(deployments))
            {
                for (const char* k : {"events", "fields", "methods"})
                {
                    auto* l = d->Find(k);
                    if (l != nullptr && !l->items.empty() && src.Bool())
                    {
                        auto copy = l->items[src.Below(l->items.size())];
                        l->items.push_back(copy);
                        what = std::string{"element twice in "} + k;
                        return true;
                    }
                }
            }
            return false;
        case 30:
        {
            auto* g = doc.Find("global");
            if (g == nullptr)
            {
                return false;
            }
            switch (src.Below(4))
            {
                case 0:
                    return set(g, "asil-level", src.PickOf<J>({J::Quoted("A"), J::Quoted(""), J::Raw("1")}));
                case 1:
                    return set(g, "shm-size-calc-mode", src.PickOf<J>({J::Quoted("GUESS"), J::Quoted(""), J::Raw("1")}));
                case 2:
                    return set(g, "applicationID", too_big(32));
                default:
                {
                    J q = J::Object();
                    q.Add(src.PickOf<std::string>({"QM-receiver", "B-receiver", "B-sender"}), too_big(32, true));
                    return set(g, "queue-size", q);
                }
            }
        }
        default:
        {
            auto* t = doc.Find("tracing");
            if (t == nullptr)
            {
                return false;
            }
            switch (src.Below(4))
            {
                case 0:
                    return drop(t, "applicationInstanceID");
                case 1:
                    return set(t, "applicationInstanceID", not_string());
                case 2:
                    return set(t, "enable", not_bool());
                default:
                    return set(t, "traceFilterConfigPath", not_string());
            }
        }
    }
}
}  // namespace

PBT_PROPERTY(config_rejection, 60000, 2000000)
{
    const auto m = GenConfig(src, true);
    auto doc = Doc(m);
    std::string what;
    if (!Corrupt(src, doc, what))
    {
        ctx.Label("not applicable");
        return;
    }
    const auto text = doc.Print();
    PBT_CHECK(ctx, pbt::Dies([&] {
                  const auto c = ParseText(text);
                  (void)c;
              }),
              "a document with %s is accepted", what.c_str());
    ctx.NonTrivial();
    ctx.Note("%s: %.160s", what.c_str(), text.c_str());
}

// ------------------------------------------------------------------------------------------------------ merging

PBT_PROPERTY(config_merging, 100000, 3000000)
{
    std::set<std::string> used_types, used_specs;
    auto make = [&](std::vector<MType>& types, std::vector<MInstance>& instances) {
        Configuration::ServiceTypeDeployments td;
        Configuration::ServiceInstanceDeployments id;
        for (const auto& t : types)
        {
            td.emplace(Ident(t), t.blank ? ServiceTypeDeployment{score::cpp::blank{}} : ServiceTypeDeployment{TypeOf(t.binding)});
        }
        for (const auto& m : instances)
        {
            id.emplace(Spec(m.specifier), ServiceInstanceDeployment{Ident(m), InstanceOf(m), Asil(m.b), Spec(m.specifier)});
        }
        return Configuration{std::move(td), std::move(id), GlobalConfiguration{}, TracingConfiguration{}};
    };
    std::vector<MType> types;
    std::vector<MInstance> instances;
    auto grow = [&](std::vector<MType>& t, std::vector<MInstance>& i, std::uint64_t nt, std::uint64_t ni) {
        for (std::uint64_t k = 0; k < nt; ++k)
        {
            t.push_back(GenType(src, used_types));
        }
        for (std::uint64_t k = 0; k < ni; ++k)
        {
            i.push_back(GenInstance(src, t, used_specs, false));
        }
    };
    grow(types, instances, src.Below(3), src.Below(3));
    std::optional<Configuration> c;
    c.emplace(make(types, instances));
    // deployments handed out stay valid and unchanged through every later change
    std::vector<std::pair<const ServiceTypeDeployment*, MType>> kept_types;
    std::vector<std::pair<const ServiceInstanceDeployment*, MInstance>> kept_instances;
    auto keep = [&] {
        for (const auto& t : types)
        {
            kept_types.emplace_back(&c->GetServiceTypeDeployment(Ident(t))->get(), t);
        }
        for (const auto& m : instances)
        {
            kept_instances.emplace_back(&c->GetServiceInstanceDeployment(Spec(m.specifier))->get(), m);
        }
    };
    keep();
    const auto steps = 1 + src.Below(5);
    unsigned merges{0};
    for (std::uint64_t s = 0; s < steps; ++s)
    {
        switch (src.Below(6))
        {
            case 0:
            {
                auto t = GenType(src, used_types);
                auto* p = c->AddServiceTypeDeployment(Ident(t), t.blank ? ServiceTypeDeployment{score::cpp::blank{}} : ServiceTypeDeployment{TypeOf(t.binding)});
                PBT_CHECK(ctx, p == &c->GetServiceTypeDeployment(Ident(t))->get(), "the added service type is not the one found");
                types.push_back(t);
                kept_types.emplace_back(p, t);
                break;
            }
            case 1:
            {
                auto m = GenInstance(src, types, used_specs, false);
                auto* p = c->AddServiceInstanceDeployments(Spec(m.specifier), ServiceInstanceDeployment{Ident(m), InstanceOf(m), Asil(m.b), Spec(m.specifier)});
                PBT_CHECK(ctx, p == &c->GetServiceInstanceDeployment(Spec(m.specifier))->get(), "the added instance is not the one found");
                instances.push_back(m);
                kept_instances.emplace_back(p, m);
                break;
            }
            case 2:  // a duplicate is an error
            {
                if (types.empty() && instances.empty())
                {
                    break;
                }
                std::vector<MType> t;
                std::vector<MInstance> i;
                const bool type_dup = !types.empty() && (instances.empty() || src.Bool());
                if (type_dup)
                {
                    t.push_back(src.Pick(types));
                    t.back().binding.service_id ^= 1U;
                    std::set<std::string> other{used_specs};
                    if (src.Bool())
                    {
                        i.push_back(GenInstance(src, t, other, false));
                    }
                }
                else
                {
                    i.push_back(src.Pick(instances));
                    i.back().b = !i.back().b;
                }
                auto addon = make(t, i);
                if (type_dup && src.Chance(1, 40))
                {
                    PBT_CHECK(ctx, pbt::Dies([&] { (void)c->AddServiceTypeDeployment(Ident(t[0]), ServiceTypeDeployment{TypeOf(t[0].binding)}); }), "a service type is added twice");
                }
                if (!type_dup && src.Chance(1, 40))
                {
                    PBT_CHECK(ctx, pbt::Dies([&] { (void)c->AddServiceInstanceDeployments(Spec(i[0].specifier), ServiceInstanceDeployment{Ident(i[0]), InstanceOf(i[0]), Asil(i[0].b), Spec(i[0].specifier)}); }),
                              "an instance is added twice");
                }
                const auto r = c->MergeServiceEntries(addon);
                PBT_CHECK(ctx, !r.has_value(), "merging a duplicate %s succeeds", type_dup ? "service type" : "instance");
                PBT_CHECK(ctx, r.error() == (type_dup ? configuration_errc::configuration_merge_duplicate_service_type : configuration_errc::configuration_merge_duplicate_service_instance), "merging a duplicate %s: error", type_dup ? "service type" : "instance");
                ctx.Label("duplicate merged");
                break;
            }
            case 3:
            {
                Configuration moved{std::move(*c)};
                c.emplace(std::move(moved));
                break;
            }
            default:
            {
                std::vector<MType> t;
                std::vector<MInstance> i;
                grow(t, i, src.Below(3), src.Below(3));
                auto addon = make(t, i);
                const auto r = c->MergeServiceEntries(addon);
                PBT_CHECK(ctx, r.has_value(), "merging disjoint entries fails");
                types.insert(types.end(), t.begin(), t.end());
                instances.insert(instances.end(), i.begin(), i.end());
                merges += (t.empty() && i.empty()) ? 0U : 1U;
                keep();
                break;
            }
        }
        CompareServices(ctx, *c, types, instances, "after step");
        CompareUsers(ctx, *c, instances);
        for (const auto& [p, t] : kept_types)
        {
            PBT_CHECK(ctx, p == &c->GetServiceTypeDeployment(Ident(t))->get(), "the deployment of service type %s moved", t.name.c_str());
        }
        for (const auto& [p, m] : kept_instances)
        {
            PBT_CHECK(ctx, p == &c->GetServiceInstanceDeployment(Spec(m.specifier))->get(), "the deployment of instance %s moved", m.specifier.c_str());
        }
    }
    CompareValidation(ctx, *c, types, instances, false);
    if (merges > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%llu steps, %u merges, %zu types, %zu instances", static_cast<unsigned long long>(steps), merges, types.size(), instances.size());
}

// ------------------------------------------------------------------------------------------------ serialization

namespace
{
score::json::Any Reread(const score::json::Object& o)
{
    const score::json::JsonWriter writer{};
    const auto text = writer.ToBuffer(o).value();
    const score::json::JsonParser parser{};
    return parser.FromBuffer(text).value();
}

template <typename T>
T Back(const T& t, bool through_text)
{
    const auto o = t.Serialize();
    if (through_text)
    {
        const auto any = Reread(o);
        return T{any.template As<score::json::Object>().value().get()};
    }
    return T{o};
}

MInstance WithoutTracing(MInstance m)
{
    // documented: the slots for tracing belong to the process and are not handed on
    for (auto* l : {&m.events, &m.fields})
    {
        for (auto& s : *l)
        {
            s.tracing.reset();
        }
    }
    return m;
}
}  // namespace

PBT_PROPERTY(deployment_serialization, 80000, 2500000)
{
    std::set<std::string> used_types, used_specs;
    const auto type = GenType(src, used_types);
    auto inst = GenInstance(src, {type}, used_specs, true);
    const bool text = src.Chance(1, 2);
    if (!type.blank)
    {
        const auto d = Back(TypeOf(type.binding), text);
        const auto diff = Difference(d, TypeOf(type.binding));
        PBT_CHECK(ctx, diff.empty(), "service type deployment comes back with different %s", diff.c_str());
        PBT_CHECK(ctx, d.ToHashString() == TypeOf(type.binding).ToHashString(), "hash string of the service type deployment");
    }
    const ServiceTypeDeployment td = type.blank ? ServiceTypeDeployment{score::cpp::blank{}} : ServiceTypeDeployment{TypeOf(type.binding)};
    const auto td2 = Back(td, text);
    PBT_CHECK(ctx, td2 == td && td2.ToHashString() == td.ToHashString() && td2.binding_info_.index() == td.binding_info_.index(), "service type deployment comes back different");
    char want[16];
    std::snprintf(want, sizeof(want), type.blank ? "1" : "0%04x", type.binding.service_id);
    PBT_CHECK(ctx, td.ToHashString() == want, "hash string %.*s of service id %u", static_cast<int>(td.ToHashString().size()), td.ToHashString().data(), type.binding.service_id);

    const auto ident = Ident(type);
    const auto ident2 = Back(ident, text);
    PBT_CHECK(ctx, ident2 == ident && ident2.ToString() == type.name && ServiceIdentifierTypeView{ident2}.GetVersion() == ServiceIdentifierTypeView{ident}.GetVersion(), "service identifier comes back different");

    const auto want_inst = InstanceOf(WithoutTracing(inst));
    const auto back = Back(InstanceOf(inst), text);
    const auto diff = Difference(back, want_inst);
    PBT_CHECK(ctx, diff.empty(), "instance deployment comes back with different %s", diff.c_str());

    if (inst.instance_id)
    {
        const LolaServiceInstanceId id{*inst.instance_id};
        const auto id2 = Back(id, text);
        PBT_CHECK(ctx, id2.GetId() == *inst.instance_id && id2 == id, "instance id %u comes back as %u", *inst.instance_id, id2.GetId());
        const ServiceInstanceId sid{id};
        const auto sid2 = Back(sid, text);
        PBT_CHECK(ctx, sid2 == sid && sid2.ToHashString() == sid.ToHashString(), "service instance id comes back different");
    }
    {
        const ServiceInstanceId blank{score::cpp::blank{}};
        const auto b2 = Back(blank, text);
        PBT_CHECK(ctx, b2 == blank && std::holds_alternative<score::cpp::blank>(b2.binding_info_), "blank instance id comes back different");
    }

    // identifiers: given to another process as a string
    const ServiceInstanceDeployment sd{Ident(inst), InstanceOf(inst), Asil(inst.b), Spec(inst.specifier)};
    const auto sd2 = Back(sd, text);
    PBT_CHECK(ctx, sd2.asilLevel_ == sd.asilLevel_ && sd2.service_ == sd.service_ && sd2.instance_specifier_ == sd.instance_specifier_, "service instance deployment comes back different");
    PBT_CHECK(ctx, Difference(std::get<LolaServiceInstanceDeployment>(sd2.bindingInfo_), want_inst).empty(), "binding of the service instance deployment");
    const auto identifier = make_InstanceIdentifier(sd, td);
    Configuration other{{}, {}, GlobalConfiguration{}, TracingConfiguration{}};
    InstanceIdentifierAttorney::SetConfiguration(&other);
    auto received = InstanceIdentifier::Create(std::string{identifier.ToString()});
    PBT_CHECK(ctx, received.has_value(), "an identifier is not read back");
    PBT_CHECK(ctx, received.value().ToString() == identifier.ToString(), "the string of the received identifier differs");
    const InstanceIdentifierView view{received.value()};
    PBT_CHECK(ctx, view.GetServiceInstanceDeployment().service_ == sd.service_ && view.GetServiceInstanceDeployment().asilLevel_ == sd.asilLevel_ &&
                       view.GetServiceInstanceDeployment().instance_specifier_ == sd.instance_specifier_ && view.GetServiceTypeDeployment() == td,
              "the received identifier has other deployments");
    PBT_CHECK(ctx, Difference(std::get<LolaServiceInstanceDeployment>(view.GetServiceInstanceDeployment().bindingInfo_), want_inst).empty(), "binding of the received identifier");
    const auto sid = view.GetServiceInstanceId();
    PBT_CHECK(ctx, sid.has_value() == inst.instance_id.has_value() && (!sid || *sid == ServiceInstanceId{LolaServiceInstanceId{*inst.instance_id}}), "instance id of the received identifier");
    bool traced{false};
    for (const auto* l : {&inst.events, &inst.fields})
    {
        for (const auto& s : *l)
        {
            traced = traced || s.tracing.value_or(0) > 0;
        }
    }
    if (!traced)
    {
        PBT_CHECK(ctx, received.value() == identifier && std::hash<InstanceIdentifier>{}(received.value()) == std::hash<InstanceIdentifier>{}(identifier), "the received identifier differs from the sent one");
    }
    PBT_CHECK(ctx, &other.GetServiceInstanceDeployment(Spec(inst.specifier))->get() == &view.GetServiceInstanceDeployment(), "the received instance is not part of the configuration");
    // damaged strings
    if (src.Chance(1, 4))
    {
        std::string bad{identifier.ToString()};
        bad.resize(src.Below(bad.size()));
        Configuration third{{}, {}, GlobalConfiguration{}, TracingConfiguration{}};
        InstanceIdentifierAttorney::SetConfiguration(&third);
        const auto r = InstanceIdentifier::Create(std::move(bad));
        PBT_CHECK(ctx, !r.has_value() && r.error() == ComErrc::kInvalidInstanceIdentifierString, "a truncated identifier string is accepted");
        PBT_CHECK(ctx, third.IsServiceInstancesEmpty() && third.IsServiceTypesEmpty(), "a rejected identifier string changes the configuration");
        InstanceIdentifierAttorney::SetConfiguration(nullptr);
        const auto n = InstanceIdentifier::Create(std::string{identifier.ToString()});
        PBT_CHECK(ctx, !n.has_value() && n.error() == ComErrc::kInvalidConfiguration, "an identifier is created without a configuration");
    }
    // another serialization version is refused
    if (src.Chance(1, 60))
    {
        auto damaged = [&](const score::json::Object& o) {
            auto copy = Reread(o);
            auto& obj = copy.As<score::json::Object>().value().get();
            obj["serializationVersion"] = score::json::Any{static_cast<std::uint32_t>(2 + src.Below(5))};
            return copy;
        };
        const auto which = src.Below(5);
        const auto o = which == 0   ? damaged(td.Serialize())
                       : which == 1 ? damaged(sd.Serialize())
                       : which == 2 ? damaged(ident.Serialize())
                       : which == 3 ? damaged(InstanceOf(inst).Serialize())
                                    : damaged(InstanceIdentifierView{identifier}.Serialize());
        PBT_CHECK(ctx, pbt::Dies([&] {
                      const auto& obj = o.As<score::json::Object>().value().get();
                      switch (which)
                      {
                          case 0:
                              (void)ServiceTypeDeployment{obj};
                              break;
                          case 1:
                              (void)ServiceInstanceDeployment{obj};
                              break;
                          case 2:
                              (void)ServiceIdentifierType{obj};
                              break;
                          case 3:
                              (void)LolaServiceInstanceDeployment{obj};
                              break;
                          default:
                          {
                              Configuration cfg{{}, {}, GlobalConfiguration{}, TracingConfiguration{}};
                              InstanceIdentifierAttorney::SetConfiguration(&cfg);
                              const score::json::JsonWriter writer{};
                              (void)InstanceIdentifier::Create(std::string{writer.ToBuffer(obj).value()});
                              break;
                          }
                      }
                  }),
                  "another serialization version is accepted (%llu)", static_cast<unsigned long long>(which));
        ctx.Label("other serialization version");
    }
    InstanceIdentifierAttorney::SetConfiguration(nullptr);
    if (!inst.events.empty() && (!inst.fields.empty() || !inst.methods.empty()))
    {
        ctx.NonTrivial();
    }
    ctx.Note("%.*s", 200, identifier.ToString().data());
}

// ------------------------------------------------------------------------------------------------- orders, hashes

namespace
{
/// laws of ==, < and hash over a set of values; `Key` gives what the value means
template <typename T, typename Eq, typename Less>
void Laws(pbt::Ctx& ctx, const std::vector<T>& v, Eq eq, Less less, const char* what)
{
    for (std::size_t a = 0; a < v.size(); ++a)
    {
        PBT_CHECK(ctx, eq(v[a], v[a]), "%s: a value differs from itself", what);
        PBT_CHECK(ctx, !less(v[a], v[a]), "%s: a value is less than itself", what);
        for (std::size_t b = 0; b < v.size(); ++b)
        {
            PBT_CHECK(ctx, eq(v[a], v[b]) == eq(v[b], v[a]), "%s: == is not symmetric", what);
            PBT_CHECK(ctx, !(less(v[a], v[b]) && less(v[b], v[a])), "%s: < both ways", what);
            PBT_CHECK(ctx, !(eq(v[a], v[b]) && less(v[a], v[b])), "%s: equal and less", what);
            for (std::size_t c = 0; c < v.size(); ++c)
            {
                PBT_CHECK(ctx, !(eq(v[a], v[b]) && eq(v[b], v[c])) || eq(v[a], v[c]), "%s: == is not transitive", what);
                PBT_CHECK(ctx, !(less(v[a], v[b]) && less(v[b], v[c])) || less(v[a], v[c]), "%s: < is not transitive", what);
                const bool ab = !less(v[a], v[b]) && !less(v[b], v[a]);
                const bool bc = !less(v[b], v[c]) && !less(v[c], v[b]);
                const bool ac = !less(v[a], v[c]) && !less(v[c], v[a]);
                PBT_CHECK(ctx, !(ab && bc) || ac, "%s: values that are neither less nor greater do not form classes", what);
            }
        }
    }
}
const auto kEq = [](const auto& a, const auto& b) {
    return a == b;
};
const auto kLess = [](const auto& a, const auto& b) {
    return a < b;
};
}  // namespace

PBT_PROPERTY(identifier_laws, 100000, 3000000)
{
    // a few instances of a few services with few ids, qualities and deployment details, so that parts coincide
    std::set<std::string> used;
    std::vector<MType> types;
    for (int i = 0; i < 2; ++i)
    {
        types.push_back(GenType(src, used));
        types.back().blank = false;
    }
    std::vector<std::unique_ptr<ServiceTypeDeployment>> tds;
    std::vector<std::unique_ptr<ServiceInstanceDeployment>> sds;
    std::vector<InstanceIdentifier> ids;
    std::vector<HandleType> handles;
    struct Meaning
    {
        int type;
        int id;  // -1: any
        bool b;
        int detail;  // of the deployment
        int spec;
        int handle_id;
    };
    std::vector<Meaning> meaning;
    const auto n = 3 + src.Below(3);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Meaning m{static_cast<int>(src.Below(2)), static_cast<int>(src.Below(4)) - 1, src.Bool(), static_cast<int>(src.Below(3)), static_cast<int>(src.Below(2)), static_cast<int>(src.Below(3))};
        tds.push_back(std::make_unique<ServiceTypeDeployment>(TypeOf(types[static_cast<std::size_t>(m.type)].binding)));
        LolaServiceInstanceDeployment d{};
        if (m.id >= 0)
        {
            d.instance_id_ = LolaServiceInstanceId{static_cast<std::uint16_t>(m.id)};
            m.handle_id = m.id;
        }
        if (m.detail == 1)
        {
            d.shared_memory_size_ = 5;
        }
        else if (m.detail == 2)
        {
            d.strict_permissions_ = true;
        }
        sds.push_back(std::make_unique<ServiceInstanceDeployment>(Ident(types[static_cast<std::size_t>(m.type)]), d, Asil(m.b), Spec(m.spec == 0 ? "/abc" : "x")));
        ids.push_back(make_InstanceIdentifier(*sds.back(), *tds.back()));
        handles.push_back(m.id >= 0 && src.Bool() ? make_HandleType(ids.back()) : make_HandleType(ids.back(), ServiceInstanceId{LolaServiceInstanceId{static_cast<std::uint16_t>(m.handle_id)}}));
        meaning.push_back(m);
    }
    Laws(ctx, ids, kEq, kLess, "InstanceIdentifier");
    Laws(ctx, handles, kEq, kLess, "HandleType");
    std::vector<ServiceInstanceDeployment> ds;
    for (const auto& d : sds)
    {
        ds.push_back(*d);
    }
    Laws(ctx, ds, kEq, kLess, "ServiceInstanceDeployment");
    std::vector<ServiceIdentifierType> sis;
    std::vector<ServiceInstanceId> iids;
    for (const auto& m : meaning)
    {
        sis.push_back(Ident(types[static_cast<std::size_t>(m.type)]));
        iids.push_back(m.id < 0 ? ServiceInstanceId{score::cpp::blank{}} : ServiceInstanceId{LolaServiceInstanceId{static_cast<std::uint16_t>(m.id)}});
    }
    Laws(ctx, sis, kEq, kLess, "ServiceIdentifierType");
    Laws(ctx, iids, kEq, kLess, "ServiceInstanceId");
    bool coincide{false};
    for (std::size_t a = 0; a < meaning.size(); ++a)
    {
        for (std::size_t b = 0; b < meaning.size(); ++b)
        {
            const auto& x = meaning[a];
            const auto& y = meaning[b];
            const bool same = x.type == y.type && x.id == y.id && x.b == y.b && x.detail == y.detail;
            PBT_CHECK(ctx, (ids[a] == ids[b]) == same, "identifiers (type %d id %d %d detail %d) and (%d %d %d %d): == is %d", x.type, x.id, x.b, x.detail, y.type, y.id, y.b, y.detail, ids[a] == ids[b]);
            PBT_CHECK(ctx, (handles[a] == handles[b]) == (same && x.handle_id == y.handle_id), "handles: == is %d", handles[a] == handles[b]);
            if (x.type == y.type && x.id != y.id)
            {
                PBT_CHECK(ctx, (ids[a] < ids[b]) == (x.id < y.id), "identifiers of instances %d and %d: < is %d", x.id, y.id, ids[a] < ids[b]);
            }
            if (x.type != y.type)
            {
                const auto& tx = types[static_cast<std::size_t>(x.type)];
                const auto& ty = types[static_cast<std::size_t>(y.type)];
                const bool want = std::tie(tx.name, tx.major, tx.minor) < std::tie(ty.name, ty.major, ty.minor);
                PBT_CHECK(ctx, (ids[a] < ids[b]) == want && (sis[a] < sis[b]) == want, "order of service types %s %u.%u and %s %u.%u", tx.name.c_str(), tx.major, tx.minor, ty.name.c_str(), ty.major, ty.minor);
            }
            PBT_CHECK(ctx, InstanceIdentifierView{ids[a]}.isCompatibleWith(ids[b]) == (x.b == y.b && (x.id < 0 || y.id < 0 || x.id == y.id)), "compatibility of instances %d and %d", x.id, y.id);
            if (handles[a] == handles[b])
            {
                PBT_CHECK(ctx, std::hash<HandleType>{}(handles[a]) == std::hash<HandleType>{}(handles[b]), "equal handles with different hashes");
            }
            if (a != b && same)
            {
                coincide = true;
                const bool hash_equal = std::hash<InstanceIdentifier>{}(ids[a]) == std::hash<InstanceIdentifier>{}(ids[b]);
                if (!hash_equal && x.spec != y.spec)
                {
                    ctx.Known("identifier-hash-includes-specifier");
                }
                else
                {
                    PBT_CHECK(ctx, hash_equal, "equal identifiers with different hashes");
                }
            }
            PBT_CHECK(ctx, (iids[a] == iids[b]) == (x.id == y.id), "instance ids %d and %d: == is %d", x.id, y.id, iids[a] == iids[b]);
            PBT_CHECK(ctx, (iids[a].ToHashString() == iids[b].ToHashString()) == (x.id == y.id), "hash strings of instance ids %d and %d", x.id, y.id);
            const EnrichedInstanceIdentifier ea{handles[a]}, eb{handles[b]};
            PBT_CHECK(ctx, ea.GetBindingSpecificInstanceId<LolaServiceInstanceId>() == std::optional<std::uint16_t>(static_cast<std::uint16_t>(x.handle_id)), "enriched identifier of instance %d", x.handle_id);
            const lola::LolaServiceInstanceIdentifier la{ea}, lb{eb};
            const bool lsame = types[static_cast<std::size_t>(x.type)].binding.service_id == types[static_cast<std::size_t>(y.type)].binding.service_id && x.handle_id == y.handle_id;
            PBT_CHECK(ctx, (la == lb) == lsame, "lola identifiers");
            if (lsame)
            {
                PBT_CHECK(ctx, std::hash<lola::LolaServiceInstanceIdentifier>{}(la) == std::hash<lola::LolaServiceInstanceIdentifier>{}(lb), "equal lola identifiers with different hashes");
            }
        }
    }
    if (coincide)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%zu identifiers of services %s %u.%u and %s %u.%u", ids.size(), types[0].name.c_str(), types[0].major, types[0].minor, types[1].name.c_str(), types[1].major, types[1].minor);
}

PBT_PROPERTY(element_ids, 600000, 20000000)
{
    using lola::ElementFqId;
    auto few16 = [&] {
        return static_cast<std::uint16_t>(src.Chance(2, 3) ? src.PickOf<std::uint16_t>({0, 1, 256, 0xFFFF}) : src.Int<std::uint16_t>());
    };
    auto few32 = [&] {
        return src.Chance(2, 3) ? src.PickOf<std::uint32_t>({0, 1, 65536, 0xFFFFFFFFU}) : src.Int<std::uint32_t>();
    };
    std::vector<ElementFqId> e;
    std::vector<lola::ProxyInstanceIdentifier> p;
    std::vector<lola::SkeletonInstanceIdentifier> s;
    std::vector<lola::UniqueMethodIdentifier> u;
    std::vector<tracing::ServiceElementIdentifier> t;
    for (int i = 0; i < 4; ++i)
    {
        e.emplace_back(few16(), few16(), few16(), static_cast<std::uint8_t>(src.Below(3)));
        p.push_back({few32(), few16()});
        s.push_back({few16(), few16()});
        u.push_back({few16(), static_cast<MethodType>(src.Below(4))});
        t.push_back({src.PickOf<std::string>({"a", "ab", "b", ""}), src.PickOf<std::string>({"c", "bc", "b", ""}), src.Bool() ? ServiceElementType::EVENT : ServiceElementType::FIELD});
    }
    Laws(ctx, e, kEq, kLess, "ElementFqId");
    Laws(ctx, t, kEq, kLess, "ServiceElementIdentifier");
    for (std::size_t a = 0; a < e.size(); ++a)
    {
        for (std::size_t b = 0; b < e.size(); ++b)
        {
            const bool same = e[a].service_id_ == e[b].service_id_ && e[a].element_id_ == e[b].element_id_ && e[a].instance_id_ == e[b].instance_id_;
            PBT_CHECK(ctx, (e[a] == e[b]) == same, "elements %s and %s: == is %d", e[a].ToString().c_str(), e[b].ToString().c_str(), e[a] == e[b]);
            PBT_CHECK(ctx, same || (e[a] < e[b]) || (e[b] < e[a]), "different elements %s and %s are not ordered", e[a].ToString().c_str(), e[b].ToString().c_str());
            PBT_CHECK(ctx, (std::hash<ElementFqId>{}(e[a]) == std::hash<ElementFqId>{}(e[b])) == same, "hashes of elements %s and %s", e[a].ToString().c_str(), e[b].ToString().c_str());
            PBT_CHECK(ctx, (e[a].ToString() == e[b].ToString()) == (same && e[a].element_type_ == e[b].element_type_), "names of elements %s and %s", e[a].ToString().c_str(), e[b].ToString().c_str());
            const bool ps = p[a].application_id == p[b].application_id && p[a].proxy_instance_counter == p[b].proxy_instance_counter;
            PBT_CHECK(ctx, (p[a] == p[b]) == ps && (std::hash<lola::ProxyInstanceIdentifier>{}(p[a]) == std::hash<lola::ProxyInstanceIdentifier>{}(p[b])) == ps, "proxies %u/%u and %u/%u", p[a].application_id, p[a].proxy_instance_counter, p[b].application_id, p[b].proxy_instance_counter);
            const bool ss = s[a].service_id == s[b].service_id && s[a].instance_id == s[b].instance_id;
            PBT_CHECK(ctx, (s[a] == s[b]) == ss && (std::hash<lola::SkeletonInstanceIdentifier>{}(s[a]) == std::hash<lola::SkeletonInstanceIdentifier>{}(s[b])) == ss, "skeletons");
            const bool us = u[a].method_or_field_id == u[b].method_or_field_id && u[a].method_type == u[b].method_type;
            PBT_CHECK(ctx, (u[a] == u[b]) == us && (u[a] != u[b]) == !us && (std::hash<lola::UniqueMethodIdentifier>{}(u[a]) == std::hash<lola::UniqueMethodIdentifier>{}(u[b])) == us, "methods %u and %u", u[a].method_or_field_id, u[b].method_or_field_id);
            const lola::ProxyMethodInstanceIdentifier pa{p[a], u[a]}, pb{p[b], u[b]};
            PBT_CHECK(ctx, (pa == pb) == (ps && us), "methods of proxies");
            PBT_CHECK(ctx, !(pa == pb) || std::hash<lola::ProxyMethodInstanceIdentifier>{}(pa) == std::hash<lola::ProxyMethodInstanceIdentifier>{}(pb), "equal methods of proxies with different hashes");
            const tracing::ServiceElementIdentifierView va{t[a].service_type_name, t[a].service_element_name, t[a].service_element_type};
            const tracing::ServiceElementIdentifierView vb{t[b].service_type_name, t[b].service_element_name, t[b].service_element_type};
            const bool ts = t[a].service_type_name == t[b].service_type_name && t[a].service_element_name == t[b].service_element_name && t[a].service_element_type == t[b].service_element_type;
            PBT_CHECK(ctx, (t[a] == t[b]) == ts && (va == vb) == ts && (va < vb) == (t[a] < t[b]), "traced elements");
            PBT_CHECK(ctx, std::hash<tracing::ServiceElementIdentifier>{}(t[a]) == std::hash<tracing::ServiceElementIdentifierView>{}(va), "hash of a traced element and of its view");
            const tracing::ServiceElementInstanceIdentifierView ia{va, "x"}, ib{vb, "x"}, ic{vb, "y"};
            PBT_CHECK(ctx, (ia == ib) == ts && !(ia == ic), "traced instances");
            PBT_CHECK(ctx, !(ia == ib) || std::hash<tracing::ServiceElementInstanceIdentifierView>{}(ia) == std::hash<tracing::ServiceElementInstanceIdentifierView>{}(ib), "hash of traced instances");
        }
        PBT_CHECK(ctx, lola::IsElementEvent(e[a]) == (e[a].element_type_ == ServiceElementType::EVENT) && lola::IsElementField(e[a]) == (e[a].element_type_ == ServiceElementType::FIELD), "kind of element %s", e[a].ToString().c_str());
    }
    if (src.Chance(1, 5000))
    {
        PBT_CHECK(ctx, pbt::Dies([&] { (void)ElementFqId(1, 2, 3, static_cast<std::uint8_t>(4 + src.Below(200))); }), "an unknown element type is accepted");
    }
    ctx.NonTrivial();
    ctx.Note("%s %s proxies %u/%u %u/%u", e[0].ToString().c_str(), e[1].ToString().c_str(), p[0].application_id, p[0].proxy_instance_counter, p[1].application_id, p[1].proxy_instance_counter);
}

PBT_PROPERTY(instance_specifiers, 1500000, 40000000)
{
    static const std::string kAlphabet{"/aZ_09b/ -.\\:"};
    std::string s;
    if (src.Chance(1, 8))
    {
        const auto len = src.Below(6);
        for (std::uint64_t i = 0; i < len; ++i)
        {
            s += static_cast<char>(src.Below(256));
        }
    }
    else
    {
        const auto len = src.Below(10);
        const auto clean = src.Chance(2, 3);
        for (std::uint64_t i = 0; i < len; ++i)
        {
            s += kAlphabet[src.Below(clean ? 8 : kAlphabet.size())];
        }
    }
    auto alpha = [](char c) {
        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '/';
    };
    bool ok = !s.empty() && s.back() != '/' && alpha(s[0]);
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        ok = ok && (alpha(s[i]) || (i > 0 && s[i] >= '0' && s[i] <= '9'));
        ok = ok && !(i > 0 && s[i] == '/' && s[i - 1] == '/');
    }
    const auto r = InstanceSpecifier::Create(std::string{s});
    PBT_CHECK(ctx, r.has_value() == ok, "specifier '%s' is %s", s.c_str(), r.has_value() ? "accepted" : "rejected");
    if (ok)
    {
        PBT_CHECK(ctx, r.value().ToString() == s, "specifier '%s' reads '%.*s'", s.c_str(), static_cast<int>(r.value().ToString().size()), r.value().ToString().data());
        std::string o{s};
        if (src.Bool())
        {
            o[src.Below(o.size())] = 'b';
        }
        if (src.Chance(1, 4))
        {
            o += "a";
        }
        const auto r2 = InstanceSpecifier::Create(std::string{o});
        if (r2.has_value())
        {
            const auto& a = r.value();
            const auto& b = r2.value();
            PBT_CHECK(ctx, (a == b) == (s == o) && (a != b) == (s != o) && (a < b) == (s < o) && (a == std::string_view{o}) == (s == o) && (std::string_view{o} != a) == (s != o), "comparison of '%s' and '%s'", s.c_str(), o.c_str());
            PBT_CHECK(ctx, s != o || std::hash<InstanceSpecifier>{}(a) == std::hash<InstanceSpecifier>{}(b), "hash of '%s'", s.c_str());
        }
        if (s.size() > 3)
        {
            ctx.NonTrivial();
        }
    }
    else
    {
        PBT_CHECK(ctx, r.error() == ComErrc::kInvalidMetaModelShortname, "error for '%s'", s.c_str());
        ctx.Label("rejected");
    }
    ctx.Note("'%s' %s", s.c_str(), ok ? "accepted" : "rejected");
}

PBT_PROPERTY(object_names, 500000, 15000000)
{
    // all names of the objects of two instances: each name belongs to one object of one instance
    struct Object
    {
        std::string what;
        std::string name;
    };
    auto num = [&] {
        return static_cast<std::uint16_t>(src.Chance(1, 2) ? src.PickOf<std::uint16_t>({0, 1, 11, 10, 111, 65535, 10000}) : src.Int<std::uint16_t>());
    };
    auto app = [&] {
        return src.Chance(1, 2) ? src.PickOf<std::uint32_t>({0, 1, 11, 100000, 99999, 0xFFFFFFFFU}) : src.Int<std::uint32_t>();
    };
    std::map<std::string, std::string> owner;
    auto pad = [](std::uint64_t v, int w) {
        char b[32];
        std::snprintf(b, sizeof(b), "%0*llu", w, static_cast<unsigned long long>(v));
        return std::string{b};
    };
    const auto n = 2 + src.Below(2);
    std::set<std::string> instances;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto service = num();
        const auto instance = num();
        const bool vm = src.Chance(1, 3);
        const auto key = pad(service, 16) + "-" + pad(instance, 5);
        instances.insert(key);
        const std::string prefix{vm ? "/intervm-shared-shmem/" : "/"};
        const std::string id = std::to_string(service) + "/" + std::to_string(instance) + (vm ? " inter-VM" : "");
        const lola::ShmPathBuilder shm{service, vm};
        const lola::PartialRestartPathBuilder restart{service};
        auto add = [&](const std::string& what, const std::string& name, const std::string& want) {
            PBT_CHECK(ctx, name == want, "%s of %s: %s, expected %s", what.c_str(), id.c_str(), name.c_str(), want.c_str());
            const auto full = what + " of " + id;
            const auto [it, fresh] = owner.emplace(name, full);
            PBT_CHECK(ctx, fresh || it->second == full, "%s is both %s and %s", name.c_str(), it->second.c_str(), full.c_str());
        };
        add("data", shm.GetDataChannelShmName(instance), prefix + "lola-data-" + key);
        add("control QM", shm.GetControlChannelShmName(instance, QualityType::kASIL_QM), prefix + "lola-ctl-" + key);
        add("control B", shm.GetControlChannelShmName(instance, QualityType::kASIL_B), prefix + "lola-ctl-" + key + "-b");
        for (int k = 0; k < 2; ++k)
        {
            const lola::ProxyInstanceIdentifier proxy{app(), num()};
            add("method channel of proxy " + std::to_string(proxy.application_id) + "/" + std::to_string(proxy.proxy_instance_counter),
                shm.GetMethodChannelShmName(instance, proxy), prefix + "lola-methods-" + key + "-" + pad(proxy.application_id, 5) + "-" + pad(proxy.proxy_instance_counter, 5));
        }
        const auto dir = restart.GetLolaPartialRestartDirectoryPath();
        const std::string base = std::to_string(service) + "/" + std::to_string(instance);
        const auto existence = restart.GetServiceInstanceExistenceMarkerFilePath(instance);
        const auto usage = restart.GetServiceInstanceUsageMarkerFilePath(instance);
        PBT_CHECK(ctx, existence == dir + "existence-" + key && usage == dir + "usage-" + key, "marker files of %s: %s %s", base.c_str(), existence.c_str(), usage.c_str());
    }
    if (instances.size() > 1)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%s: %s", owner.begin()->second.c_str(), owner.begin()->first.c_str());
}

// ---------------------------------------------------------------------------------------------- known instances, map

PBT_PROPERTY(known_instances, 250000, 8000000)
{
    using lola::KnownInstancesContainer;
    static const std::vector<std::uint16_t> kServices{1, 2, 0xFFFF};
    // built once: making an identifier serializes its deployment
    struct Pool
    {
        std::vector<std::unique_ptr<ServiceTypeDeployment>> types;
        std::vector<std::unique_ptr<ServiceInstanceDeployment>> deps;
        std::vector<std::vector<EnrichedInstanceIdentifier>> ids, any;
    };
    static const Pool& pool = *[] {
        auto* p = new Pool;
        for (const auto s : kServices)
        {
            p->types.push_back(std::make_unique<ServiceTypeDeployment>(LolaServiceTypeDeployment{s}));
            p->ids.emplace_back();
            p->any.emplace_back();
            for (int i = -1; i < 4; ++i)
            {
                p->deps.push_back(std::make_unique<ServiceInstanceDeployment>(
                    make_ServiceIdentifierType("/s" + std::to_string(s), 1U, 0U),
                    LolaServiceInstanceDeployment{i < 0 ? std::optional<LolaServiceInstanceId>{} : std::optional<LolaServiceInstanceId>{LolaServiceInstanceId{static_cast<std::uint16_t>(i)}}},
                    QualityType::kASIL_QM, Spec("/abc")));
                p->ids.back().emplace_back(make_InstanceIdentifier(*p->deps.back(), *p->types.back()));
                if (i >= 0)
                {
                    p->any.back().emplace_back(p->ids.back().front().GetInstanceIdentifier(), ServiceInstanceId{LolaServiceInstanceId{static_cast<std::uint16_t>(i)}});
                }
            }
        }
        return p;
    }();
    auto enriched = [&](std::size_t s, int id) {
        return pool.ids[s][static_cast<std::size_t>(id + 1)];
    };
    auto any_with = [&](std::size_t s, int id) {
        return pool.any[s][static_cast<std::size_t>(id)];
    };
    KnownInstancesContainer c[2];
    std::set<std::pair<std::size_t, int>> model[2];
    bool touched[2]{false, false};
    const auto n = 1 + src.Below(16);
    bool merged{false};
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto w = src.Below(2);
        const auto s = src.Below(kServices.size());
        const int id = static_cast<int>(src.Below(4));
        const auto what = src.Bool() ? enriched(s, id) : any_with(s, id);
        switch (src.Below(8))
        {
            case 0:
            case 1:
            case 2:
            {
                const bool fresh = model[w].insert({s, id}).second;
                touched[w] = true;
                PBT_CHECK(ctx, c[w].Insert(what) == fresh, "Insert of %u/%d: a %s instance", kServices[s], id, fresh ? "new" : "known");
                break;
            }
            case 3:
            case 4:
                model[w].erase({s, id});
                c[w].Remove(what);
                break;
            case 5:
                PBT_CHECK(ctx, !c[w].Insert(enriched(s, -1)), "Insert without an instance id");
                c[w].Remove(enriched(s, -1));
                break;
            case 6:
                model[w].insert(model[1 - w].begin(), model[1 - w].end());
                model[1 - w].clear();
                c[w].Merge(std::move(c[1 - w]));
                c[1 - w] = KnownInstancesContainer{};
                touched[w] = touched[w] || touched[1 - w];
                touched[1 - w] = false;
                merged = true;
                break;
            default:
                break;
        }
        for (std::size_t k = 0; k < 2; ++k)
        {
            PBT_CHECK(ctx, !c[k].Empty() || model[k].empty(), "Empty with %zu instances", model[k].size());
            PBT_CHECK(ctx, c[k].Empty() == !touched[k] || model[k].empty(), "not Empty although nothing was ever inserted");
            for (std::size_t t = 0; t < kServices.size(); ++t)
            {
                std::set<int> all, got;
                for (const auto& [ms, mid] : model[k])
                {
                    if (ms == t)
                    {
                        all.insert(mid);
                    }
                }
                const auto handles = c[k].GetKnownHandles(enriched(t, -1));
                for (const auto& h : handles)
                {
                    got.insert(std::get<LolaServiceInstanceId>(h.GetInstanceId().binding_info_).GetId());
                    PBT_CHECK(ctx, h.GetInstanceIdentifier() == enriched(t, -1).GetInstanceIdentifier(), "the handle has another identifier than the search");
                }
                PBT_CHECK(ctx, got == all && handles.size() == all.size(), "%zu handles of service %u, expected %zu", handles.size(), kServices[t], all.size());
                for (int q = 0; q < 4; ++q)
                {
                    const auto one = c[k].GetKnownHandles(src.Bool() ? enriched(t, q) : any_with(t, q));
                    PBT_CHECK(ctx, one.size() == all.count(q), "%zu handles of %u/%d", one.size(), kServices[t], q);
                    PBT_CHECK(ctx, one.empty() || std::get<LolaServiceInstanceId>(one[0].GetInstanceId().binding_info_).GetId() == q, "handle of another instance");
                }
            }
        }
    }
    if (merged && model[0].size() + model[1].size() > 2)
    {
        ctx.NonTrivial();
    }
    ctx.Note("%llu steps, %zu + %zu instances", static_cast<unsigned long long>(n), model[0].size(), model[1].size());
}

namespace
{
LolaEventInstanceDeployment OtherThan(pbt::Src& src, const LolaEventInstanceDeployment& e)
{
    auto slots = e.GetNumberOfSampleSlotsExcludingTracingSlot();
    auto subs = e.max_subscribers_;
    auto alloc = e.max_concurrent_allocations_;
    bool enforce = e.enforce_max_samples_;
    auto tracing = e.GetNumberOfTracingSlots();
    switch (src.Below(5))
    {
        case 0:
            slots = slots.has_value() && src.Bool() ? std::optional<std::uint16_t>{} : std::optional<std::uint16_t>{static_cast<std::uint16_t>(slots.value_or(3) ^ (1U << src.Below(16)))};
            break;
        case 1:
            subs = subs.has_value() && src.Bool() ? std::optional<std::uint8_t>{} : std::optional<std::uint8_t>{static_cast<std::uint8_t>(subs.value_or(3) ^ (1U << src.Below(8)))};
            break;
        case 2:
            alloc = alloc.has_value() && src.Bool() ? std::optional<std::uint8_t>{} : std::optional<std::uint8_t>{static_cast<std::uint8_t>(alloc.value_or(3) ^ (1U << src.Below(8)))};
            break;
        case 3:
            enforce = !enforce;
            break;
        default:
            tracing = static_cast<std::uint8_t>(tracing ^ (1U << src.Below(8)));
            break;
    }
    return LolaEventInstanceDeployment{slots, subs, alloc, enforce, tracing};
}
}  // namespace

PBT_PROPERTY(deployment_equality, 60000, 2000000)
{
    std::set<std::string> used_types, used_specs;
    const auto type = GenType(src, used_types);
    const auto inst = GenInstance(src, {type}, used_specs, true);
    const auto a = InstanceOf(inst);
    auto b = InstanceOf(inst);
    PBT_CHECK(ctx, a == b && b == a && a == a, "equal deployments compare different");
    // one difference anywhere is a difference
    const auto flip = [&](std::optional<std::size_t>& v) { v = v.has_value() && src.Bool() ? std::optional<std::size_t>{} : std::optional<std::size_t>{v.value_or(7) ^ (std::size_t{1} << src.Below(40))}; };
    const auto uids = [&](std::unordered_map<QualityType, std::vector<uid_t>>& m) {
        const auto q = src.Bool() ? QualityType::kASIL_B : QualityType::kASIL_QM;
        if (m.count(q) != 0U && src.Bool())
        {
            m.erase(q);
        }
        else
        {
            m[q].push_back(static_cast<uid_t>(src.Below(5)));
        }
    };
    const char* what{""};
    switch (src.Below(11))
    {
        case 0:
            what = "instance id";
            b.instance_id_ = b.instance_id_.has_value() && src.Bool() ? std::optional<LolaServiceInstanceId>{}
                                                                       : std::optional<LolaServiceInstanceId>{LolaServiceInstanceId{static_cast<std::uint16_t>((b.instance_id_ ? b.instance_id_->GetId() : 0U) ^ (1U << src.Below(16)))}};
            break;
        case 1:
            what = "shared memory size";
            flip(b.shared_memory_size_);
            break;
        case 2:
            what = "ASIL-B control size";
            flip(b.control_asil_b_memory_size_);
            break;
        case 3:
            what = "QM control size";
            flip(b.control_qm_memory_size_);
            break;
        case 4:
        case 5:
            what = "event";
            if (b.events_.empty() || src.Chance(1, 4))
            {
                b.events_.emplace("someThingElse", LolaEventInstanceDeployment{1, 2, {}, true, 0});
            }
            else
            {
                auto& e = b.events_.begin()->second;
                const auto o = OtherThan(src, e);
                PBT_CHECK(ctx, !(o == e) && e == e, "different event deployments compare equal");
                e = o;
            }
            break;
        case 6:
            what = "field";
            if (b.fields_.empty() || src.Chance(1, 4))
            {
                b.fields_.emplace("someThingElse", LolaFieldInstanceDeployment{LolaEventInstanceDeployment{1, 2, {}, true, 0}, true, true});
            }
            else
            {
                auto& f = b.fields_.begin()->second;
                switch (src.Below(3))
                {
                    case 0:
                        f.lola_event_instance_deployment_ = OtherThan(src, f.lola_event_instance_deployment_);
                        break;
                    case 1:
                        f.use_get_if_available_ = !f.use_get_if_available_;
                        break;
                    default:
                        f.use_set_if_available_ = !f.use_set_if_available_;
                        break;
                }
            }
            break;
        case 7:
            what = "method";
            if (b.methods_.empty() || src.Chance(1, 4))
            {
                b.methods_.emplace("someThingElse", LolaMethodInstanceDeployment{1, true});
            }
            else
            {
                auto& m = b.methods_.begin()->second;
                if (src.Bool())
                {
                    m.enabled_ = !m.enabled_;
                }
                else
                {
                    m.queue_size_ = m.queue_size_.has_value() && src.Bool() ? std::optional<std::uint8_t>{} : std::optional<std::uint8_t>{static_cast<std::uint8_t>(m.queue_size_.value_or(1) ^ (1U << src.Below(8)))};
                }
            }
            break;
        case 8:
            what = "strictness";
            b.strict_permissions_ = !b.strict_permissions_;
            break;
        case 9:
            what = "allowed consumers";
            uids(b.allowed_consumer_);
            break;
        default:
            what = "allowed providers";
            uids(b.allowed_provider_);
            break;
    }
    PBT_CHECK(ctx, !(a == b) && !(b == a), "deployments with a different %s compare equal", what);
    ctx.Label(what);
    if (!inst.events.empty() || !inst.fields.empty() || !inst.methods.empty())
    {
        ctx.NonTrivial();
    }
    // slots: what the configuration asks for plus those for tracing, never silently more than can be counted
    const std::uint16_t slots = src.Chance(1, 3) ? static_cast<std::uint16_t>(65535U - src.Below(300)) : static_cast<std::uint16_t>(src.Below(65536));
    const auto tracing = src.Chance(1, 6) ? static_cast<std::uint8_t>(std::min<unsigned>(255U, 65535U - slots + static_cast<unsigned>(src.Below(2)))) : static_cast<std::uint8_t>(src.Below(256));
    const LolaEventInstanceDeployment e{src.Chance(1, 10) ? std::optional<std::uint16_t>{} : std::optional<std::uint16_t>{slots}, 1, {}, true, tracing};
    const bool known = e.GetNumberOfSampleSlotsExcludingTracingSlot().has_value();
    PBT_CHECK(ctx, !known || *e.GetNumberOfSampleSlotsExcludingTracingSlot() == slots, "configured slots read differently");
    if (!known)
    {
        PBT_CHECK(ctx, !e.GetNumberOfSampleSlots().has_value(), "slots without a configured number");
    }
    else if (static_cast<unsigned>(slots) + tracing <= 65535U)
    {
        PBT_CHECK(ctx, e.GetNumberOfSampleSlots() == static_cast<std::uint16_t>(slots + tracing), "%u slots and %u for tracing read as %d", slots, tracing, e.GetNumberOfSampleSlots().value_or(0));
    }
    else if (src.Chance(1, 30))
    {
        PBT_CHECK(ctx, pbt::Dies([&] { (void)e.GetNumberOfSampleSlots(); }), "%u slots and %u for tracing wrap around", slots, tracing);
    }
}
