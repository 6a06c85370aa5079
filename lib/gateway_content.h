// Messages of the gateway's transport: random ones, their making and what is found in them.
#ifndef VERIF_GATEWAY_CONTENT_H
#define VERIF_GATEWAY_CONTENT_H
#include "pbt.h"

#include "score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h"

#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace
{
using namespace score::mw::com::gateway;
using score::mw::com::DataTypeMetaInfo;
using score::mw::com::EventInfo;
using score::mw::com::InstanceSpecifier;
using score::mw::com::impl::ServiceElementType;

struct Content
{
    MessageType type{MessageType::kInvalid};
    std::string specifier{};
    std::vector<std::pair<std::string, DataTypeMetaInfo>> elements{};
    std::uint32_t control{0};
    std::uint32_t data{0};
    ServiceElementType element_type{ServiceElementType::INVALID};
    std::string element{};
    std::uint32_t acked{0};
};
bool operator==(const Content& a, const Content& b)
{
    bool same = a.type == b.type && a.specifier == b.specifier && a.elements.size() == b.elements.size() && a.control == b.control && a.data == b.data &&
                a.element_type == b.element_type && a.element == b.element && a.acked == b.acked;
    for (std::size_t i = 0; same && i < a.elements.size(); ++i)
    {
        same = a.elements[i].first == b.elements[i].first && a.elements[i].second.size == b.elements[i].second.size &&
               a.elements[i].second.alignment == b.elements[i].second.alignment;
    }
    return same;
}
std::string Name(pbt::Src& src, std::size_t max)
{
    const char* const alphabet = "abcXYZ019_";
    std::string s(1U + src.Below(max), 'a');
    for (auto& c : s)
    {
        c = alphabet[src.Below(10)];
    }
    return s;
}
Content Generate(pbt::Src& src, const std::string& id)
{
    Content c;
    c.type = src.PickOf<MessageType>({MessageType::kProvideServiceRequest,
                                      MessageType::kOfferServiceRequest,
                                      MessageType::kStopOfferServiceRequest,
                                      MessageType::kRegisterNotificationRequest,
                                      MessageType::kUnregisterNotificationRequest,
                                      MessageType::kUpdateNotification,
                                      MessageType::kUpdateNotification});
    c.specifier = id;
    switch (c.type)
    {
        case MessageType::kProvideServiceRequest:
            for (auto n = src.Below(4); n > 0U; --n)
            {
                c.elements.push_back({Name(src, src.Chance(1, 6) ? 60U : 12U), {static_cast<std::size_t>(src.Int<std::uint64_t>()), static_cast<std::size_t>(1U) << src.Below(8)}});
            }
            c.control = src.Int<std::uint32_t>();
            c.data = src.Int<std::uint32_t>();
            break;
        case MessageType::kRegisterNotificationRequest:
        case MessageType::kUnregisterNotificationRequest:
        case MessageType::kUpdateNotification:
            c.element_type = src.PickOf<ServiceElementType>({ServiceElementType::EVENT, ServiceElementType::FIELD, ServiceElementType::METHOD});
            c.element = Name(src, src.Chance(1, 6) ? 100U : 10U);
            break;
        default:
            break;
    }
    return c;
}
InstanceSpecifier Specifier(const std::string& s)
{
    return InstanceSpecifier::Create(std::string{s}).value();
}
// `names`: storage of the names that the message is given
std::unique_ptr<TransportMessage> MakeMessage(const Content& c, std::vector<std::string>& names)
{
    switch (c.type)
    {
        case MessageType::kProvideServiceRequest:
        {
            std::vector<EventInfo> e;
            names.clear();
            names.reserve(c.elements.size());
            for (auto& x : c.elements)
            {
                names.push_back(x.first);
                e.push_back({names.back(), x.second});
            }
            return std::make_unique<ProvideServiceRequest>(Specifier(c.specifier), std::move(e), c.control, c.data);
        }
        case MessageType::kOfferServiceRequest:
            return std::make_unique<OfferServiceRequest>(Specifier(c.specifier));
        case MessageType::kStopOfferServiceRequest:
            return std::make_unique<StopOfferServiceRequest>(Specifier(c.specifier));
        case MessageType::kRegisterNotificationRequest:
            return std::make_unique<RegisterNotificationRequest>(Specifier(c.specifier), c.element_type, c.element);
        case MessageType::kUnregisterNotificationRequest:
            return std::make_unique<UnregisterNotificationRequest>(Specifier(c.specifier), c.element_type, c.element);
        case MessageType::kUpdateNotification:
            return std::make_unique<UpdateNotification>(Specifier(c.specifier), c.element_type, c.element);
        default:
            return std::make_unique<AckResponse>(c.acked);
    }
}
void Scramble(std::vector<std::string>& names)
{
    for (auto& n : names)
    {
        for (auto& c : n)
        {
            c = '?';
        }
    }
}
// an empty content if the dynamic type does not fit the type
Content ContentOf(const TransportMessage& m)
{
    Content c;
    c.type = m.GetType();
    if (const auto* p = dynamic_cast<const ProvideServiceRequest*>(&m))
    {
        c.specifier = p->GetInstanceSpecifier();
        for (auto& e : p->GetServiceElements())
        {
            c.elements.push_back({std::string{e.name}, e.data_type_meta_info});
        }
        c.control = p->GetShmControlSize();
        c.data = p->GetShmDataSize();
    }
    else if (const auto* o = dynamic_cast<const OfferServiceRequest*>(&m))
    {
        c.specifier = o->GetInstanceSpecifier();
    }
    else if (const auto* s = dynamic_cast<const StopOfferServiceRequest*>(&m))
    {
        c.specifier = s->GetInstanceSpecifier();
    }
    else if (const auto* e = dynamic_cast<const ServiceElementMessage*>(&m))
    {
        c.specifier = e->GetInstanceSpecifier();
        c.element_type = e->GetElementType();
        c.element = e->GetElementName();
    }
    else if (const auto* a = dynamic_cast<const AckResponse*>(&m))
    {
        c.acked = a->GetAckedSequence();
    }
    return c;
}

}  // namespace
#endif
