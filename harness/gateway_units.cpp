// The wire format of the gateway's messages: what is sent arrives unchanged, whatever pieces the network cuts it into,
// and bytes that are no message are refused.
#include "gateway_content.h"
#include "pbt.h"

#include "score/mw/com/gateway/transport_layer/sample/message_framer.h"

#include "score/os/socket.h"

#include <cstring>
#include <sys/socket.h>

namespace
{
template <typename T>
using Exp = score::cpp::expected<T, score::os::Error>;

struct Wire
{
    pbt::Src* src{nullptr};
    std::vector<std::uint8_t> bytes{};
    std::size_t taken{0};
    bool pieces{false};
    unsigned interrupts{0};
    unsigned broken_after{0};  // sends, 0: never
    unsigned sends{0};
    bool reset{false};  // reading ends with an error instead of an end
    std::uint64_t cuts{0};
};
Wire* g_wire{nullptr};

class WireSocket final : public score::os::Socket
{
  public:
    Exp<ssize_t> sendto(const std::int32_t, const void* b, const size_t n, const MessageFlag, const sockaddr*, const socklen_t) const noexcept override
    {
        auto& w = *g_wire;
        ++w.sends;
        if (w.broken_after != 0U && w.sends > w.broken_after)
        {
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
        }
        if (w.interrupts > 0U && w.src->Chance(1, 3))
        {
            --w.interrupts;
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINTR));
        }
        const auto* p = static_cast<const std::uint8_t*>(b);
        std::size_t m = n;
        if (w.pieces && n > 1U && w.src->Chance(1, 2))
        {
            m = 1U + w.src->Below(n - 1U);
            ++w.cuts;
        }
        w.bytes.insert(w.bytes.end(), p, p + m);
        return static_cast<ssize_t>(m);
    }
    Exp<ssize_t> recv(const std::int32_t, void* b, const size_t n, const MessageFlag) const noexcept override
    {
        auto& w = *g_wire;
        if (w.interrupts > 0U && w.src->Chance(1, 3))
        {
            --w.interrupts;
            return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINTR));
        }
        const auto left = w.bytes.size() - w.taken;
        if (left == 0U)
        {
            if (w.reset)
            {
                return score::cpp::make_unexpected(score::os::Error::createFromErrno(ECONNRESET));
            }
            return 0;
        }
        std::size_t m = std::min(n, left);
        if (w.pieces && m > 1U && w.src->Chance(1, 2))
        {
            m = 1U + w.src->Below(m - 1U);
            ++w.cuts;
        }
        std::memcpy(b, w.bytes.data() + w.taken, m);
        w.taken += m;
        return static_cast<ssize_t>(m);
    }

    Exp<std::int32_t> socket(Domain, std::int32_t, std::int32_t) const noexcept override { return No(); }
    score::cpp::expected_blank<score::os::Error> bind(std::int32_t, const struct sockaddr*, socklen_t) const noexcept override { return No(); }
    score::cpp::expected_blank<score::os::Error> listen(std::int32_t, std::int32_t) const noexcept override { return No(); }
    Exp<std::int32_t> accept(std::int32_t, struct sockaddr*, socklen_t*) const noexcept override { return No(); }
    score::cpp::expected_blank<score::os::Error> connect(std::int32_t, const struct sockaddr*, socklen_t) const noexcept override { return No(); }
    score::cpp::expected_blank<score::os::Error> setsockopt(std::int32_t, std::int32_t, std::int32_t, const void*, socklen_t) const noexcept override { return No(); }
    score::cpp::expected_blank<score::os::Error> getsockopt(std::int32_t, std::int32_t, std::int32_t, void*, socklen_t*) const noexcept override { return No(); }
    Exp<ssize_t> send(const std::int32_t s, const void* b, const size_t n, const MessageFlag f) const noexcept override { return sendto(s, b, n, f, nullptr, 0); }
    Exp<ssize_t> recvmsg(std::int32_t, struct msghdr*, MessageFlag) const noexcept override { return No(); }
    Exp<ssize_t> sendmsg(std::int32_t, const struct msghdr*, MessageFlag) const noexcept override { return No(); }

  private:
    static score::cpp::unexpected<score::os::Error> No() { return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOTSUP)); }
};

Content Any(pbt::Src& src)
{
    if (src.Chance(1, 6))
    {
        Content c;
        c.type = MessageType::kAckResponse;
        c.acked = src.Int<std::uint32_t>();
        return c;
    }
    auto c = Generate(src, (src.Bool() ? "/s" : "s") + Name(src, src.Chance(1, 5) ? 300U : 20U));
    if (src.Chance(1, 8) && !c.element.empty())
    {
        c.element = Name(src, 1200U);
    }
    if (c.type == MessageType::kProvideServiceRequest && src.Chance(1, 4))
    {
        for (auto n = src.Below(60); n > 0U; --n)
        {
            c.elements.push_back({Name(src, 30U), {static_cast<std::size_t>(src.Int<std::uint64_t>()), static_cast<std::size_t>(1U) << src.Below(8)}});
        }
    }
    return c;
}
}  // namespace

PBT_PROPERTY(gateway_codec, 60000, 20000000)
{
    WireSocket socket;
    Wire wire;
    wire.src = &src;
    struct Guard
    {
        Guard(WireSocket& s, Wire& w)
        {
            g_wire = &w;
            score::os::Socket::set_testing_instance(s);
        }
        ~Guard()
        {
            score::os::Socket::restore_instance();
            g_wire = nullptr;
        }
    } guard{socket, wire};
    wire.pieces = src.Chance(3, 4);
    wire.interrupts = src.Chance(1, 2) ? static_cast<unsigned>(src.Below(40)) : 0U;
    auto sender = std::make_unique<MessageFramer>();
    auto receiver = std::make_unique<MessageFramer>();
    std::vector<Content> sent;
    std::vector<std::uint32_t> numbers;
    std::vector<std::size_t> ends;  // of the messages in the stream
    std::uint64_t too_large{0}, large{0};
    const auto count = 1U + src.Below(8);
    for (std::size_t i = 0; i < count; ++i)
    {
        const auto c = Any(src);
        std::vector<std::string> names;
        auto m = MakeMessage(c, names);
        const auto number = src.Int<std::uint32_t>();
        m->SetSequenceNumber(number);
        Scramble(names);
        const auto before = wire.bytes.size();
        const auto r = sender->SendMessage(7, *m);
        PBT_CHECK(ctx, ContentOf(*m) == c, "sending changes the message");
        if (!r.has_value())
        {
            PBT_CHECK(ctx, wire.bytes.size() == before, "%zu bytes of a message that cannot be sent are sent", wire.bytes.size() - before);
            // only the largest messages do not fit: count what their contents need at least
            std::size_t need = c.specifier.size() + c.element.size() + 2U;
            for (auto& e : c.elements)
            {
                need += e.first.size() + 1U + sizeof(DataTypeMetaInfo);
            }
            PBT_CHECK(ctx, need + 40U > MessageFramer::kMaxPayloadSize, "a message of %zu bytes cannot be sent", need);
            ++too_large;
            continue;
        }
        PBT_CHECK(ctx, wire.bytes.size() - before <= MessageHeader::kWireSize + MessageFramer::kMaxPayloadSize, "a message takes %zu bytes", wire.bytes.size() - before);
        large += wire.bytes.size() - before > 512U ? 1U : 0U;
        sent.push_back(c);
        numbers.push_back(number);
        ends.push_back(wire.bytes.size());
    }
    // what is done to the stream: nothing, its end is cut off, or bytes of one message are changed
    const auto damage = src.Below(3);
    std::size_t intact = sent.size();
    std::size_t flips{0};
    bool header_says_no{false};
    if (damage == 1U && !wire.bytes.empty())
    {
        wire.bytes.resize(src.Below(wire.bytes.size()));
        wire.reset = src.Bool();
        intact = 0;
        while (intact < ends.size() && ends[intact] <= wire.bytes.size())
        {
            ++intact;
        }
    }
    else if (damage == 2U && !sent.empty())
    {
        intact = src.Below(sent.size());
        const auto begin = intact == 0U ? 0U : ends[intact - 1U];
        const auto end = ends[intact];
        const auto kind = src.Below(5);
        MessageHeader h{};
        h.DeserializeFromBuffer(wire.bytes.data() + begin);
        if (kind == 0U)
        {
            h.payload_size = src.Chance(1, 2) ? 1025U + static_cast<std::uint32_t>(src.Below(2000)) : 1025U + static_cast<std::uint32_t>(src.Below(0xfffffbffU));
            header_says_no = true;
        }
        else if (kind == 1U)
        {
            const std::set<unsigned> known{1, 2, 3, 4, 5, 0x40, 0x80};
            unsigned t{0};
            do
            {
                t = static_cast<unsigned>(src.Below(256));
            } while (known.count(t) != 0U);
            h.type = static_cast<MessageType>(t);
            header_says_no = true;
        }
        else if (kind == 2U)
        {
            h.payload_size = static_cast<std::uint32_t>(src.Below(1025));
        }
        else if (kind == 3U)
        {
            h.type = src.PickOf<MessageType>({MessageType::kProvideServiceRequest, MessageType::kOfferServiceRequest, MessageType::kRegisterNotificationRequest, MessageType::kUpdateNotification, MessageType::kAckResponse});
        }
        h.SerializeToBuffer(wire.bytes.data() + begin);
        if (kind >= 3U)
        {
            for (auto n = src.Below(6) + (kind == 4U ? 1U : 0U); n > 0U && end > begin + MessageHeader::kWireSize; --n)
            {
                const auto at = begin + MessageHeader::kWireSize + src.Below(end - begin - MessageHeader::kWireSize);
                wire.bytes[at] = src.Bool() ? 0U : static_cast<std::uint8_t>(src.Below(256));
                ++flips;
            }
        }
    }
    wire.interrupts = src.Chance(1, 2) ? static_cast<unsigned>(src.Below(40)) : 0U;
    for (std::size_t i = 0; i < intact; ++i)
    {
        auto m = receiver->ReceiveMessage(7);
        PBT_CHECK(ctx, m != nullptr, "message %zu of %zu is not received", i, sent.size());
        PBT_CHECK(ctx, m->GetSequenceNumber() == numbers[i], "the sequence number of a message is changed");
        PBT_CHECK(ctx, ContentOf(*m) == sent[i], "the content of message %zu of type %d is changed", i, static_cast<int>(sent[i].type));
        PBT_CHECK(ctx, wire.taken == ends[i], "receiving a message takes %zu instead of %zu bytes", wire.taken, ends[i]);
    }
    if (damage != 2U)
    {
        PBT_CHECK(ctx, receiver->ReceiveMessage(7) == nullptr, "a message is received that was not sent completely");
    }
    else if (!sent.empty())
    {
        // whatever is left of the stream is read without harm; what is taken for a message is one
        for (int n = 0; n < 20; ++n)
        {
            auto m = receiver->ReceiveMessage(7);
            PBT_CHECK(ctx, m == nullptr || n > 0 || !header_says_no, "a message of unknown type or excessive size is received");
            if (m == nullptr)
            {
                break;
            }
            const auto c = ContentOf(*m);
            bool complete = c.type == MessageType::kAckResponse || !c.specifier.empty();
            for (auto& e : c.elements)
            {
                complete = complete && !e.first.empty();
            }
            if (complete && (c.element_type == ServiceElementType::INVALID || !c.element.empty()))
            {
                Wire again;
                again.src = &src;
                g_wire = &again;
                const auto r = sender->SendMessage(7, *m);
                std::unique_ptr<TransportMessage> copy = r.has_value() ? receiver->ReceiveMessage(7) : nullptr;
                g_wire = &wire;
                PBT_CHECK(ctx, !r.has_value() || (copy != nullptr && ContentOf(*copy) == c), "a received message cannot be sent on unchanged");
            }
        }
    }
    // a connection that fails while a message is sent: the sender is told
    Wire failing;
    failing.src = &src;
    failing.broken_after = 1U + static_cast<unsigned>(src.Below(3));
    failing.pieces = true;
    g_wire = &failing;
    {
        Content c;
        c.type = MessageType::kOfferServiceRequest;
        c.specifier = "abc/def";
        std::vector<std::string> names;
        auto m = MakeMessage(c, names);
        const auto r = sender->SendMessage(7, *m);
        if (r.has_value())
        {
            auto copy = receiver->ReceiveMessage(7);
            PBT_CHECK(ctx, copy != nullptr && ContentOf(*copy) == c, "sending is said to have succeeded although the connection failed");
        }
        else
        {
            PBT_CHECK(ctx, failing.sends > failing.broken_after, "sending fails without a cause");
        }
    }
    g_wire = &wire;
    ctx.Label(damage == 0U ? "whole" : damage == 1U ? "cut off" : "changed");
    ctx.Count("messages", sent.size());
    ctx.Count("too large", too_large);
    ctx.Count("over 512 bytes", large);
    ctx.Count("pieces", wire.cuts);
    if (!sent.empty())
    {
        ctx.NonTrivial();
    }
}
