#ifndef VERIF_SHIM_TRACING_TYPES_H
#define VERIF_SHIM_TRACING_TYPES_H
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/optional.hpp"
#include "score/result/result.h"
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <variant>
#include <vector>
namespace score
{
namespace analysis
{
namespace tracing
{
using TraceClientId = std::uint8_t;
using TraceContextId = std::uint32_t;
using ShmObjectHandle = std::int32_t;
enum class BindingType : std::uint8_t
{
    kUndefined = 0,
    kLoLa,
    kVector
};
enum class TracePointType : std::uint8_t
{
    kUndefined = 0,
    kProxyEventSub,
    kProxyEventUnsub,
    kProxyEventSubstateChange,
    kProxyEventSetChghdl,
    kProxyEventUnsetChghdl,
    kProxyEventChghdl,
    kProxyEventSetRechdl,
    kProxyEventUnsetRechdl,
    kProxyEventRechdl,
    kProxyEventGetSamples,
    kProxyEventSampleCb,
    kProxyFieldSub,
    kProxyFieldUnsub,
    kProxyFieldSubstateChange,
    kProxyFieldSetChghdl,
    kProxyFieldUnsetChghdl,
    kProxyFieldChghdl,
    kProxyFieldSetRechdl,
    kProxyFieldUnsetRechdl,
    kProxyFieldRechdl,
    kProxyFieldGetSamples,
    kProxyFieldSampleCb,
    kProxyFieldGet,
    kProxyFieldGetResult,
    kProxyFieldSet,
    kProxyFieldSetResult,
    kSkelEventSnd,
    kSkelEventSndA,
    kSkelFieldUpd,
    kSkelFieldUpdA,
    kSkelFieldGetCall,
    kSkelFieldGetCallResult,
    kSkelFieldSetCall,
    kSkelFieldSetCallResult
};
class SharedMemoryLocation
{
  public:
    ShmObjectHandle shm_object_handle_{};
    std::size_t offset_{};
    SharedMemoryLocation() = default;
    SharedMemoryLocation(ShmObjectHandle h, std::size_t o) : shm_object_handle_(h), offset_(o) {}
};
class SharedMemoryChunk
{
  public:
    SharedMemoryLocation start_{};
    std::size_t size_{};
    SharedMemoryChunk() = default;
    SharedMemoryChunk(const SharedMemoryLocation& l, std::size_t s) : start_(l), size_(s) {}
};
class LocalDataChunk
{
  public:
    const void* start_{};
    std::size_t size_{};
    LocalDataChunk() = default;
    LocalDataChunk(const void* p, std::size_t s) : start_(p), size_(s) {}
};
template <typename C>
class ChunkList
{
  public:
    ChunkList() = default;
    explicit ChunkList(const C& root) : v_{root} {}
    void Append(const C& c) { v_.push_back(c); }
    const std::vector<C>& Chunks() const { return v_; }

  private:
    std::vector<C> v_;
};
using ShmDataChunkList = ChunkList<SharedMemoryChunk>;
using LocalDataChunkList = ChunkList<LocalDataChunk>;

class ServiceInstanceElement
{
  public:
    using ServiceIdType = std::uint32_t;
    using InstanceIdType = std::uint32_t;
    struct EventId
    {
        std::uint32_t id;
    };
    struct FieldId
    {
        std::uint32_t id;
    };
    struct MethodId
    {
        std::uint32_t id;
    };
    using StdVariantType = std::variant<EventId, FieldId, MethodId>;
    ServiceInstanceElement() = default;
    ServiceInstanceElement(ServiceIdType s, std::uint32_t maj, std::uint32_t min, InstanceIdType i, StdVariantType e)
        : service_id(s), major_version(maj), minor_version(min), instance_id(i), element(e)
    {
    }
    ServiceIdType service_id{};
    std::uint32_t major_version{};
    std::uint32_t minor_version{};
    InstanceIdType instance_id{};
    StdVariantType element{EventId{0U}};
};
class AraComProperties
{
  public:
    using TracePointDataId = std::uint32_t;
    AraComProperties(TracePointType t, ServiceInstanceElement e, score::cpp::optional<TracePointDataId> d)
        : trace_point_type(t), element(e), data_id(d)
    {
    }
    TracePointType trace_point_type;
    ServiceInstanceElement element;
    score::cpp::optional<TracePointDataId> data_id;
};
class AraComMetaInfo
{
  public:
    explicit AraComMetaInfo(AraComProperties p) : properties_(p) {}
    void SetDataLossBit() { data_loss_ = true; }
    bool DataLoss() const { return data_loss_; }
    const AraComProperties& Properties() const { return properties_; }

  private:
    AraComProperties properties_;
    bool data_loss_{false};
};
enum class ErrorCode : score::result::ErrorCode
{
    kNoErrorRecoverable = 0,
    kNotEnoughMemoryRecoverable,
    kRingBufferFullRecoverable,
    kMessageSendFailedRecoverable,
    kCallbackAlreadyRegisteredRecoverable,
    kLastRecoverable,
    kInvalidArgumentFatal = 100,
    kInvalidAppInstanceIdFatal,
    kDaemonNotConnectedFatal,
    kUnknownFatal,
    kTerminalFatal,
    kLastFatal
};
inline bool IsErrorRecoverable(const ErrorCode e)
{
    return static_cast<score::result::ErrorCode>(e) >= 0 && e < ErrorCode::kLastRecoverable;
}
class TracingErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "tracing error"; }
};
inline constexpr TracingErrorDomain kTracingErrorDomain{};
inline score::result::Error MakeError(const ErrorCode code, const std::string_view user_message = "") noexcept
{
    return {static_cast<score::result::ErrorCode>(code), kTracingErrorDomain, user_message};
}
using TraceResult = score::ResultBlank;
using RegisterClientResult = score::Result<TraceClientId>;
using RegisterSharedMemoryObjectResult = score::Result<ShmObjectHandle>;
using TraceDoneCallBackType = score::safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;
}  // namespace tracing
}  // namespace analysis
}  // namespace score
#endif
