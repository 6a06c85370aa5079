// Recording stand-in for the generic trace library: every call goes to the installed backend.
#ifndef VERIF_SHIM_GENERIC_TRACE_API_H
#define VERIF_SHIM_GENERIC_TRACE_API_H
#include "score/analysis/tracing/common/interface_types/types.h"
namespace score
{
namespace analysis
{
namespace tracing
{
class TraceBackend
{
  public:
    virtual ~TraceBackend() = default;
    virtual RegisterClientResult RegisterClient(BindingType, const std::string&) { return TraceClientId{1}; }
    virtual TraceResult RegisterTraceDoneCB(TraceClientId, TraceDoneCallBackType) { return score::Blank{}; }
    virtual RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId, int) { return ShmObjectHandle{1}; }
    virtual TraceResult UnregisterShmObject(TraceClientId, ShmObjectHandle) { return score::Blank{}; }
    virtual TraceResult TraceShm(TraceClientId, const AraComMetaInfo&, const ShmDataChunkList&, TraceContextId)
    {
        return score::Blank{};
    }
    virtual TraceResult TraceLocal(TraceClientId, const AraComMetaInfo&, const LocalDataChunkList&)
    {
        return score::Blank{};
    }
    static TraceBackend*& Current()
    {
        static TraceBackend* current = new TraceBackend{};
        return current;
    }
};
class GenericTraceAPI
{
  public:
    static RegisterClientResult RegisterClient(BindingType b, const std::string& id)
    {
        return TraceBackend::Current()->RegisterClient(b, id);
    }
    static TraceResult RegisterTraceDoneCB(TraceClientId c, TraceDoneCallBackType cb)
    {
        return TraceBackend::Current()->RegisterTraceDoneCB(c, std::move(cb));
    }
    static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, int fd)
    {
        return TraceBackend::Current()->RegisterShmObject(c, fd);
    }
    static TraceResult UnregisterShmObject(TraceClientId c, ShmObjectHandle h)
    {
        return TraceBackend::Current()->UnregisterShmObject(c, h);
    }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, ShmDataChunkList& l, TraceContextId id)
    {
        return TraceBackend::Current()->TraceShm(c, m, l, id);
    }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, LocalDataChunkList& l)
    {
        return TraceBackend::Current()->TraceLocal(c, m, l);
    }
};
}  // namespace tracing
}  // namespace analysis
}  // namespace score
#endif
