#ifndef VERIF_SHIM_QNX_MMAN_IMPL_H
#define VERIF_SHIM_QNX_MMAN_IMPL_H
#include "score/os/qnx/mman.h"
namespace score
{
namespace os
{
namespace qnx
{
class MmanQnxImpl : public MmanQnx
{
};
}  // namespace qnx
}  // namespace os
}  // namespace score
#endif
