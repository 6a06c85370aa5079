#ifndef VERIF_SHIM_QNX_MMAN_H
#define VERIF_SHIM_QNX_MMAN_H
#include "score/os/errno.h"
namespace score
{
namespace os
{
namespace qnx
{
class MmanQnx
{
  public:
    virtual ~MmanQnx() = default;
};
}  // namespace qnx
}  // namespace os
}  // namespace score
#endif
