#ifndef VERIF_SHIM_TRY_ATOMIC_ADD_H
#define VERIF_SHIM_TRY_ATOMIC_ADD_H
#include "score/language/safecpp/safe_math/safe_math.h"
#include "score/result/result.h"
#include <atomic>
#include <limits>
namespace score
{
namespace safe_atomics
{
/// Adds without wrapping; returns the previous value.
template <typename T>
score::Result<T> TryAtomicAdd(std::atomic<T>& a, const T v, const std::size_t = 10U)
{
    T cur = a.load();
    for (;;)
    {
        if (v > static_cast<T>(std::numeric_limits<T>::max() - cur))
        {
            return score::MakeUnexpected(safe_math::ErrorCode::kExceedsNumericLimits);
        }
        if (a.compare_exchange_weak(cur, static_cast<T>(cur + v)))
        {
            return cur;
        }
    }
}
}  // namespace safe_atomics
}  // namespace score
#endif
