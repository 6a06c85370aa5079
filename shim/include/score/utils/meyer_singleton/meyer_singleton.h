#ifndef VERIF_SHIM_MEYER_SINGLETON_H
#define VERIF_SHIM_MEYER_SINGLETON_H
#include <utility>
namespace score
{
namespace singleton
{
template <typename T>
class MeyerSingleton
{
  public:
    template <typename... A>
    static T& GetInstance(A&&... a)
    {
        static T instance{std::forward<A>(a)...};
        return instance;
    }
    template <typename F>
    static T& GetInstanceInitializedWithCallable(F&& f)
    {
        static T instance{std::forward<F>(f)()};
        return instance;
    }
};
}  // namespace singleton
}  // namespace score
#endif
