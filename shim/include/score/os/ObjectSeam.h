#ifndef VERIF_SHIM_OBJECT_SEAM_H
#define VERIF_SHIM_OBJECT_SEAM_H
namespace score
{
namespace os
{
template <typename T, typename Impl>
class ObjectSeam
{
  public:
    static T& instance() noexcept
    {
        if (testing_ != nullptr)
        {
            return *testing_;
        }
        static Impl* impl = new Impl{};
        return *impl;
    }
    static void set_testing_instance(T& t) noexcept { testing_ = &t; }
    static void restore_instance() noexcept { testing_ = nullptr; }

  private:
    static inline T* testing_{nullptr};
};
}  // namespace os
}  // namespace score
#endif
