#ifndef VERIF_SHIM_INTRUSIVE_LIST_H
#define VERIF_SHIM_INTRUSIVE_LIST_H
#include <boost/intrusive/list.hpp>
namespace score
{
namespace containers
{
struct verif_default_tag
{
};
// element unlinks on destruction check like the real type: destroying a linked element is fatal
template <typename Tag = verif_default_tag>
class intrusive_list_element
    : public boost::intrusive::list_base_hook<boost::intrusive::tag<Tag>, boost::intrusive::link_mode<boost::intrusive::safe_link>>
{
};
template <typename T, typename Tag = verif_default_tag>
class intrusive_list
    : public boost::intrusive::list<
          T,
          boost::intrusive::base_hook<
              boost::intrusive::list_base_hook<boost::intrusive::tag<Tag>, boost::intrusive::link_mode<boost::intrusive::safe_link>>>,
          boost::intrusive::constant_time_size<false>>
{
    using B = boost::intrusive::list<
        T,
        boost::intrusive::base_hook<
            boost::intrusive::list_base_hook<boost::intrusive::tag<Tag>, boost::intrusive::link_mode<boost::intrusive::safe_link>>>,
        boost::intrusive::constant_time_size<false>>;

  public:
    using B::B;
    intrusive_list() = default;
    ~intrusive_list() { this->clear(); }
    /// One element at a time, restarting from a stable position after each disposal.
    template <typename P, typename D>
    void remove_and_dispose_if(P pred, D disp)
    {
        auto it = this->begin();
        while (it != this->end())
        {
            if (pred(*it))
            {
                T* e = &*it;
                it = this->erase(it);
                disp(e);
            }
            else
            {
                ++it;
            }
        }
    }
};
}  // namespace containers
}  // namespace score
#endif
