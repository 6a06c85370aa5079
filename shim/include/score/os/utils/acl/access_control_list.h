#ifndef VERIF_SHIM_ACCESS_CONTROL_LIST_H
#define VERIF_SHIM_ACCESS_CONTROL_LIST_H
#include "score/os/utils/acl/i_access_control_list.h"
#include "score/os/verif_os.h"
#include <sys/stat.h>
#include <map>
#include <mutex>
#include <set>
#include <utility>
namespace score
{
namespace os
{
/// Records the grants per inode (there is no libacl here); nothing is changed on disk.
class AccessControlList : public IAccessControlList
{
  public:
    using Key = std::pair<std::uint64_t, std::uint64_t>;
    using Grants = std::set<std::pair<UserIdentifier, Acl::Permission>>;
    explicit AccessControlList(const std::int32_t fd) : fd_(fd) {}
    static std::map<Key, Grants>& Records()
    {
        static auto* m = new std::map<Key, Grants>{};
        return *m;
    }
    static std::mutex& Mutex()
    {
        static auto* m = new std::mutex{};
        return *m;
    }
    score::cpp::expected_blank<Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const noexcept override
    {
        return score::cpp::blank{};
    }
    score::cpp::expected_blank<Error> AllowUser(const UserIdentifier u, const Acl::Permission p) noexcept override
    {
        VERIF_SHIM_FAULT_("acl_allow", std::to_string(u));
        std::lock_guard<std::mutex> l(Mutex());
        Records()[KeyOf(fd_)].insert({u, p});
        return score::cpp::blank{};
    }
    score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission p) const noexcept override
    {
        std::lock_guard<std::mutex> l(Mutex());
        std::vector<UserIdentifier> v;
        for (const auto& g : Records()[KeyOf(fd_)])
        {
            if (g.second == p)
            {
                v.push_back(g.first);
            }
        }
        return v;
    }
    static Key KeyOf(const std::int32_t fd)
    {
        struct ::stat s
        {
        };
        ::fstat(fd, &s);
        return {static_cast<std::uint64_t>(s.st_dev), static_cast<std::uint64_t>(s.st_ino)};
    }

  private:
    std::int32_t fd_;
};
}  // namespace os
}  // namespace score
#endif
