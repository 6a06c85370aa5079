// Control block of the OS stand-in: path containment and fault injection.
#ifndef VERIF_SHIM_VERIF_OS_H
#define VERIF_SHIM_VERIF_OS_H
#include <functional>
#include <string>
namespace verif_shim
{
struct OsControl
{
    /// When non-empty, every absolute path the code under test opens, creates or removes is looked up below this root,
    /// and shared memory objects live in <root>/dev/shm.
    std::string root;
    /// Called before an OS operation; a non-zero return value is the errno the operation fails with.
    std::function<int(const char* op, const std::string& arg)> fault;
    /// Simulated identity (0: the real one).
    int pid{0};
    long uid{-1};
    /// Processes only reach the local sockets of processes with the same value (like those of one operating system).
    char domain{0};
    static OsControl& Get()
    {
        static OsControl* c = new OsControl{};
        return *c;
    }
    std::string Map(const std::string& p) const
    {
        if (root.empty() || p.empty() || p[0] != '/' || p.compare(0, root.size(), root) == 0)
        {
            return p;
        }
        return root + p;
    }
    std::string Unmap(const std::string& p) const
    {
        if (!root.empty() && p.compare(0, root.size(), root) == 0)
        {
            return p.substr(root.size());
        }
        return p;
    }
    int Fail(const char* op, const std::string& arg = {}) const { return fault ? fault(op, arg) : 0; }
};
}  // namespace verif_shim
#endif
