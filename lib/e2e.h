// End-to-end fixture: the whole mw::com stack in one process, on real shared memory, files, sockets and inotify, with
// every path mapped below a scratch directory that the case owns.
#pragma once
#include "pbt.h"

#include "score/mw/com/runtime.h"
#include "score/mw/com/runtime_configuration.h"
#include "score/mw/com/types.h"
#include "score/os/utils/inotify/inotify_instance_impl.h"
#include "score/os/verif_os.h"

#include <chrono>
#include <filesystem>
#include <fstream>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <thread>

#include <sys/stat.h>

namespace e2e
{
namespace com = ::score::mw::com;

inline std::string Mk(const std::string& d)
{
    ::mkdir(d.c_str(), 0777);
    return d;
}

/// Scratch root of a case, removed when the case's process ends normally; leftovers go with PBT_TMP.
struct Scratch
{
    std::string root{};
    Scratch()
    {
        const char* base = std::getenv("PBT_TMP");
        std::string t = std::string{base != nullptr ? base : "/dev/shm"} + "/eXXXXXX";
        root = ::mkdtemp(&t[0]);
        Mk(root + "/dev");
        Mk(root + "/dev/shm");
        Mk(root + "/tmp");
        verif_shim::OsControl::Get().root = root;
    }
    ~Scratch()
    {
        // nobody may take the removal below for tampering
        verif_shim::InotifyControl::Get().hold = true;
        (void)verif_shim::InotifyControl::Get().Pending(1.0);
        // only ever a directory made by mkdtemp above
        if (root.find("/e") != std::string::npos && root.rfind("/dev/shm/", 0) == 0 && root.find("..") == std::string::npos)
        {
            std::error_code ec;
            std::filesystem::remove_all(root, ec);
        }
    }
};

struct Payload
{
    std::uint64_t seq;
    std::uint64_t body[5];
    std::uint64_t sum;
    static Payload Make(std::uint64_t s)
    {
        Payload p{};
        p.seq = s;
        p.sum = s;
        for (std::size_t i = 0; i < 5; ++i)
        {
            p.body[i] = pbt::Mix(s * 7 + i);
            p.sum ^= p.body[i];
        }
        return p;
    }
    bool Valid() const
    {
        const auto m = Make(seq);
        return std::memcmp(this, &m, sizeof m) == 0;
    }
};

struct ElementCfg
{
    unsigned slots{5};
    unsigned max_subs{3};
    bool enforce{true};
    bool asil_b{false};
};

inline void Start(const Scratch& s, const std::string& json)
{
    std::ofstream(s.root + "/cfg.json") << json;
    ::score::mw::com::runtime::RuntimeConfiguration rc{score::filesystem::Path{"/cfg.json"}};
    ::score::mw::com::runtime::InitializeRuntime(rc);
}

inline com::InstanceSpecifier Spec(const std::string& s)
{
    return com::InstanceSpecifier::Create(std::string{s}).value();
}

/// Polls until the condition holds; gives up after a generous wall time (used only where the code is asynchronous).
inline bool Eventually(const std::function<bool()>& f, double limit_s = 20)
{
    const auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(limit_s);
    unsigned us{50};
    while (!f())
    {
        if (std::chrono::steady_clock::now() > end)
        {
            return false;
        }
        std::this_thread::sleep_for(std::chrono::microseconds(us));
        us = std::min(us * 2, 5000U);
    }
    return true;
}

/// Waits until service discovery has handled everything that happened in the file system so far.
inline void Quiesce()
{
    (void)verif_shim::InotifyControl::Get().Drain();
}
}  // namespace e2e
