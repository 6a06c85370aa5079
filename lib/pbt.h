// Property-based testing core: choice-sequence generation, forked workers, shrinking, replay, evidence.
//
// A case is a pure function of a sequence of bounded integer choices drawn from pbt::Src. The sequence is recorded,
// so a failing case can be shrunk (delete chunks, zero, reduce) and replayed from a file whatever the property is.
#pragma once
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
inline std::uint64_t Mix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

/// Shared mirror of the choices, so that the choices of a crashing child are known to its parent.
inline std::uint64_t* g_mirror{nullptr};
constexpr std::uint64_t kMirrorCap{1U << 18U};
inline char* g_trace_mirror{nullptr};
constexpr std::size_t kTraceCap{20000};

class Src
{
  public:
    explicit Src(std::uint64_t seed) : seed_{seed} {}
    explicit Src(std::vector<std::uint64_t> replay) : replay_{std::move(replay)}, replaying_{true} {}

    /// uniform in [0, n)
    std::uint64_t Below(std::uint64_t n)
    {
        if (n <= 1)
        {
            return 0;
        }
        std::uint64_t v{0};
        if (replaying_)
        {
            v = pos_ < replay_.size() ? replay_[pos_] : 0;
            if (v >= n)
            {
                v %= n;
            }
        }
        else
        {
            v = Raw() % n;
        }
        ++pos_;
        Push(v);
        return v;
    }
    std::uint64_t U64()
    {
        std::uint64_t v{0};
        if (replaying_)
        {
            v = pos_ < replay_.size() ? replay_[pos_] : 0;
        }
        else
        {
            v = Raw();
        }
        ++pos_;
        Push(v);
        return v;
    }
    /// inclusive
    template <typename T = std::int64_t>
    T Range(T lo, T hi)
    {
        const auto span = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo);
        if (span == ~0ull)
        {
            return static_cast<T>(U64());
        }
        return static_cast<T>(static_cast<std::uint64_t>(lo) + Below(span + 1));
    }
    /// true with probability num/den; shrinks to false
    bool Chance(unsigned num, unsigned den)
    {
        return Below(den) >= den - num;
    }
    bool Bool()
    {
        return Below(2) == 1;
    }
    template <typename C>
    auto Pick(const C& c) -> const typename C::value_type&
    {
        auto it = c.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(Below(c.size())));
        return *it;
    }
    template <typename T>
    T PickOf(std::initializer_list<T> l)
    {
        return *(l.begin() + Below(l.size()));
    }
    /// index chosen by weights
    std::size_t Weighted(std::initializer_list<unsigned> w)
    {
        unsigned total{0};
        for (auto x : w)
        {
            total += x;
        }
        auto v = Below(total);
        std::size_t i{0};
        for (auto x : w)
        {
            if (v < x)
            {
                return i;
            }
            v -= x;
            ++i;
        }
        return 0;
    }
    /// integer with boundary bias over the whole range of T
    template <typename T>
    T Int()
    {
        using L = std::numeric_limits<T>;
        switch (Below(6))
        {
            case 0:
                return static_cast<T>(Below(5));
            case 1:
                return static_cast<T>(L::max() - static_cast<T>(Below(3)));
            case 2:
                return static_cast<T>(L::min() + static_cast<T>(Below(3)));
            case 3:
            {
                const auto sh = Below(sizeof(T) * 8);
                return static_cast<T>((1ull << sh) + Below(3) - 1);
            }
            case 4:
                return static_cast<T>(Below(256));
            default:
                return static_cast<T>(U64());
        }
    }
    std::string Str(std::size_t max_len, const std::string& alphabet)
    {
        std::string s;
        const auto n = Below(max_len + 1);
        for (std::uint64_t i = 0; i < n; ++i)
        {
            s.push_back(alphabet[Below(alphabet.size())]);
        }
        return s;
    }
    template <typename T>
    void Shuffle(std::vector<T>& v)
    {
        for (std::size_t i = v.size(); i > 1; --i)
        {
            // choice 0 keeps the element in place so that a zeroed sequence is the identity
            const auto j = i - 1 - Below(i);
            std::swap(v[i - 1], v[j]);
        }
    }
    const std::vector<std::uint64_t>& Recorded() const
    {
        return rec_;
    }
    bool Exhausted() const
    {
        return replaying_ && pos_ >= replay_.size();
    }

  private:
    void Push(std::uint64_t v)
    {
        rec_.push_back(v);
        if (g_mirror != nullptr && g_mirror[0] < kMirrorCap - 1)
        {
            g_mirror[1 + g_mirror[0]] = v;
            g_mirror[0] = g_mirror[0] + 1;
        }
    }
    std::uint64_t Raw()
    {
        return Mix(seed_ ^ Mix(++ctr_ * 0xD1342543DE82EF95ull));
    }
    std::uint64_t seed_{0};
    std::uint64_t ctr_{0};
    std::vector<std::uint64_t> replay_{};
    bool replaying_{false};
    std::size_t pos_{0};
    std::vector<std::uint64_t> rec_{};
};

struct Failure
{
    std::string msg;
};
struct Discard
{
};

class Ctx
{
  public:
    void NonTrivial()
    {
        nontrivial_ = true;
    }
    void Label(const std::string& l)
    {
        labels_.insert(l);
    }
    void Count(const std::string& l, std::uint64_t n = 1)
    {
        counts_[l] += n;
    }
    __attribute__((format(printf, 2, 3))) void Note(const char* fmt, ...)
    {
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (trace_.size() < 20000)
        {
            trace_ += buf;
            trace_ += "; ";
            if (g_trace_mirror != nullptr && trace_.size() < kTraceCap)
            {
                std::memcpy(g_trace_mirror, trace_.c_str(), trace_.size() + 1);
            }
        }
    }
    [[noreturn]] __attribute__((format(printf, 2, 3))) void Fail(const char* fmt, ...)
    {
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Failure{buf};
    }
    /// Records a violation that matches a listed known finding: counted, not reported as VIOLATION.
    void Known(const std::string& key)
    {
        known_.insert(key);
    }
    bool nontrivial_{false};
    std::set<std::string> labels_{};
    std::map<std::string, std::uint64_t> counts_{};
    std::set<std::string> known_{};
    std::string trace_{};
};

#define PBT_CHECK(ctx, cond, ...)  \
    do                             \
    {                              \
        if (!(cond))               \
        {                          \
            (ctx).Fail(__VA_ARGS__); \
        }                          \
    } while (false)

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

struct Prop
{
    const char* name;
    std::function<void(Src&, Ctx&)> fn;
    std::uint64_t quick;
    std::uint64_t thorough;
    bool isolate;          // each case in its own forked process
    unsigned timeout_s;    // wall limit of one case (a case normally takes milliseconds)
    unsigned share;        // relative share of the time budget
    unsigned workers;      // 0: default
};

inline std::vector<Prop>& Props()
{
    static std::vector<Prop> p;
    return p;
}
struct Reg
{
    explicit Reg(Prop p)
    {
        Props().push_back(std::move(p));
    }
};

#define PBT_PROPERTY_EX(NAME, QUICK, THOROUGH, ISOLATE, TIMEOUT, SHARE, WORKERS)                                  \
    static void PBT_CAT(pbt_prop_, NAME)(::pbt::Src & src, ::pbt::Ctx & ctx);                                     \
    static ::pbt::Reg PBT_CAT(pbt_reg_, NAME){                                                                    \
        ::pbt::Prop{#NAME, PBT_CAT(pbt_prop_, NAME), QUICK, THOROUGH, ISOLATE, TIMEOUT, SHARE, WORKERS}};         \
    static void PBT_CAT(pbt_prop_, NAME)(::pbt::Src & src, ::pbt::Ctx & ctx)
#define PBT_PROPERTY(NAME, QUICK, THOROUGH) PBT_PROPERTY_EX(NAME, QUICK, THOROUGH, false, 30, 1, 0)

int Main(int argc, char** argv);
}  // namespace pbt
