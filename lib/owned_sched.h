// Owned schedules: tasks run as coroutines on one OS thread; every atomic access, every access to a watched range and
// every mutex / condition variable operation of the code under test is a point where the generated schedule may switch.
//
// The code under test is compiled with -fsanitize=thread but linked against owned_sched.cpp instead of the ThreadSanitizer
// runtime, so the compiler's instrumentation calls arrive here. Values are sequentially consistent; the memory orders
// passed by the code drive a happens-before race detector (vector clocks) over the watched ranges.
#pragma once
#include "pbt.h"

#include <functional>
#include <string>
#include <vector>

namespace sched
{
struct Stats
{
    std::uint64_t switches{0};       // preemptions and blocking switches
    std::uint64_t preemptions{0};    // generated ones
    std::uint64_t points{0};         // points at which a switch was possible
    std::uint64_t spurious{0};       // injected spurious failures of weak compare-exchange
    bool deadlock{false};
    bool overrun{false};             // step limit hit
    std::string race{};              // description of the first data race on a watched range
    std::vector<bool> killed{};      // tasks that were abandoned at their kill point
};

struct Options
{
    std::uint64_t max_points{2000000};
    unsigned max_preemptions{80};
    bool spurious_cas{true};
    bool detect_races{true};
    /// The clocks show a virtual time: a microsecond per point, plus jumps to the next timeout when nothing else can go on.
    /// Sleeps and timed waits end when their time has come. Threads that tasks create become tasks, too.
    bool virtual_time{false};
    /// task index -> number of points after which it is abandoned for good (simulated crash); 0: never
    std::vector<std::uint64_t> kill_at{};
};

/// Memory in which plain accesses are switch points and are checked for races (cleared by ClearWatches)
void Watch(const void* begin, std::size_t size, const char* name);
/// before the memory is given back
void Unwatch(const void* begin, std::size_t size);
void ClearWatches();
/// a mutex of the harness: taking it does not order the accesses of the tasks
void Unordered(const void* mutex);

/// Runs the tasks to completion. Exceptions of tasks are rethrown after the run was stopped.
Stats Run(pbt::Src& src, std::vector<std::function<void()>> tasks, const Options& options = {});

/// explicit switch point for harness code
void Point();
/// index of the running task, -1 outside
int Current();
/// number of points passed by all tasks so far: a logical clock of the run
std::uint64_t Clock();
/// virtual time in nanoseconds
std::uint64_t VirtualNow();
/// plain accesses of the harness to a watched range (race-checked like the code's own)
void TouchRead(const void* p, std::size_t n);
void TouchWrite(void* p, std::size_t n);
}  // namespace sched
