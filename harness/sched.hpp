// Deterministic scheduler: the threads of a test program are real threads, but only the one
// that holds the baton runs.  At every yield point the active strategy picks the next one.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace hz
{
    enum Kind { K_SYNC, K_MEM, K_USER };

    constexpr int MAXT = 4;             // thread 0 (main) and 3 workers
    extern thread_local int tl_tid;     // logical thread id
    extern thread_local int tl_inlib;   // > 0: library code is running on this thread
    extern bool g_active;               // workers are being scheduled

    struct LibScope { int o; LibScope() : o(tl_inlib) { tl_inlib = 1; } ~LibScope() { tl_inlib = o; } };
    struct UserScope { int o; UserScope() : o(tl_inlib) { tl_inlib = 0; } ~UserScope() { tl_inlib = o; } };

    // A mutex that is known to the scheduler.
    struct VMutex
    {
        int owner = -1, count = 0, readers = 0;
        bool recursive = false;
        constexpr explicit VMutex(bool rec = false) : recursive(rec) {}
        ~VMutex();
        void lock();
        bool try_lock();
        void unlock();
        void lock_shared();
        bool try_lock_shared();
        void unlock_shared();
    };

    void yield(Kind k);

    // Scheduling strategies
    struct Strategy
    {
        enum T { DFS, RND, PCT, REPLAY } type = DFS;
        uint64_t seed = 0;
        int bound = 2;      // DFS: preemptions; PCT: depth
        int steps = 200;    // PCT: expected number of yield points
        bool mem = false;   // preempt at memory accesses as well
        std::vector<int> choices;   // REPLAY / DFS prefix: option taken at each decision
    };

    struct Outcome
    {
        std::vector<int> choices;   // option taken at each decision
        std::vector<int> options;   // number of options
        std::vector<char> free_;    // not a preemption
        long steps = 0;
    };

    // Run the jobs as threads 1..n under the strategy.
    Outcome run_threads(const std::vector<std::function<void()>>& jobs, const Strategy& s);

    // Reported by the scheduler; never returns.
    [[noreturn]] void fatal_event(const char* what);

    std::string sched_name(const Strategy& s, const Outcome& o);
}
