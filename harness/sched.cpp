#include "sched.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <thread>

namespace hz
{
    thread_local int tl_tid = 0;
    thread_local int tl_inlib = 0;
    bool g_active = false;
    void (*on_sync)(int kind, const void* m) = nullptr;     // 0 lock, 1 unlock, 2 lock shared, 3 unlock shared

    namespace
    {
        void synced(int k, const void* m) { if (on_sync) on_sync(k, m); }

        struct Sem
        {
            sem_t s;
            Sem() { sem_init(&s, 0, 0); }
            void post() { sem_post(&s); }
            void wait() { while (sem_wait(&s) != 0) {} }
        };

        enum St { IDLE, READY, BLOCKED, DONE };
        Sem g_sem[MAXT];
        St g_st[MAXT];
        VMutex* g_wait[MAXT];
        std::function<void()> g_job[MAXT];
        bool g_started[MAXT];
        int g_n = 0;            // number of worker threads in this run
        Strategy g_s;
        Outcome g_o;
        std::mt19937_64 g_rng;
        double g_prio[MAXT];
        std::vector<long> g_change;
        double g_low = 0;
        long g_run = 0;         // decisions since the last switch
        thread_local int tl_guard = 0;

        // Pick among opts (opts[0] is the current thread if it can continue).
        int pick(const std::vector<int>& opts, bool cur_ready)
        {
            if (++g_o.steps > 400000) fatal_event("hang");
            if (opts.size() == 1) { g_run = 0; return 0; }
            // A thread that spins gives way eventually.
            if (cur_ready && ++g_run > 3000) { g_run = 0; return 1 + (int)(g_o.steps % (opts.size() - 1)); }
            int c = 0;
            switch (g_s.type)
            {
            case Strategy::DFS: case Strategy::REPLAY:
            {
                size_t i = g_o.choices.size();
                c = i < g_s.choices.size() ? g_s.choices[i] : 0;
                if (c >= (int)opts.size()) c = 0;
                break;
            }
            case Strategy::RND:
                // Mostly continue at memory accesses: there are many of them.
                if (cur_ready && g_rng() % (g_s.mem ? 12 : 3)) c = 0;
                else c = g_rng() % opts.size();
                break;
            case Strategy::PCT:
                for (long p : g_change)
                    if (p == g_o.steps && cur_ready) g_prio[opts[0]] = (g_low -= 1);
                for (size_t i = 1; i < opts.size(); ++i)
                    if (g_prio[opts[i]] > g_prio[opts[c]]) c = (int)i;
                break;
            }
            if (c || !cur_ready) g_run = 0;
            g_o.choices.push_back(c);
            g_o.options.push_back((int)opts.size());
            g_o.free_.push_back(!cur_ready);
            return c;
        }

        // Give the baton to some ready thread; the current thread is self.
        void resched(int self)
        {
            UserScope u;
            ++tl_guard;
            std::vector<int> opts;
            bool ready = g_st[self] == READY;
            if (ready) opts.push_back(self);
            for (int t = 1; t <= g_n; ++t) if (t != self && g_st[t] == READY) opts.push_back(t);
            if (opts.empty())
            {
                bool all = true;
                for (int t = 1; t <= g_n; ++t) all = all && g_st[t] == DONE;
                if (!all) fatal_event("deadlock");
                g_sem[0].post();    // back to main
                --tl_guard;
                return;
            }
            int n = opts[pick(opts, ready)];
            --tl_guard;
            if (n != self)
            {
                bool done = g_st[self] == DONE;     // the next run may begin right after post()
                g_sem[n].post();
                if (!done) g_sem[self].wait();
            }
        }

        void worker(int t)
        {
            tl_tid = t;
            for (;;)
            {
                g_sem[t].wait();
                g_job[t]();
                g_st[t] = DONE;
                resched(t);
            }
        }

        // Wait until m changes; called with the baton.
        void block_on(VMutex* m)
        {
            if (!g_active || tl_tid == 0) fatal_event("deadlock");
            int self = tl_tid;
            g_st[self] = BLOCKED;
            g_wait[self] = m;
            resched(self);
        }

        void wake(VMutex* m)
        {
            for (int t = 1; t <= g_n; ++t)
                if (g_st[t] == BLOCKED && g_wait[t] == m) { g_st[t] = READY; g_wait[t] = nullptr; }
        }
    }

    void yield(Kind k)
    {
        if (!g_active || tl_tid == 0 || tl_guard) return;
        if (k == K_MEM && (!g_s.mem || !tl_inlib)) return;
        resched(tl_tid);
    }

    VMutex::~VMutex()
    {
        if (owner != -1 || readers) fatal_event("crash");
    }

    void VMutex::lock()
    {
        yield(K_SYNC);
        if (owner == tl_tid && recursive) { ++count; return; }
        while (owner != -1 || readers)
        {
            if (owner == tl_tid) fatal_event("deadlock");
            block_on(this);
        }
        owner = tl_tid; count = 1;
        synced(0, this);
    }

    bool VMutex::try_lock()
    {
        yield(K_SYNC);
        if (owner == tl_tid && recursive) { ++count; return true; }
        if (owner != -1 || readers)
        {
            if (g_active && tl_tid) g_prio[tl_tid] = (g_low -= 1);
            return false;
        }
        owner = tl_tid; count = 1;
        synced(0, this);
        return true;
    }

    void VMutex::unlock()
    {
        if (owner != tl_tid) fatal_event("crash");
        if (--count == 0) { synced(1, this); owner = -1; wake(this); }
        yield(K_SYNC);
    }

    void VMutex::lock_shared()
    {
        yield(K_SYNC);
        while (owner != -1)
        {
            if (owner == tl_tid) fatal_event("deadlock");
            block_on(this);
        }
        ++readers;
        synced(2, this);
    }

    bool VMutex::try_lock_shared()
    {
        yield(K_SYNC);
        if (owner != -1) return false;
        ++readers;
        synced(2, this);
        return true;
    }

    void VMutex::unlock_shared()
    {
        if (readers <= 0) fatal_event("crash");
        synced(3, this);
        if (--readers == 0) wake(this);
        yield(K_SYNC);
    }

    Outcome run_threads(const std::vector<std::function<void()>>& jobs, const Strategy& s)
    {
        g_n = (int)jobs.size();
        g_s = s;
        g_o = Outcome();
        g_rng.seed(s.seed * 7919 + 13);
        g_low = 0;
        g_run = 0;
        g_change.clear();
        for (int i = 0; i < s.bound; ++i) g_change.push_back(1 + g_rng() % (s.steps ? s.steps : 1));
        for (int t = 1; t <= g_n; ++t)
        {
            g_prio[t] = 1 + (g_rng() % 1000000) / 1e6;
            g_st[t] = READY;
            g_wait[t] = nullptr;
            g_job[t] = jobs[t - 1];
            if (!g_started[t]) { g_started[t] = true; std::thread(worker, t).detach(); }
        }
        g_active = true;
        std::vector<int> opts;
        for (int t = 1; t <= g_n; ++t) opts.push_back(t);
        int first = opts[pick(opts, false)];
        g_sem[first].post();
        g_sem[0].wait();
        g_active = false;
        return g_o;
    }

    std::string sched_name(const Strategy& s, const Outcome& o)
    {
        char b[96];
        switch (s.type)
        {
        case Strategy::RND: snprintf(b, sizeof b, "rnd:%llu:%d", (unsigned long long)s.seed, (int)s.mem); return b;
        case Strategy::PCT: snprintf(b, sizeof b, "pct:%llu:%d:%d:%d", (unsigned long long)s.seed, s.bound, s.steps, (int)s.mem); return b;
        default: break;
        }
        std::string r = "dfs:";
        size_t n = o.choices.size();
        while (n && o.choices[n - 1] == 0) --n;
        for (size_t i = 0; i < n; ++i) r += (char)('0' + o.choices[i]);
        return r;
    }
}

// Memory accesses of instrumented code (-fsanitize-coverage=trace-loads,trace-stores).
extern "C"
{
#define CB(n) void __sanitizer_cov_load##n(void*) { hz::yield(hz::K_MEM); } \
              void __sanitizer_cov_store##n(void*) { hz::yield(hz::K_MEM); }
CB(1) CB(2) CB(4) CB(8) CB(16)
}

// Mutexes that the library uses without going through the instrumented std (interpose.hpp):
// plain builds, pthread_mutex_t, ::std::mutex.
namespace
{
    using MFn = int (*)(pthread_mutex_t*);
    template<int I> MFn real(const char* n) { static MFn f = (MFn)dlsym(RTLD_NEXT, n); return f; }
    std::map<pthread_mutex_t*, hz::VMutex>& pm() { static auto* m = new std::map<pthread_mutex_t*, hz::VMutex>; return *m; }
    hz::VMutex& vm(pthread_mutex_t* m)
    {
        hz::UserScope u;
        auto i = pm().find(m);
        if (i == pm().end())
        {
            i = pm().emplace(std::piecewise_construct, std::forward_as_tuple(m), std::forward_as_tuple()).first;
            i->second.recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
        }
        return i->second;
    }
    bool ours() { return hz::tl_inlib > 0; }
}
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!ours()) return real<0>("pthread_mutex_lock")(m);
        vm(m).lock();
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!ours()) return real<1>("pthread_mutex_trylock")(m);
        return vm(m).try_lock() ? 0 : EBUSY;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!ours()) return real<2>("pthread_mutex_unlock")(m);
        vm(m).unlock();
        return 0;
    }
}
