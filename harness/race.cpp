// Records the memory accesses of the library and its synchronisation, for validation against
// spec/MemoryTrace.tla.  The harness is compiled with -fsanitize=thread (instrumentation only); the
// callbacks are these, not the ones of the sanitizer's run-time library.
#include "race.hpp"
#include "sched.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace hz
{
    extern void (*on_sync)(int kind, const void* m);
    namespace
    {
        enum K { READ, WRITE, LOAD, STORE, RMW, FENCE, ACQ, REL, SACQ, SREL };
        struct Ev { uint8_t t, k, o; uint32_t n; uint64_t loc; void* pc; };
        struct Block { size_t size; uint32_t id; };

        std::map<uintptr_t, Block>& blocks() { static auto* m = new std::map<uintptr_t, Block>; return *m; }
        std::vector<Ev>& lg() { static auto* v = new std::vector<Ev>; return *v; }
        std::unordered_set<uint64_t> g_seen[MAXT];
        uint32_t g_next = 1;
        thread_local int tl_busy = 0;
        struct Busy { UserScope u; Busy() { ++tl_busy; } ~Busy() { --tl_busy; } };

        // Where is it?  0: not the library's.
        uint64_t where(const void* p)
        {
            auto& b = blocks();
            auto a = (uintptr_t)p;
            auto i = b.upper_bound(a);
            if (i == b.begin()) return 0;
            --i;
            if (a >= i->first + i->second.size) return 0;
            return ((uint64_t)i->second.id << 24) + (a - i->first);
        }
        bool on() { return g_active && tl_tid > 0 && tl_inlib > 0 && !tl_busy; }

        void put(K k, const void* p, uint32_t n, int o, void* pc)
        {
            Busy b;
            uint64_t l = k == FENCE ? 1 : where(p);
            if (!l)
            {
                if (k == READ || k == WRITE) return;
                l = (uint64_t)p | 1ull << 63;       // synchronises, whoever it belongs to
            }
            if (k == READ || k == WRITE)
            {
                if (!g_seen[tl_tid].insert(l * 31 + n * 4 + k).second) return;
            }
            else g_seen[tl_tid].clear();
            lg().push_back({ (uint8_t)tl_tid, (uint8_t)k, (uint8_t)o, n, l, pc });
        }
        void plain(K k, const void* p, uint32_t n, void* pc)
        {
            if (!on()) return;
            yield(K_MEM);
            put(k, p, n, 0, pc);
        }
        void sync(int k, const void* m)
        {
            if (!g_active || tl_tid == 0 || tl_busy) return;
            static const K ks[] = { ACQ, REL, SACQ, SREL };
            put(ks[k], m, 1, 0, nullptr);
        }
    }

    void race_new(void* p, size_t n)
    {
        if (tl_inlib <= 0 || tl_busy) return;
        Busy b;
        blocks()[(uintptr_t)p] = { n, g_next++ };
    }
    void race_free(void* p)
    {
        if (!p || tl_busy) return;
        Busy b;
        auto i = blocks().find((uintptr_t)p);
        if (i == blocks().end()) return;
        if (g_active && tl_tid > 0)
            lg().push_back({ (uint8_t)tl_tid, WRITE, 0, (uint32_t)i->second.size, (uint64_t)i->second.id << 24, __builtin_return_address(0) });
        blocks().erase(i);
    }
    void race_begin()
    {
        Busy b;
        on_sync = sync;
        lg().clear();
        for (auto& s : g_seen) s.clear();
        static bool first = true;
        if (!first) return;
        first = false;
        // Static objects of the library: "offset size" relative to main, from the symbol table.
        if (const char* e = getenv("HZ_STATICS"))
        {
            auto base = (uintptr_t)dlsym(RTLD_DEFAULT, "hz_anchor");
            long long off; unsigned long long n; int c;
            while (sscanf(e, "%lld %llu%n", &off, &n, &c) == 2) { blocks()[base + off] = { (size_t)n, g_next++ }; e += c; }
        }
    }

    // The accesses that may conflict, as JSON.
    std::string race_trace()
    {
        Busy b;
        auto& v = lg();
        // What happens to every byte
        std::unordered_map<uint64_t, std::vector<uint32_t>> bytes;
        for (uint32_t i = 0; i < v.size(); ++i)
            if (v[i].k != FENCE)
                for (uint32_t j = 0; j < v[i].n; ++j)
                    bytes[v[i].loc + j].push_back(i);
        std::map<std::vector<uint32_t>, uint64_t> groups;
        for (auto& p : bytes)
        {
            int t = -1, w = 0; bool many = false;
            for (uint32_t i : p.second)
            {
                if (t == -1) t = v[i].t; else if (t != v[i].t) many = true;
                if (v[i].k != READ && v[i].k != LOAD) w = 1;
            }
            if (many && w) groups.emplace(p.second, p.first);
        }
        std::vector<std::vector<uint32_t>> at(v.size());    // groups of an event
        uint32_t g = 0;
        for (auto& p : groups) { for (uint32_t i : p.first) at[i].push_back(g); ++g; }
        std::vector<int> name(g, 0);
        int names = 0;
        std::unordered_map<uint32_t, int> done[MAXT];       // accesses since the last synchronisation
        bool relaxed[MAXT] = {};
        struct Out { Ev e; std::vector<uint32_t> x; };
        std::vector<Out> out;
        static const char* const kn[] = { "r", "w", "ld", "st", "rm", "fe", "acq", "rel", "sacq", "srel" };
        static const char* const on[] = { "rlx", "acq", "acq", "rel", "ar", "ar" };
        const bool pcs = getenv("HZ_PC") != nullptr;
        for (size_t i = 0; i < v.size(); ++i)
        {
            auto& e = v[i];
            auto& x = at[i];
            if (e.k == FENCE) { if (!relaxed[e.t] && (e.o == 1 || e.o == 2)) continue; relaxed[e.t] = false; }
            else if (x.empty()) continue;
            if (e.k == READ || e.k == WRITE)
            {
                std::vector<uint32_t> y;
                for (uint32_t q : x)
                {
                    int& d = done[e.t][q];
                    const int bit = e.k == READ ? 1 : 3;
                    if ((d & bit) != bit) y.push_back(q);
                    d |= bit;
                }
                x.swap(y);
                if (x.empty()) continue;
            }
            else done[e.t].clear();
            if ((e.k == LOAD || e.k == RMW) && (e.o == 0 || e.o == 3)) relaxed[e.t] = true;
            // Accesses of one thread with nothing in between are one.
            if ((e.k == READ || e.k == WRITE) && !pcs && !out.empty() && out.back().e.t == e.t && out.back().e.k == e.k)
                out.back().x.insert(out.back().x.end(), x.begin(), x.end());
            else out.push_back({ e, x });
        }
        std::string r;
        bool shared = false;
        for (auto& q : out)
        {
            auto& e = q.e;
            std::vector<int> ns;
            for (uint32_t y : q.x) { if (!name[y]) name[y] = ++names; ns.push_back(name[y]); }
            std::sort(ns.begin(), ns.end());
            if (e.k == SACQ || e.k == SREL) shared = true;
            r += (r.empty() ? "" : ",") + std::string("{\"t\":") + std::to_string(e.t) + ",\"k\":\"" + kn[e.k] + "\"";
            if (e.k >= LOAD && e.k <= FENCE) r += std::string(",\"o\":\"") + on[e.o] + "\"";
            r += ",\"x\":[";
            for (size_t j = 0; j < ns.size(); ++j) r += (j ? "," : "") + std::to_string(ns[j]);
            r += "]";
            if (pcs) r += ",\"pc\":" + std::to_string((long long)((uintptr_t)e.pc - (uintptr_t)dlsym(RTLD_DEFAULT, "hz_anchor")));
            r += "}";
        }
        r = "\"n\":" + std::to_string(names) + ",\"sh\":" + (shared ? "true" : "false") + ",\"ev\":[" + r + "]";
        return r;
    }
}

extern "C"
{
    int hz_anchor = 0;
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* p) { hz::plain(hz::READ, p, n, PC); } \
              void __tsan_write##n(void* p) { hz::plain(hz::WRITE, p, n, PC); } \
              void __tsan_read_write##n(void* p) { hz::plain(hz::READ, p, n, PC); hz::plain(hz::WRITE, p, n, PC); } \
              void __tsan_unaligned_read##n(void* p) { hz::plain(hz::READ, p, n, PC); } \
              void __tsan_unaligned_write##n(void* p) { hz::plain(hz::WRITE, p, n, PC); } \
              void __tsan_unaligned_read_write##n(void* p) { hz::plain(hz::READ, p, n, PC); hz::plain(hz::WRITE, p, n, PC); } \
              void __tsan_volatile_read##n(void* p) { hz::plain(hz::READ, p, n, PC); } \
              void __tsan_volatile_write##n(void* p) { hz::plain(hz::WRITE, p, n, PC); } \
              void __tsan_unaligned_volatile_read##n(void* p) { hz::plain(hz::READ, p, n, PC); } \
              void __tsan_unaligned_volatile_write##n(void* p) { hz::plain(hz::WRITE, p, n, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { hz::plain(hz::READ, p, (uint32_t)n, PC); }
    void __tsan_write_range(void* p, unsigned long n) { hz::plain(hz::WRITE, p, (uint32_t)n, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) hz::plain(hz::WRITE, p, 8, PC); else hz::plain(hz::READ, p, 8, PC); }
    void __tsan_vptr_read(void** p) { hz::plain(hz::READ, p, 8, PC); }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n)
    { if (n) { hz::plain(hz::READ, s, (uint32_t)n, PC); hz::plain(hz::WRITE, d, (uint32_t)n, PC); } return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, unsigned long n)
    { if (n) { hz::plain(hz::READ, s, (uint32_t)n, PC); hz::plain(hz::WRITE, d, (uint32_t)n, PC); } return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, unsigned long n)
    { if (n) hz::plain(hz::WRITE, d, (uint32_t)n, PC); return memset(d, c, n); }

#define ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int mo) { AY(); T r = __atomic_load_n(a, 5); REC(LOAD, mo); return r; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { AY(); __atomic_store_n(a, v, 5); REC(STORE, mo); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { AY(); T r = __atomic_exchange_n(a, v, 5); REC(RMW, mo); return r; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { AY(); T r = __atomic_fetch_add(a, v, 5); REC(RMW, mo); return r; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { AY(); T r = __atomic_fetch_sub(a, v, 5); REC(RMW, mo); return r; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { AY(); T r = __atomic_fetch_and(a, v, 5); REC(RMW, mo); return r; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { AY(); T r = __atomic_fetch_or(a, v, 5); REC(RMW, mo); return r; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { AY(); T r = __atomic_fetch_xor(a, v, 5); REC(RMW, mo); return r; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int mo) { AY(); T r = __atomic_fetch_nand(a, v, 5); REC(RMW, mo); return r; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    { AY(); bool r = __atomic_compare_exchange_n(a, c, v, false, 5, 5); if (r) { REC(RMW, mo); } else { REC(LOAD, fmo); } return r; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    { AY(); bool r = __atomic_compare_exchange_n(a, c, v, false, 5, 5); if (r) { REC(RMW, mo); } else { REC(LOAD, fmo); } return r; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
    { AY(); bool r = __atomic_compare_exchange_n(a, &c, v, false, 5, 5); if (r) { REC(RMW, mo); } else { REC(LOAD, fmo); } return c; }
#define AY() if (hz::on()) hz::yield(hz::K_SYNC)
#define REC(k, mo) if (hz::on()) hz::put(hz::k, (const void*)a, sizeof(*a), mo, PC)
    ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
    void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(5); if (hz::on()) hz::put(hz::FENCE, nullptr, 0, mo, PC); }
    void __tsan_atomic_signal_fence(int) {}

    // Static local variables: the end of the initialisation is a release.
    void __cxa_guard_release(void* g)
    {
        using F = void (*)(void*);
        static F f;
        if (!f) f = (F)dlsym(RTLD_NEXT, "__cxa_guard_release");
        if (hz::on()) hz::put(hz::STORE, g, 1, 3, nullptr);
        f(g);
    }
}
