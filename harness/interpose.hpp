// Within namespace sig, "std" finds this namespace first: everything of the standard library,
// but mutexes and atomics that are known to the scheduler.  Include before signals.hpp.
#pragma once
#include "sched.hpp"
#include <atomic>
#include <condition_variable>
#include <cstddef>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <algorithm>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <numeric>
#include <limits>
#include <typeinfo>
#include <typeindex>

namespace sig
{
namespace std
{
    using namespace ::std;

    class mutex
    {
    protected:
        ::hz::VMutex m;
        constexpr explicit mutex(bool rec) : m(rec) {}
    public:
        constexpr mutex() noexcept : m(false) {}
        mutex(const mutex&) = delete;
        mutex& operator=(const mutex&) = delete;
        void lock() { m.lock(); }
        bool try_lock() { return m.try_lock(); }
        void unlock() { m.unlock(); }
    };
    class recursive_mutex : public mutex
    {
    public:
        constexpr recursive_mutex() noexcept : mutex(true) {}
    };
    class shared_mutex : public mutex
    {
    public:
        constexpr shared_mutex() noexcept {}
        void lock_shared() { m.lock_shared(); }
        bool try_lock_shared() { return m.try_lock_shared(); }
        void unlock_shared() { m.unlock_shared(); }
    };
    class timed_mutex : public mutex
    {
    public:
        template<class D> bool try_lock_for(const D&) { return try_lock(); }
        template<class D> bool try_lock_until(const D&) { return try_lock(); }
    };
    using recursive_timed_mutex = recursive_mutex;
    using shared_timed_mutex = shared_mutex;

#ifndef RACE    // else the accesses to atomics are seen by the instrumentation
    template<class T>
    class atomic
    {
        T v;
        static void y() { ::hz::yield(::hz::K_SYNC); }
    public:
        using value_type = T;
        static constexpr bool is_always_lock_free = true;
        constexpr atomic() noexcept : v() {}
        constexpr atomic(T x) noexcept : v(x) {}
        atomic(const atomic&) = delete;
        atomic& operator=(const atomic&) = delete;
        bool is_lock_free() const noexcept { return true; }
        T load(::std::memory_order = ::std::memory_order_seq_cst) const noexcept { y(); return v; }
        void store(T x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); v = x; }
        operator T() const noexcept { y(); return v; }
        T operator=(T x) noexcept { y(); v = x; return x; }
        T exchange(T x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); T o = v; v = x; return o; }
        bool compare_exchange_strong(T& e, T d, ::std::memory_order = ::std::memory_order_seq_cst, ::std::memory_order = ::std::memory_order_seq_cst) noexcept
        {
            y();
            if (v == e) { v = d; return true; }
            e = v; return false;
        }
        bool compare_exchange_weak(T& e, T d, ::std::memory_order a = ::std::memory_order_seq_cst, ::std::memory_order b = ::std::memory_order_seq_cst) noexcept
        { return compare_exchange_strong(e, d, a, b); }
        template<class U = T> T fetch_add(U x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); T o = v; v = v + x; return o; }
        template<class U = T> T fetch_sub(U x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); T o = v; v = v - x; return o; }
        template<class U = T> T fetch_or(U x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); T o = v; v = v | x; return o; }
        template<class U = T> T fetch_and(U x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); T o = v; v = v & x; return o; }
        template<class U = T> T fetch_xor(U x, ::std::memory_order = ::std::memory_order_seq_cst) noexcept { y(); T o = v; v = v ^ x; return o; }
        T operator++() noexcept { return fetch_add(1) + 1; }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--() noexcept { return fetch_sub(1) - 1; }
        T operator--(int) noexcept { return fetch_sub(1); }
        template<class U = T> T operator+=(U x) noexcept { return fetch_add(x) + x; }
        template<class U = T> T operator-=(U x) noexcept { return fetch_sub(x) - x; }
        template<class U = T> T operator|=(U x) noexcept { return fetch_or(x) | x; }
        template<class U = T> T operator&=(U x) noexcept { return fetch_and(x) & x; }
    };
    using atomic_bool = atomic<bool>;
    using atomic_char = atomic<char>;
    using atomic_int = atomic<int>;
    using atomic_uint = atomic<unsigned>;
    using atomic_long = atomic<long>;
    using atomic_ulong = atomic<unsigned long>;
    using atomic_size_t = atomic<::std::size_t>;
    using atomic_ptrdiff_t = atomic<::std::ptrdiff_t>;
    using atomic_uint8_t = atomic<unsigned char>;
    using atomic_uint32_t = atomic<unsigned>;
    using atomic_uint64_t = atomic<unsigned long>;
    class atomic_flag
    {
        bool v = false;
    public:
        constexpr atomic_flag() noexcept {}
        template<class T> constexpr atomic_flag(T) noexcept {}
        bool test_and_set(::std::memory_order = ::std::memory_order_seq_cst) noexcept { ::hz::yield(::hz::K_SYNC); bool o = v; v = true; return o; }
        void clear(::std::memory_order = ::std::memory_order_seq_cst) noexcept { ::hz::yield(::hz::K_SYNC); v = false; }
        bool test(::std::memory_order = ::std::memory_order_seq_cst) const noexcept { ::hz::yield(::hz::K_SYNC); return v; }
    };
#endif
}
}
