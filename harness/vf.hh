// Controlled scheduler and instrumented synchronisation primitives.
//
// Included before any Tecs header.  Every std header that Tecs uses is included first; then the names of the standard
// synchronisation primitives are redirected (by macros) to instrumented versions in namespace std, so that the
// unmodified Tecs sources call the scheduler at every atomic operation, wait, notify and yield.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#if __cplusplus >= 202002L
    #include <barrier>
    #include <latch>
    #include <semaphore>
    #include <span>
    #include <version>
#endif

namespace vf {
    extern thread_local int tid; // logical thread of the calling OS thread, -1 if it is not controlled

    enum class Acc { Load, Store, Rmw, CasFail, Fence };

    // ---- called by the instrumented primitives -------------------------------------------------------------------
    void Point();                                  // scheduling point
    void Modified();                               // some shared synchronisation state changed
    void BlockOn(const void *addr);                // sleep until NotifyAll/NotifyOne(addr)
    void Notify(const void *addr, bool all);
    void SpinHint();                               // yield()/sleep(): let somebody else change something first
    void Pause();                                  // a voluntary switch
    bool SpuriousFail();                           // compare_exchange_weak may fail
    void LogAtomic(const void *addr, Acc a, std::memory_order mo, uint64_t v);
    void LogData(const void *addr, int kind);      // 0 read, 1 write, 2 construct, 3 destroy
    void NewAtomic(const void *addr);
    void RawCopy(void *to, const void *from, size_t n);
    uint64_t Now();                                 // the next instant of a strictly increasing virtual time

    // Memory allocated while a scope is open belongs to Tecs (for the happens-before traces).
    extern thread_local int inTecs;
    struct TecsScope {
        TecsScope() { inTecs++; }
        ~TecsScope() { inTecs--; }
    };

    inline std::memory_order FailOrder(std::memory_order m) {
        if (m == std::memory_order_acq_rel) return std::memory_order_acquire;
        if (m == std::memory_order_release) return std::memory_order_relaxed;
        return m;
    }

    template<typename T>
    inline uint64_t Bits(const T &v) {
        uint64_t r = 0;
        memcpy(&r, &v, sizeof(T) < 8 ? sizeof(T) : 8);
        return r;
    }

#ifdef VF_TSAN
    // Accesses that the compiler's instrumentation does not see
    template<typename T>
    struct Inner {
        T x;
        constexpr Inner(T y) noexcept : x(y) {}
        T load() const noexcept { T r; RawCopy(&r, &x, sizeof(T)); return r; }
        void store(T y) noexcept { RawCopy(&x, &y, sizeof(T)); }
        T exchange(T y) noexcept { T r = load(); store(y); return r; }
    };
#else
    template<typename T> using Inner = std::atomic<T>;
#endif

    // All controlled threads run one at a time, so a plain value would do; an atomic keeps uncontrolled use legal.
    template<typename T>
    struct Atomic {
        mutable Inner<T> v;
        using value_type = T;
        static constexpr bool is_always_lock_free = true;

        Atomic() noexcept : v(T()) { NewAtomic(this); }
        constexpr Atomic(T x) noexcept : v(x) {}
        Atomic(const Atomic &) = delete;
        Atomic &operator=(const Atomic &) = delete;

        bool is_lock_free() const noexcept { return true; }
        T load(std::memory_order mo = std::memory_order_seq_cst) const noexcept {
            Point();
            T r = v.load();
            LogAtomic(this, Acc::Load, mo, Bits(r));
            return r;
        }
        void store(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept {
            Point();
            v.store(x);
            LogAtomic(this, Acc::Store, mo, Bits(x));
            Modified();
        }
        operator T() const noexcept { return load(); }
        T operator=(T x) noexcept { store(x); return x; }
        T exchange(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept {
            Point();
            T r = v.exchange(x);
            LogAtomic(this, Acc::Rmw, mo, Bits(x));
            Modified();
            return r;
        }
        bool Cas(T &e, T d, std::memory_order s, std::memory_order f, bool weak) noexcept {
            Point();
            T cur = v.load();
            if (memcmp(&cur, &e, sizeof(T)) == 0 && !(weak && SpuriousFail())) {
                v.store(d);
                LogAtomic(this, Acc::Rmw, s, Bits(d));
                Modified();
                return true;
            }
            LogAtomic(this, Acc::Load, f, Bits(cur));
            e = cur;
            return false;
        }
        bool compare_exchange_weak(T &e, T d, std::memory_order s, std::memory_order f) noexcept {
            return Cas(e, d, s, f, true);
        }
        bool compare_exchange_weak(T &e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept {
            return Cas(e, d, s, FailOrder(s), true);
        }
        bool compare_exchange_strong(T &e, T d, std::memory_order s, std::memory_order f) noexcept {
            return Cas(e, d, s, f, false);
        }
        bool compare_exchange_strong(T &e, T d, std::memory_order s = std::memory_order_seq_cst) noexcept {
            return Cas(e, d, s, FailOrder(s), false);
        }
        void wait(T old, std::memory_order mo = std::memory_order_seq_cst) const noexcept {
            while (true) {
                T cur = load(mo);
                if (memcmp(&cur, &old, sizeof(T)) != 0) return;
                BlockOn(this);
            }
        }
        void notify_one() noexcept { Point(); Notify(this, false); Point(); }
        void notify_all() noexcept { Point(); Notify(this, true); Point(); }   // what follows a release is a step of its own

        template<typename F>
        T Rmw(F f, std::memory_order mo) noexcept {
            Point();
            T old = v.load();
            T n = f(old);
            v.store(n);
            LogAtomic(this, Acc::Rmw, mo, Bits(n));
            Modified();
            return old;
        }
        T fetch_add(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept { return Rmw([&](T o) { return (T)(o + x); }, mo); }
        T fetch_sub(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept { return Rmw([&](T o) { return (T)(o - x); }, mo); }
        T fetch_and(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept { return Rmw([&](T o) { return (T)(o & x); }, mo); }
        T fetch_or(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept { return Rmw([&](T o) { return (T)(o | x); }, mo); }
        T fetch_xor(T x, std::memory_order mo = std::memory_order_seq_cst) noexcept { return Rmw([&](T o) { return (T)(o ^ x); }, mo); }
        T operator++() noexcept { return (T)(fetch_add(1) + 1); }
        T operator--() noexcept { return (T)(fetch_sub(1) - 1); }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--(int) noexcept { return fetch_sub(1); }
        T operator+=(T x) noexcept { return (T)(fetch_add(x) + x); }
        T operator-=(T x) noexcept { return (T)(fetch_sub(x) - x); }
        T operator&=(T x) noexcept { return (T)(fetch_and(x) & x); }
        T operator|=(T x) noexcept { return (T)(fetch_or(x) | x); }
    };

    struct AtomicFlag {
        Atomic<bool> b{false};
        bool test_and_set(std::memory_order mo = std::memory_order_seq_cst) noexcept { return b.exchange(true, mo); }
        void clear(std::memory_order mo = std::memory_order_seq_cst) noexcept { b.store(false, mo); }
        bool test(std::memory_order mo = std::memory_order_seq_cst) const noexcept { return b.load(mo); }
        void wait(bool o, std::memory_order mo = std::memory_order_seq_cst) const noexcept { b.wait(o, mo); }
        void notify_one() noexcept { b.notify_one(); }
        void notify_all() noexcept { b.notify_all(); }
    };

    // Mutexes are built on the instrumented atomics, so their happens-before edges are logged, too.
    struct Mutex {
        Atomic<uint32_t> s{0};
        void lock() {
            while (true) {
                uint32_t e = 0;
                if (s.compare_exchange_strong(e, 1, std::memory_order_acquire, std::memory_order_relaxed)) return;
                s.wait(e, std::memory_order_relaxed);
            }
        }
        bool try_lock() {
            uint32_t e = 0;
            return s.compare_exchange_strong(e, 1, std::memory_order_acquire, std::memory_order_relaxed);
        }
        void unlock() {
            s.store(0, std::memory_order_release);
            s.notify_all();
        }
    };
    struct RecursiveMutex {
        Mutex m;
        int owner = -2, depth = 0;
        void lock() {
            if (owner == tid && depth) { depth++; return; }
            m.lock(); owner = tid; depth = 1;
        }
        bool try_lock() {
            if (owner == tid && depth) { depth++; return true; }
            if (!m.try_lock()) return false;
            owner = tid; depth = 1;
            return true;
        }
        void unlock() { if (--depth == 0) { owner = -2; m.unlock(); } }
    };
    struct SharedMutex {
        Atomic<uint32_t> s{0}; // UINT32_MAX: exclusive
        void lock() {
            while (true) {
                uint32_t e = 0;
                if (s.compare_exchange_strong(e, UINT32_MAX, std::memory_order_acquire, std::memory_order_relaxed)) return;
                s.wait(e, std::memory_order_relaxed);
            }
        }
        bool try_lock() {
            uint32_t e = 0;
            return s.compare_exchange_strong(e, UINT32_MAX, std::memory_order_acquire, std::memory_order_relaxed);
        }
        void unlock() { s.store(0, std::memory_order_release); s.notify_all(); }
        bool try_lock_shared() {
            uint32_t e = s.load(std::memory_order_relaxed);
            while (e != UINT32_MAX)
                if (s.compare_exchange_strong(e, e + 1, std::memory_order_acquire, std::memory_order_relaxed)) return true;
            return false;
        }
        void lock_shared() {
            while (!try_lock_shared()) s.wait(UINT32_MAX, std::memory_order_relaxed);
        }
        void unlock_shared() { s.fetch_sub(1, std::memory_order_release); s.notify_all(); }
    };
    struct CondVar {
        Atomic<uint32_t> seq{0};
        void notify_one() { seq.fetch_add(1); seq.notify_all(); }
        void notify_all() { seq.fetch_add(1); seq.notify_all(); }
        template<typename L> void wait(L &l) {
            uint32_t s = seq.load();
            l.unlock();
            seq.wait(s);
            l.lock();
        }
        template<typename L, typename P> void wait(L &l, P p) { while (!p()) wait(l); }
        template<typename L, typename D> std::cv_status wait_for(L &l, const D &) { wait(l); return std::cv_status::no_timeout; }
        template<typename L, typename D, typename P> bool wait_for(L &l, const D &, P p) { wait(l, p); return true; }
    };
    inline void Fence(std::memory_order mo) { Point(); LogAtomic(nullptr, Acc::Fence, mo, 0); }
} // namespace vf

#ifndef VF_PLAIN
namespace std {
    template<typename T> using vf_atomic = vf::Atomic<T>;
    using vf_atomic_flag = vf::AtomicFlag;
    using vf_mutex = vf::Mutex;
    using vf_recursive_mutex = vf::RecursiveMutex;
    using vf_shared_mutex = vf::SharedMutex;
    using vf_condition_variable = vf::CondVar;
    using vf_condition_variable_any = vf::CondVar;
    inline void vf_atomic_thread_fence(memory_order mo) { vf::Fence(mo); }
    #define VF_T(n, t) using vf_atomic_##n = vf::Atomic<t>;
    VF_T(bool, bool) VF_T(char, char) VF_T(int, int) VF_T(uint, unsigned) VF_T(long, long) VF_T(ulong, unsigned long)
    VF_T(llong, long long) VF_T(ullong, unsigned long long) VF_T(size_t, size_t) VF_T(ptrdiff_t, ptrdiff_t)
    VF_T(int8_t, int8_t) VF_T(uint8_t, uint8_t) VF_T(int16_t, int16_t) VF_T(uint16_t, uint16_t)
    VF_T(int32_t, int32_t) VF_T(uint32_t, uint32_t) VF_T(int64_t, int64_t) VF_T(uint64_t, uint64_t)
    VF_T(uintptr_t, uintptr_t) VF_T(intptr_t, intptr_t)
    VF_T(uint_fast32_t, uint_fast32_t) VF_T(uint_fast64_t, uint_fast64_t) VF_T(uint_least32_t, uint_least32_t)
    #undef VF_T
    namespace this_thread {
        inline void vf_yield() { vf::SpinHint(); }
        template<typename D> inline void vf_sleep_for(const D &) { vf::SpinHint(); }
        template<typename D> inline void vf_sleep_until(const D &) { vf::SpinHint(); }
    }
}
    #define atomic vf_atomic
    #define atomic_flag vf_atomic_flag
    #define atomic_bool vf_atomic_bool
    #define atomic_char vf_atomic_char
    #define atomic_int vf_atomic_int
    #define atomic_uint vf_atomic_uint
    #define atomic_long vf_atomic_long
    #define atomic_ulong vf_atomic_ulong
    #define atomic_llong vf_atomic_llong
    #define atomic_ullong vf_atomic_ullong
    #define atomic_size_t vf_atomic_size_t
    #define atomic_ptrdiff_t vf_atomic_ptrdiff_t
    #define atomic_int8_t vf_atomic_int8_t
    #define atomic_uint8_t vf_atomic_uint8_t
    #define atomic_int16_t vf_atomic_int16_t
    #define atomic_uint16_t vf_atomic_uint16_t
    #define atomic_int32_t vf_atomic_int32_t
    #define atomic_uint32_t vf_atomic_uint32_t
    #define atomic_int64_t vf_atomic_int64_t
    #define atomic_uint64_t vf_atomic_uint64_t
    #define atomic_uintptr_t vf_atomic_uintptr_t
    #define atomic_intptr_t vf_atomic_intptr_t
    #define atomic_uint_fast32_t vf_atomic_uint_fast32_t
    #define atomic_uint_fast64_t vf_atomic_uint_fast64_t
    #define atomic_uint_least32_t vf_atomic_uint_least32_t
    #define atomic_thread_fence vf_atomic_thread_fence
    #define mutex vf_mutex
    #define recursive_mutex vf_recursive_mutex
    #define shared_mutex vf_shared_mutex
    #define condition_variable vf_condition_variable
    #define condition_variable_any vf_condition_variable_any
    #define yield vf_yield
    #define sleep_for vf_sleep_for
    #define sleep_until vf_sleep_until
#endif
