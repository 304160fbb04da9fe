// The functions that code compiled with -fsanitize=thread calls at every memory access, as records for TecsHB.tla.
// (No sanitizer runtime is linked.)  Also tracks which memory belongs to Tecs.
#define VF_PLAIN
#include "vf.hh"
#include "sched.hh"
#include <new>

static void *Alloc(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    if (vf::inTecs) vf::TrackBlock(p, n);
    return p;
}
static void Free(void *p) {
    if (!p) return;
    vf::UntrackBlock(p);
    free(p);
}
void *operator new(size_t n) { return Alloc(n); }
void *operator new[](size_t n) { return Alloc(n); }
void operator delete(void *p) noexcept { Free(p); }
void operator delete[](void *p) noexcept { Free(p); }
void operator delete(void *p, size_t) noexcept { Free(p); }
void operator delete[](void *p, size_t) noexcept { Free(p); }

static std::memory_order Mo(int m) { return (std::memory_order)m; }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) \
    void __tsan_read##n(void *p) { vf::RecData(p, n, false); } \
    void __tsan_write##n(void *p) { vf::RecData(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { vf::RecData(p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { vf::RecData(p, n, true); } \
    void __tsan_read_write##n(void *p) { vf::RecData(p, n, false); vf::RecData(p, n, true); } \
    void __tsan_unaligned_read_write##n(void *p) { vf::RecData(p, n, false); vf::RecData(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { vf::RecData(p, n, false); }
void __tsan_write_range(void *p, size_t n) { vf::RecData(p, n, true); }
void __tsan_vptr_read(void **p) { vf::RecData(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { vf::RecData(p, 8, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { vf::RecData(s, n, false); vf::RecData(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { vf::RecData(s, n, false); vf::RecData(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { vf::RecData(d, n, true); return memset(d, c, n); }
#define ATOM(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int m) { vf::RecAtomic((const void *)a, 0, Mo(m)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 1, Mo(m)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 2, Mo(m)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 2, Mo(m)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 2, Mo(m)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 2, Mo(m)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 2, Mo(m)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) { vf::RecAtomic((const void *)a, 2, Mo(m)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int s, int f) { \
        bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        vf::RecAtomic((const void *)a, ok ? 2 : 0, Mo(ok ? s : f)); \
        return e; \
    } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int s, int f) { \
        bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        vf::RecAtomic((const void *)a, ok ? 2 : 0, Mo(ok ? s : f)); \
        return ok; \
    } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int s, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, s, f); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { vf::RecAtomic(nullptr, 3, Mo(m)); }
void __tsan_atomic_signal_fence(int) {}
}
