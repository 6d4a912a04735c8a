// Code compiled with -fsanitize=thread calls these at every memory access.
// Instead of looking for races they make a thread pause now and then, so that
// the interleavings of the accesses vary widely. VERIF_JITTER is the mean
// number of accesses between pauses (0: none). An update of what another thread
// wrote last is where updates get lost: a thread often pauses before it.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#else
static int omp_in_parallel() { return 1; }
static int omp_get_thread_num() { return 0; }
static int omp_get_num_threads() { return 1; }
#endif
#define API extern "C" __attribute__((visibility("default")))
static unsigned mean()
{
    static unsigned m = [] { const char* c = std::getenv("VERIF_JITTER"); return c ? (unsigned)std::atoi(c) : 0u; }();
    return m;
}
static uint64_t seed()
{
    static uint64_t s = [] { const char* c = std::getenv("VERIF_JITTER_SEED"); return c ? std::strtoull(c, nullptr, 10) : 1ull; }();
    return s;
}
static thread_local uint64_t state = 0;
static thread_local unsigned left = 0;
static uint64_t rnd()
{
    static unsigned threads = 0;
    if (!state) state = (seed() + 977 * __atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED)) * 0x9E3779B97F4A7C15ULL | 1;
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    return state * 0x2545F4914F6CDD1DULL >> 20;
}
// the threads of a parallel region wait for each other at its start, or some
// would be done before others have begun
static unsigned region = 0, arrived = 0;
static thread_local unsigned entered = 0;
static thread_local bool within = false;
static inline void start_()
{
    bool in = omp_in_parallel();
    if (within != in && omp_get_thread_num() == 0)
    {
        within = in;
        if (in) { __atomic_store_n(&arrived, 0, __ATOMIC_SEQ_CST); __atomic_add_fetch(&region, 1, __ATOMIC_SEQ_CST); }
    }
    unsigned r = __atomic_load_n(&region, __ATOMIC_RELAXED);
    if (!in || entered == r) return;
    entered = r;
    unsigned n = omp_get_num_threads();
    __atomic_add_fetch(&arrived, 1, __ATOMIC_SEQ_CST);
    for (int i = 0; i < 40 && __atomic_load_n(&arrived, __ATOMIC_SEQ_CST) < n; i++) { timespec t = {0, 50000}; nanosleep(&t, nullptr); }
}
static inline void pause_()
{
    if (mean()) start_();
    if (left > 1) { --left; return; }
    if (!mean()) { left = 1u << 30; return; }
    left = 1 + rnd() % (2 * mean());
    if (!omp_in_parallel()) return;
    uint64_t k = rnd() % 100;
    if (k < 55) sched_yield();
    else if (k < 99) { for (volatile unsigned i = 0, n = 1 + rnd() % 1000; i < n; i = i + 1) { } }
    else { timespec t = {0, (long)(1000 + rnd() % 20000)}; nanosleep(&t, nullptr); }
}
static thread_local unsigned me = 0;
// the last writer of an address, in a table that forgets
static uint64_t writers[1 << 14];
static thread_local void* reads[4];
static thread_local unsigned nreads = 0;
static inline void read_(void* a)
{
    pause_();
    reads[nreads++ & 3] = a;
}
static inline void write_(void* a)
{
    pause_();
    if (!mean()) return;
    bool update = false;                                // what it has just read?
    for (void* p : reads) update |= p == a;
    if (!update) return;
    intptr_t off = (intptr_t)a - (intptr_t)__builtin_frame_address(0);
    if (off < (1 << 17) && off > -(1 << 17)) return;    // on this thread's stack
    static unsigned threads = 0;
    if (!me) me = 1 + __atomic_fetch_add(&threads, 1, __ATOMIC_RELAXED) % 250;
    uint64_t* w = &writers[((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ULL >> 50];
    uint64_t old = __atomic_load_n(w, __ATOMIC_RELAXED);
    uint64_t now = (uint64_t)(uintptr_t)a << 8 | me;
    if (old == now) return;
    __atomic_store_n(w, now, __ATOMIC_RELAXED);
    bool last = old >> 8 == now >> 8;
    if (!last || !omp_in_parallel()) return;
    // until another thread comes to write it too, or for a while
    static thread_local unsigned waits = 400;
    if (!waits || rnd() % 3 == 0) return;
    --waits;
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long most = rnd() % 4 ? 40000 : 200000;
    do
    {
        sched_yield();
        clock_gettime(CLOCK_MONOTONIC, &t1);
    } while (__atomic_load_n(w, __ATOMIC_RELAXED) == now && (t1.tv_sec - t0.tv_sec) * 1000000000L + t1.tv_nsec - t0.tv_nsec < most);
}
API void __tsan_init() {}
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit() {}
#define ACC(n) API void __tsan_read##n(void* a) { read_(a); } API void __tsan_write##n(void* a) { write_(a); } \
    API void __tsan_unaligned_read##n(void* a) { read_(a); } API void __tsan_unaligned_write##n(void* a) { write_(a); } \
    API void __tsan_volatile_read##n(void* a) { read_(a); } API void __tsan_volatile_write##n(void* a) { write_(a); } \
    API void __tsan_unaligned_volatile_read##n(void* a) { read_(a); } API void __tsan_unaligned_volatile_write##n(void* a) { write_(a); } \
    API void __tsan_read##n##_pc(void* a, void*) { read_(a); } API void __tsan_write##n##_pc(void* a, void*) { write_(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
API void __tsan_read_range(void*, size_t) { pause_(); }
API void __tsan_write_range(void* a, size_t) { write_(a); }
API void __tsan_vptr_update(void**, void*) {}
API void __tsan_vptr_read(void**) {}
#define ATOMIC(b, T) \
    API T __tsan_atomic##b##_load(const volatile T* a, int) { pause_(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    API void __tsan_atomic##b##_store(volatile T* a, T v, int) { pause_(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { pause_(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { pause_(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { pause_(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { pause_(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { pause_(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { pause_(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { pause_(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { pause_(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { pause_(); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { pause_(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
API void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
API void __tsan_atomic_signal_fence(int) {}
