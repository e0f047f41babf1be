#include "sched.hpp"

#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>

#include <new>
#include <vector>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
}

namespace sched {
int threads = 1, preemptions = 1;
static int switches = 0;
int (*choose)(int) = 0;
long accesses = 0, regions = 0, bodies = 0, points = 0;
char race[512];

// ---------------------------------------------------------------- shadow memory
struct Cell {
    uint64_t key;
    uint32_t epoch;
    uint8_t m[4][MAX];  // read, write, read under a lock or atomically, write under a lock or atomically; a bit per byte
};
static Cell* table = 0;
static uint64_t size = 0, used = 0;
static uint32_t epoch = 1;
static int current = -1;   // running body; -1 outside regions
static int team = 0;
static int locked = 0, muted = 0;

static void grow() {
    uint64_t n = size ? size * 2 : 1 << 16;
    Cell* old = table;
    uint64_t os = size;
    table = (Cell*)mmap(0, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (table == MAP_FAILED) abort();
    size = n;
    used = 0;
    for (uint64_t i = 0; i < os; i++)
        if (old[i].epoch == epoch) {
            uint64_t h = (old[i].key * 0x9e3779b97f4a7c15ULL) >> 20 & (size - 1);
            while (table[h].epoch == epoch) h = (h + 1) & (size - 1);
            table[h] = old[i];
            used++;
        }
    if (old) munmap(old, os * sizeof(Cell));
}
static void forget() {
    epoch++;
    used = 0;
}
static void word(uint64_t key, uint8_t bytes, bool write, bool atomic) {
    if (!size || used * 2 >= size) grow();
    uint64_t h = (key * 0x9e3779b97f4a7c15ULL) >> 20 & (size - 1);
    while (table[h].epoch == epoch && table[h].key != key) h = (h + 1) & (size - 1);
    Cell& c = table[h];
    if (c.epoch != epoch) {
        __real_memset(&c, 0, sizeof c);
        c.key = key;
        c.epoch = epoch;
        used++;
    }
    bool safe = locked || atomic;
    for (int b = 0; b < team; b++)
        if (b != current && !race[0]) {
            uint8_t w = c.m[1][b] | (safe ? 0 : c.m[3][b]), r = c.m[0][b] | (safe ? 0 : c.m[2][b]);
            uint8_t x = (write ? (w | r) : w) & bytes;
            if (x)
                snprintf(race, sizeof race, "thread %d %s memory that thread %d %s, with no ordering between them", current, write ? "writes" : "reads", b,
                         (w & bytes) ? "writes" : "reads");
        }
    c.m[(safe ? 2 : 0) + write][current] |= bytes;
}
static uintptr_t tls_lo, tls_hi;
static void access(const void* p, size_t n, bool write, bool atomic = false) {
    if (current < 0 || muted || team == 1 || n == 0) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= tls_lo && a < tls_hi) return;
    accesses++;
    while (n) {
        int off = a & 7;
        size_t k = 8 - off;
        if (k > n) k = n;
        word(a >> 3, (uint8_t)(((1u << k) - 1) << off), write, atomic);
        a += k;
        n -= k;
    }
}
void reset() {
    race[0] = 0;
    switches = 0;
    accesses = regions = bodies = points = 0;
}

// ---------------------------------------------------------------- bodies
static const size_t STACK = 4 << 20;
static char* stacks[MAX];
static ucontext_t ctx[MAX], home;
enum State { New, Ready, AtBarrier, Done };
static State state[MAX];
static void (*body_fn)(void*);
static void* body_data;
static std::vector<void*>* quarantine = 0;
static int single_seen[MAX], single_count;
// work shared by a dynamically scheduled loop
static struct Loop {
    long next, end, incr, chunk;
    bool active;
    int entered, left;
} loop;

static void enter() {
    body_fn(body_data);
    state[current] = Done;
    swapcontext(&ctx[current], &home);
}
static void leave_to_scheduler() {
    int me = current;
    swapcontext(&ctx[me], &home);
}
static int pick(int n) { return n > 1 && choose ? choose(n) : 0; }

static void run_team(void (*fn)(void*), void* data, int n) {
    if (n <= 0) n = threads;
    if (n > MAX) n = MAX;
    if (current >= 0) {  // nested regions have a team of one
        int save_team = team;
        fn(data);
        team = save_team;
        return;
    }
    if (!tls_lo) {
        uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
        tls_lo = tp - 4096;
        tls_hi = tp + 4096;
    }
    std::vector<void*> q;
    quarantine = &q;
    regions++;
    team = n;
    body_fn = fn;
    body_data = data;
    forget();
    locked = muted = 0;
    single_count = 0;
    loop.active = false;
    for (int i = 0; i < n; i++) {
        state[i] = New;
        single_seen[i] = 0;
        if (!stacks[i]) {
            stacks[i] = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (stacks[i] == MAP_FAILED) abort();
        }
    }
    int prev = -1;
    for (;;) {
        int run[MAX], k = 0, done = 0, waiting = 0;
        for (int i = 0; i < n; i++) {
            if (state[i] == Done) done++;
            else if (state[i] == AtBarrier) waiting++;
            else run[k++] = i;
        }
        if (done == n) break;
        if (k == 0) {  // everybody is at the barrier: what came before happens before what follows
            forget();
            for (int i = 0; i < n; i++)
                if (state[i] == AtBarrier) state[i] = Ready;
            prev = -1;
            continue;
        }
        // a thread that can go on is interrupted at most `preemptions` times per execution
        int b = -1;
        if (prev >= 0 && state[prev] == Ready) {
            int at = 0;
            while (at < k && run[at] != prev) at++;
            if (at < k) {
                std::swap(run[0], run[at]);
                if (switches >= preemptions) b = prev;
            }
        }
        if (b < 0) {
            b = run[pick(k)];
            if (prev >= 0 && state[prev] == Ready && b != prev && run[0] == prev) switches++;
        }
        prev = b;
        points++;
        current = b;
        if (state[b] == New) {
            bodies++;
            getcontext(&ctx[b]);
            ctx[b].uc_stack.ss_sp = stacks[b];
            ctx[b].uc_stack.ss_size = STACK;
            ctx[b].uc_link = &home;
            makecontext(&ctx[b], enter, 0);
        }
        state[b] = Ready;
        swapcontext(&home, &ctx[b]);
        current = -1;
    }
    quarantine = 0;
    for (void* p : q) __real_free(p);
    team = 0;
}
static void barrier() {
    if (current < 0 || team == 1) return;
    state[current] = AtBarrier;
    leave_to_scheduler();
}
static void yield() {
    if (current < 0 || team == 1) return;
    leave_to_scheduler();
}
static bool loop_next(long* s, long* e) {
    yield();
    if (!loop.active || (loop.incr > 0 ? loop.next >= loop.end : loop.next <= loop.end)) return false;
    *s = loop.next;
    long left = (loop.end - loop.next + loop.incr - (loop.incr > 0 ? 1 : -1)) / loop.incr, k = loop.chunk < left ? loop.chunk : left;
    if (k < 1) k = 1;
    *e = loop.next + k * loop.incr;
    loop.next = *e;
    return true;
}
static void loop_open(long start, long end, long incr, long chunk) {
    loop.next = start;
    loop.end = end;
    loop.incr = incr;
    loop.chunk = chunk < 1 ? 1 : chunk;
    loop.active = true;
    loop.entered = loop.left = 0;
}
static bool loop_start(long start, long end, long incr, long chunk, long* s, long* e) {
    if (!loop.active) loop_open(start, end, incr, chunk);
    return loop_next(s, e);
}
static void loop_end() {
    if (++loop.left >= (team ? team : 1)) loop.active = false;
}
}  // namespace sched

using namespace sched;

// ---------------------------------------------------------------- OpenMP entry points
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n); }
#define LOOP(name)                                                                                                              \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, unsigned) {       \
        loop_open(a, b, i, c);                                                                                                  \
        Loop l = loop;                                                                                                          \
        struct D { void (*f)(void*); void* d; Loop l; };                                                                        \
        static D d;                                                                                                             \
        d = {fn, data, l};                                                                                                      \
        run_team([](void* x) { D* y = (D*)x; if (!loop.active && loop.entered == 0) loop = y->l; loop.entered++; y->f(y->d); }, &d, n); \
    }                                                                                                                           \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); }    \
    bool GOMP_loop_##name##_next(long* s, long* e) { return loop_next(s, e); }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
LOOP(static)
LOOP(ordered_dynamic)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, 1, f); }
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return loop_next(s, e); }
void GOMP_loop_end() { barrier(); loop_end(); }
void GOMP_loop_end_nowait() { loop_end(); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { locked++; }
void GOMP_critical_end() { locked--; yield(); }
void GOMP_critical_name_start(void**) { locked++; }
void GOMP_critical_name_end(void**) { locked--; yield(); }
void GOMP_atomic_start() { locked++; }
void GOMP_atomic_end() { locked--; }
void GOMP_ordered_start() { locked++; }
void GOMP_ordered_end() { locked--; }
bool GOMP_single_start() {
    if (current < 0) return true;
    if (single_seen[current]++ == single_count) { single_count++; return true; }
    return false;
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    char* b = (char*)__real_malloc(size + align);
    char* p = (char*)(((uintptr_t)b + align - 1) / align * align);
    cpy(p, data);
    fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_num_threads() { return current < 0 ? 1 : team; }
int omp_get_thread_num() { return current < 0 ? 0 : current; }
int omp_get_max_threads() { return threads; }
int omp_get_num_procs() { return threads; }
int omp_get_thread_limit() { return MAX; }
int omp_in_parallel() { return current >= 0 && team > 1; }
int omp_get_level() { return current >= 0; }
int omp_get_dynamic() { return 0; }
void omp_set_num_threads(int n) { threads = n < 1 ? 1 : n > MAX ? MAX : n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void*) { locked++; }
void omp_unset_lock(void*) { locked--; yield(); }

// ---------------------------------------------------------------- accesses
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define RW(n)                                                        \
    void __tsan_read##n(void* p) { access(p, n, false); }            \
    void __tsan_write##n(void* p) { access(p, n, true); }            \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); }  \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); }  \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); }   \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T)                                                                                                   \
    T __tsan_atomic##bits##_load(const T* p, int) { access(p, sizeof(T), false, true); return *p; }                   \
    void __tsan_atomic##bits##_store(T* p, T v, int) { access(p, sizeof(T), true, true); *p = v; }                    \
    T __tsan_atomic##bits##_exchange(T* p, T v, int) { access(p, sizeof(T), true, true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(T* p, T v, int) { access(p, sizeof(T), true, true); T o = *p; *p += v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(T* p, T v, int) { access(p, sizeof(T), true, true); T o = *p; *p -= v; return o; } \
    T __tsan_atomic##bits##_fetch_and(T* p, T v, int) { access(p, sizeof(T), true, true); T o = *p; *p &= v; return o; } \
    T __tsan_atomic##bits##_fetch_or(T* p, T v, int) { access(p, sizeof(T), true, true); T o = *p; *p |= v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(T* p, T v, int) { access(p, sizeof(T), true, true); T o = *p; *p ^= v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(T* p, T* c, T v, int, int) {                                    \
        access(p, sizeof(T), true, true);                                                                             \
        if (*p == *c) { *p = v; return 1; }                                                                           \
        *c = *p;                                                                                                      \
        return 0;                                                                                                     \
    }                                                                                                                 \
    int __tsan_atomic##bits##_compare_exchange_weak(T* p, T* c, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, a, b); } \
    T __tsan_atomic##bits##_compare_exchange_val(T* p, T c, T v, int a, int b) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, a, b); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// library calls that read or write memory
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
// memory freed inside a region is not reused before its end
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) {
    if (current < 0 || !p) return __real_realloc(p, n);
    void* q = __real_malloc(n);
    size_t k = *((size_t*)p - 1) & ~7ul;  // size of the old chunk
    __real_memcpy(q, p, k - 8 < n ? k - 8 : n);
    quarantine->push_back(p);
    return q;
}
void __wrap_free(void* p) {
    if (current >= 0 && p && quarantine) {
        int save = current;
        current = -1;
        quarantine->push_back(p);
        current = save;
    } else
        __real_free(p);
}
// static locals: initialised once, before anyone uses them
int __wrap___cxa_guard_acquire(void* g) {
    int r = __real___cxa_guard_acquire(g);
    if (r) muted++;
    return r;
}
void __wrap___cxa_guard_release(void* g) {
    __real___cxa_guard_release(g);
    muted--;
}
}
void* operator new(size_t n) {
    void* p = __real_malloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
