// Simulated OpenMP runtime, memory-access preemption points and failing
// allocator, linked into the exact-transport extension in place of libgomp.
//
// EMD_wrapper.cpp is compiled with -fsanitize=thread, so that the compiler
// calls a hook before every memory access; no thread sanitizer runtime is
// linked: the hooks below are the preemption points of the simulated worker
// threads.  Workers are fibers of the calling thread, exactly one runs, and a
// seeded generator decides every switch.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <ucontext.h>
#include <dlfcn.h>

extern "C" {
struct SimStats {
    uint64_t regions, team_threads, accesses, switches, barriers, sched_hash, allocs, failed, live, native_points, conflicts, shrunk;
};
}

namespace {

// ------------------------------------------------------------------ settings
struct Cfg {
    uint64_t seed = 1;
    int mode = 0;             // 0 random preemption, 1 run in seeded order, 2 priorities with change points, 3 access by access
    uint64_t interval = 50;   // mean number of accesses between preemptions
    int max_threads = 4;      // what omp_get_max_threads() reports before any omp_set_num_threads
    int shrink = 0;           // percentage of regions that get fewer threads than requested
    int64_t fail_at = 0;      // n-th allocation fails (1-based), 0: never
    int fill = 1;             // fill fresh memory with noise
    int64_t fail_count = 1;   // how many consecutive allocations fail
};
Cfg cfg;
SimStats st;
int nthreads_icv = 0;

uint64_t rs = 88172645463325252ull;
inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

// ---------------------------------------------------------------------- team
struct Fiber {
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = false, waiting = false;
    int prio = 0;
    int single_seen = 0, loop_seen = 0;
};
constexpr size_t STACK = 512 * 1024;
constexpr int MAXT = 64;

struct Loop { long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false; };

struct Team {
    int n = 1, cur = 0, at_barrier = 0, live = 0;
    Fiber f[MAXT];
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    int singles = 0;
    Loop loops[256];
    int nloops = 0;
};
Team* team = nullptr;
bool in_runtime = false;
int64_t countdown = 1;
void* critical_owner = nullptr;
int critical_fiber = -1;
uint32_t written[4096];   // address tag -> thread+1 that wrote it in this region

inline int64_t draw_interval() {
    if (cfg.mode == 3) return 1;
    uint64_t m = cfg.interval ? cfg.interval : 1;
    return 1 + (int64_t)(rnd() % (2 * m));
}

void jump(int to) {
    int from = team->cur;
    if (to == from) return;
    st.switches++;
    st.sched_hash = mix(st.sched_hash, (st.accesses << 8) | (uint64_t)to);
    team->cur = to;
    swapcontext(&team->f[from].ctx, &team->f[to].ctx);
}

int choose(bool exclude_self) {
    int c[MAXT], k = 0, best = -1;
    for (int i = 0; i < team->n; ++i)
        if (!team->f[i].done && !team->f[i].waiting && !(exclude_self && i == team->cur)) {
            c[k++] = i;
            if (best < 0 || team->f[i].prio > team->f[best].prio) best = i;
        }
    if (!k) return -1;
    if (cfg.mode == 2) return best;
    return c[rnd() % k];
}

void leave(bool must) {
    // the running fiber stops (done or waiting): someone else has to run
    int t = choose(true);
    if (t < 0) {
        if (must) { fprintf(stderr, "simrt: deadlock in a parallel region\n"); abort(); }
        return;
    }
    jump(t);
}

void release_barrier() {
    for (int i = 0; i < team->n; ++i) team->f[i].waiting = false;
    team->at_barrier = 0;
}

void barrier() {
    if (!team || team->n == 1) return;
    st.barriers++;
    int me = team->cur;
    team->f[me].waiting = true;
    team->at_barrier++;
    if (team->at_barrier >= team->live) {
        release_barrier();
        int t = choose(false);
        if (t >= 0 && t != me) jump(t);
        return;
    }
    while (team->f[me].waiting) leave(true);
}

void finish() {
    int me = team->cur;
    team->f[me].done = true;
    team->live--;
    if (team->live > 0 && team->at_barrier >= team->live) release_barrier();
}

void body() {
    team->fn(team->data);
    finish();
    // hand over for good; thread 0 is the last to be resumed
    for (;;) {
        int t = choose(true);
        if (t < 0) t = 0;
        jump(t);
    }
}

void run_team(void (*fn)(void*), void* data, unsigned want) {
    st.regions++;
    int n = want ? (int)want : (nthreads_icv > 0 ? nthreads_icv : cfg.max_threads);
    if (n > MAXT) n = MAXT;
    if (n > 1 && cfg.shrink && (int)(rnd() % 100) < cfg.shrink) { n = 1 + (int)(rnd() % n); st.shrunk++; }
    static Team pool[2];
    Team* outer = team;
    if (outer && outer == &pool[1]) { fn(data); return; }
    Team& t = pool[outer ? 1 : 0];
    t = Team();
    if (outer) n = 1;
    t.n = n; t.live = n; t.fn = fn; t.data = data;
    if (outer == nullptr && n > 1) {
        st.team_threads += n;
        memset(written, 0, sizeof written);
    }
    team = &t;
    if (n == 1) {
        fn(data);
        team = outer;
        return;
    }
    for (int i = 0; i < n; ++i) t.f[i].prio = (int)(rnd() % 1000);
    for (int i = 1; i < n; ++i) {
        getcontext(&t.f[i].ctx);
        t.f[i].stack = (char*)std::malloc(STACK);
        t.f[i].ctx.uc_stack.ss_sp = t.f[i].stack;
        t.f[i].ctx.uc_stack.ss_size = STACK;
        t.f[i].ctx.uc_link = nullptr;
        makecontext(&t.f[i].ctx, body, 0);
    }
    countdown = draw_interval();
    int first = choose(false);
    if (first != 0) jump(first);
    fn(data);
    finish();
    while (t.live > 0) {
        int k = choose(true);
        if (k < 0) { fprintf(stderr, "simrt: deadlock at the end of a parallel region\n"); abort(); }
        jump(k);
    }
    for (int i = 1; i < n; ++i) std::free(t.f[i].stack);
    team = outer;
}

// ---------------------------------------------------------- concurrent callers
typedef void (*PointFn)(void);
PointFn point_fn = nullptr;
int64_t point_in = 0, point_every = 0;
thread_local int nogil = 0;

inline void access(const void* p, bool w) {
    st.accesses++;
    if (team && team->n > 1) {
        if (in_runtime) return;
        uint32_t& tag = written[((uintptr_t)p >> 2) & 4095];
        bool hot = tag && tag != (uint32_t)team->cur + 1;
        if (hot) st.conflicts++;
        if (w) tag = (uint32_t)team->cur + 1;
        if (cfg.mode == 1) return;
        if (hot && (rnd() & 7) == 0) countdown = 1;
        if (--countdown <= 0) {
            countdown = draw_interval();
            if (cfg.mode == 2) team->f[team->cur].prio = -(int)(rnd() % 1000);
            int t = choose(cfg.mode != 2);
            if (t >= 0 && t != team->cur) jump(t);
        }
        return;
    }
    if (point_fn && nogil && --point_in <= 0) {
        point_in = point_every;
        st.native_points++;
        point_fn();
    }
}

// ------------------------------------------------------------------ allocator
void* sim_alloc(size_t n, bool& fail) {
    st.allocs++;
    fail = cfg.fail_at > 0 && (int64_t)st.allocs >= cfg.fail_at && (int64_t)st.allocs < cfg.fail_at + cfg.fail_count;
    if (fail) { st.failed++; return nullptr; }
    void* p = std::malloc(n ? n : 1);
    if (!p) { fail = true; return nullptr; }
    st.live++;
    if (cfg.fill) {
        // noise that is neither zero nor a plausible index or number
        static const unsigned char pat[8] = {0xA5, 0x5A, 0xC3, 0x7F, 0x3C, 0xF0, 0x0F, 0x99};
        unsigned char* c = (unsigned char*)p;
        for (size_t i = 0; i < n; ++i) c[i] = cfg.fill == 2 ? 0xFF : cfg.fill == 3 ? 0x01 : pat[i & 7];
    }
    return p;
}
void sim_free(void* p) { if (p) { st.live--; std::free(p); } }

} // namespace

void* operator new(size_t n) { bool f; void* p = sim_alloc(n, f); if (f) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { bool f; void* p = sim_alloc(n, f); if (f) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { bool f; return sim_alloc(n, f); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool f; return sim_alloc(n, f); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

extern "C" {

// ------------------------------------------------------------------- control
void sim_config(uint64_t seed, int mode, uint64_t interval, int max_threads, int shrink, int64_t fail_at, int64_t fail_count, int fill) {
    cfg.seed = seed; cfg.mode = mode; cfg.interval = interval; cfg.max_threads = max_threads; cfg.shrink = shrink;
    cfg.fail_at = fail_at; cfg.fail_count = fail_count; cfg.fill = fill;
    rs = seed * 0x9e3779b97f4a7c15ull + 0x1234567ull;
    if (!rs) rs = 1;
    for (int i = 0; i < 8; ++i) rnd();
    uint64_t live = st.live;
    memset(&st, 0, sizeof st);
    st.live = live;
    nthreads_icv = 0;
}
void sim_stats(SimStats* out) { *out = st; }
void sim_point(PointFn fn, int64_t first, int64_t every) { point_fn = fn; point_in = first; point_every = every; }

// ------------------------------------------------------- memory access hooks
#define RW(sz) \
    void __tsan_read##sz(void* p) { access(p, false); } \
    void __tsan_write##sz(void* p) { access(p, true); } \
    void __tsan_read_write##sz(void* p) { access(p, true); } \
    void __tsan_unaligned_read##sz(void* p) { access(p, false); } \
    void __tsan_unaligned_write##sz(void* p) { access(p, true); } \
    void __tsan_volatile_read##sz(void* p) { access(p, false); } \
    void __tsan_volatile_write##sz(void* p) { access(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { access(p, false); }
void __tsan_write_range(void* p, size_t) { access(p, true); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void** p, void*) { access(p, true); }
void __tsan_vptr_read(void** p) { access(p, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(d, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(d, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(d, true); return memset(d, v, n); }
void __tsan_atomic_thread_fence(int) { access(nullptr, false); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { access((const void*)a, false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((const void*)a, true); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((const void*)a, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((const void*)a, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((const void*)a, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((const void*)a, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((const void*)a, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((const void*)a, true); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((const void*)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((const void*)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((const void*)a, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

// -------------------------------------------------------------------- OpenMP
int omp_get_thread_num(void) { return team ? team->cur : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return nthreads_icv > 0 ? nthreads_icv : cfg.max_threads; }
void omp_set_num_threads(int n) { nthreads_icv = n > 0 ? n : 1; }
int omp_get_num_procs(void) { return cfg.max_threads; }
int omp_in_parallel(void) { return team && team->n > 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return team ? 1 : 0; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { return 1e-9 * (double)st.accesses; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_single_start(void) {
    if (!team) return true;
    Fiber& f = team->f[team->cur];
    if (f.single_seen++ < team->singles) return false;
    team->singles++;
    return true;
}
static void lock_wait() { while (critical_fiber >= 0 && team && team->n > 1 && critical_fiber != team->cur) leave(true); }
static void crit_in() { access(&critical_owner, true); lock_wait(); critical_fiber = team ? team->cur : -1; }
static void crit_out() { critical_fiber = -1; access(&critical_owner, true); }
void GOMP_critical_start(void) { crit_in(); }
void GOMP_critical_end(void) { crit_out(); }
void GOMP_critical_name_start(void**) { crit_in(); }
void GOMP_critical_name_end(void**) { crit_out(); }
void GOMP_atomic_start(void) { crit_in(); }
void GOMP_atomic_end(void) { crit_out(); }

static bool loop_next(long* s, long* e) {
    Team* t = team;
    access(t, true);
    if (!t) return false;
    Loop& l = t->loops[t->f[t->cur].loop_seen - 1];
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    long left = (l.end - l.next) / l.incr;
    long c = l.chunk;
    if (l.guided && left / (2 * t->n) > c) c = left / (2 * t->n);
    *s = l.next;
    l.next += c * l.incr;
    if (l.incr > 0 ? l.next > l.end : l.next < l.end) l.next = l.end;
    *e = l.next;
    return true;
}
static bool loop_start(long b, long en, long inc, long chunk, bool guided, long* s, long* e) {
    Team* t = team;
    if (!t) { *s = b; *e = en; return inc > 0 ? b < en : b > en; }
    Fiber& f = t->f[t->cur];
    if (f.loop_seen++ >= t->nloops && t->nloops < 256) {
        Loop& l = t->loops[t->nloops++]; l.next = b; l.end = en; l.incr = inc; l.chunk = chunk > 0 ? chunk : 1; l.guided = guided;
    }
    return loop_next(s, e);
}
#define LOOP(kind, guided) \
    bool GOMP_loop_##kind##_start(long b, long en, long inc, long ch, long* s, long* e) { return loop_start(b, en, inc, ch, guided, s, e); } \
    bool GOMP_loop_##kind##_next(long* s, long* e) { return loop_next(s, e); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long b, long en, long inc, long ch, unsigned) { \
        Pre p{fn, data, b, en, inc, ch, guided}; run_team(pre_body, &p, n); }
struct Pre { void (*fn)(void*); void* data; long b, e, i, c; bool g; };
static void pre_body(void* q) {
    Pre* p = (Pre*)q;
    Fiber& f = team->f[team->cur];
    if (f.loop_seen++ >= team->nloops && team->nloops < 256) {
        Loop& l = team->loops[team->nloops++]; l.next = p->b; l.end = p->e; l.incr = p->i; l.chunk = p->c > 0 ? p->c : 1; l.guided = p->g;
    }
    p->fn(p->data);
}
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}

// ------------------------------------------- where the interpreter lock is off
void* __real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(void*);
void* __wrap_PyEval_SaveThread(void) { void* r = __real_PyEval_SaveThread(); nogil++; return r; }
void __wrap_PyEval_RestoreThread(void* p) { nogil--; __real_PyEval_RestoreThread(p); }

} // extern "C"
