#include "rt.hpp"
#include "ops.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void* __libc_malloc(std::size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, std::size_t);
extern "C" void* __libc_calloc(std::size_t, std::size_t);
extern "C" void* __libc_memalign(std::size_t, std::size_t);

namespace rt {
static constexpr std::size_t ARENA = 8u << 20, STACK = 8u << 20;
static thread_local int tid = -1;
static char* arena[MAXT]; static std::size_t used[MAXT];
static char* stack[MAXT];
struct Cell { std::uint32_t w, r[MAXT]; };      // w: thread in the upper byte, epoch below; r: epochs
static Cell* shadow[MAXT];
static std::uint32_t* pcs[MAXT];                // last writer's code address (offset), per byte

static bool running = false;
static std::uint32_t clk[MAXT][MAXT];
static sem_t baton[MAXT], finished;
static int nthreads;
enum State { Ready, Blocked, Done };
static State state[MAXT];
static std::uintptr_t waiting[MAXT];
static const std::vector<std::uint8_t>* prefix;
static std::vector<std::uintptr_t> sync_points, access_points;
static Outcome* out;

// maps with open addressing, kept away from malloc
template<typename V> struct Table {
    struct E { std::uintptr_t k; V v; };
    E* e = nullptr; std::size_t cap = 0, n = 0;
    V& get(std::uintptr_t k) {
        if (n * 2 >= cap) grow();
        for (std::size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (e[i].k == k) return e[i].v;
            if (!e[i].k) { e[i].k = k; ++n; return e[i].v; }
        }
    }
    void grow() {
        E* o = e; std::size_t oc = cap;
        cap = cap ? cap * 2 : 1 << 12; n = 0;
        e = static_cast<E*>(mmap(nullptr, cap * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        for (std::size_t i = 0; i < oc; ++i) if (o[i].k) get(o[i].k) = o[i].v;
        if (o) munmap(o, oc * sizeof(E));
    }
};
struct GCell { Cell c; std::uint32_t pc; };
static Table<GCell> others;
struct Sync { std::uint32_t vc[MAXT]; int owner; int readers; std::uint8_t seen; bool held; };
static Table<Sync> syncs;
static std::uintptr_t base;

void setup() {
    for (int i = 0; i < MAXT; ++i) {
        auto m = [](std::size_t n) { return static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); };
        arena[i] = m(ARENA); stack[i] = m(STACK);
        shadow[i] = reinterpret_cast<Cell*>(m(ARENA * sizeof(Cell)));
        pcs[i] = reinterpret_cast<std::uint32_t*>(m(ARENA * 4));
    }
    Dl_info d; base = dladdr(reinterpret_cast<void*>(&setup), &d) ? reinterpret_cast<std::uintptr_t>(d.dli_fbase) : 0;
}
static void fail(const std::string& s) { if (out->error.empty()) out->error = s; }

// ---- scheduling
static void hand_over(int to) { int me = tid; if (to == me) return; sem_post(&baton[to]); while (sem_wait(&baton[me]) && errno == EINTR) {} }
static int enabled(int* e) { int n = 0; for (int i = 0; i < nthreads; ++i) if (state[i] == Ready && i != tid) e[n++] = i; return n; }
static int choose(int n, bool preempt) {
    std::size_t k = out->choices.size();
    int c = k < prefix->size() ? (*prefix)[k] : 0;
    out->choices.push_back({std::uint8_t(n), std::uint8_t(preempt)});
    if (c >= n) { fail("schedule cannot be replayed"); c = 0; }
    return c;
}
static void step() {      // the running thread may be preempted here
    ++out->steps;
    int e[MAXT], n = enabled(e);
    if (!n || out->choices.size() > 20000) return;
    int c = choose(n + 1, true);
    if (c) hand_over(e[c - 1]);
}
static void leave() {     // the running thread cannot continue
    int e[MAXT], n = enabled(e);
    if (!n) {
        bool all = true;
        for (int i = 0; i < nthreads; ++i) if (state[i] != Done) all = false;
        if (!all) { out->deadlock = true; fail("deadlock: all remaining threads wait for each other"); sem_post(&finished); if (state[tid] == Done) return; for (;;) pause(); }
        sem_post(&finished);
        return;
    }
    int c = n > 1 ? choose(n, false) : 0;
    if (state[tid] == Done) sem_post(&baton[e[c]]); else hand_over(e[c]);
}
static void block_on(std::uintptr_t a) { state[tid] = Blocked; waiting[tid] = a; leave(); }
static void wake(std::uintptr_t a) { for (int i = 0; i < nthreads; ++i) if (state[i] == Blocked && waiting[i] == a) state[i] = Ready; }

extern "C" bool rt_inside();
static Sync& sync_at(std::uintptr_t a) {
    Sync& s = syncs.get(a);
    if (!rt_inside() && !(s.seen & (1u << tid))) { s.seen |= std::uint8_t(1u << tid); out->sync[tid].push_back(a); }
    return s;
}
extern "C" bool rt_inside();
static void sync_step(std::uintptr_t a) { if (rt_inside()) return; sync_at(a); if (std::binary_search(sync_points.begin(), sync_points.end(), a)) step(); }
static void acquire(Sync& s) { for (int i = 0; i < nthreads; ++i) clk[tid][i] = std::max(clk[tid][i], s.vc[i]); }
static void release(Sync& s) { for (int i = 0; i < nthreads; ++i) s.vc[i] = std::max(s.vc[i], clk[tid][i]); ++clk[tid][tid]; }

// ---- accesses
static void race(std::uintptr_t a, std::uint32_t pc1, std::uintptr_t pc2) {
    if (out->races.size() >= 64) return;
    for (auto& r : out->races) if (r.addr >> 3 == a >> 3) return;
    out->races.push_back({a, pc1, pc2 - base});
}
static inline void check(Cell& c, std::uint32_t& pc, std::uintptr_t a, bool write, std::uintptr_t from) {
    int t = tid;
    if (c.w) { int u = int(c.w >> 24) - 1; if (u != t && (c.w & 0xffffff) > clk[t][u]) race(a, pc, from); }
    if (write) {
        for (int u = 0; u < nthreads; ++u) if (u != t && c.r[u] > clk[t][u]) race(a, pc, from);
        c.w = std::uint32_t(t + 1) << 24 | (clk[t][t] & 0xffffff);
    } else c.r[t] = clk[t][t];
    pc = std::uint32_t(from - base);
}
static void access(void* p, std::size_t n, bool write, std::uintptr_t from) {
    if (!running || tid < 0 || !ops_active || !n) return;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    int t = tid;
    if (a - reinterpret_cast<std::uintptr_t>(stack[t]) < STACK) return;
    ++out->accesses;
    if (!access_points.empty()) { auto i = std::lower_bound(access_points.begin(), access_points.end(), a & ~std::uintptr_t(7)); if (i != access_points.end() && *i < a + n) step(); }
    for (int u = 0; u < nthreads; ++u) {
        if (a - reinterpret_cast<std::uintptr_t>(arena[u]) < ARENA) {
            std::size_t o = a - reinterpret_cast<std::uintptr_t>(arena[u]);
            for (std::size_t i = o; i < o + n && i < ARENA; ++i) check(shadow[u][i], pcs[u][i], a + (i - o), write, from);
            return;
        }
        if (u != t && a - reinterpret_cast<std::uintptr_t>(stack[u]) < STACK) { race(a, 0, from); return; }
    }
    for (std::size_t i = 0; i < n; ++i) { GCell& g = others.get(a + i); check(g.c, g.pc, a + i, write, from); }
}

static const std::vector<std::function<void()>>* bodies;
static void* entry(void* p) {
    int me = int(reinterpret_cast<std::intptr_t>(p));
    tid = me;
    while (sem_wait(&baton[me]) && errno == EINTR) {}
    (*bodies)[std::size_t(me)]();
    ops_active = false;
    state[me] = Done;
    leave();
    return nullptr;
}
Outcome execute(const std::vector<std::function<void()>>& b, const std::vector<std::uint8_t>& pre, const std::vector<std::uintptr_t>& sp, const std::vector<std::uintptr_t>& ap) {
    Outcome o;
    o.choices.reserve(30000);
    for (auto& s : o.sync) s.reserve(4096);
    o.races.reserve(64);
    out = &o; prefix = &pre; sync_points = sp; access_points = ap; bodies = &b;
    nthreads = int(b.size());
    sem_init(&finished, 0, 0);
    pthread_t th[MAXT];
    for (int i = 0; i < nthreads; ++i) {
        sem_init(&baton[i], 0, 0);
        state[i] = Ready; used[i] = 0;
        for (int k = 0; k < MAXT; ++k) clk[i][k] = 0;
        clk[i][i] = 1;
    }
    running = true;
    for (int i = 0; i < nthreads; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stack[i], STACK);
        if (pthread_create(&th[i], &at, entry, reinterpret_cast<void*>(std::intptr_t(i)))) { o.error = "pthread_create"; return o; }
    }
    tid = -1;
    int first = nthreads > 1 ? choose(nthreads, false) : 0;
    sem_post(&baton[first]);
    while (sem_wait(&finished) && errno == EINTR) {}
    if (!o.deadlock) for (int i = 0; i < nthreads; ++i) pthread_join(th[i], nullptr);
    running = false;
    return o;
}
static void* allocate(std::size_t n, std::size_t al) {
    int t = tid;
    if (t < 0) return nullptr;
    std::size_t o = (used[t] + al - 1) / al * al;
    o = (o + 15) / 16 * 16;
    if (o + n + 16 > ARENA) return nullptr;
    *reinterpret_cast<std::size_t*>(arena[t] + o) = n;      // size in front
    if (al > 16) { std::size_t u = (o + 16 + al - 1) / al * al; if (u + n > ARENA) return nullptr; used[t] = u + n; *reinterpret_cast<std::size_t*>(arena[t] + u - 16) = n; return arena[t] + u; }
    used[t] = o + 16 + n;
    return arena[t] + o + 16;
}
static bool ours(void* p) { for (int i = 0; i < MAXT; ++i) if (arena[i] && static_cast<char*>(p) >= arena[i] && static_cast<char*>(p) < arena[i] + ARENA) return true; return false; }
}
using namespace rt;

// ---- memory: per-thread arenas without reuse, so that addresses do not depend on the schedule
extern "C" {
void* malloc(std::size_t n) { if (tid >= 0) { void* p = allocate(n, 16); if (!p) { static const char m[] = "arena exhausted\n"; if (::write(2, m, sizeof m - 1)) {} _exit(78); } return p; } return __libc_malloc(n); }
void free(void* p) { if (p && ours(p)) return; __libc_free(p); }
void* calloc(std::size_t a, std::size_t b) { if (tid >= 0) { void* p = malloc(a * b); std::memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, std::size_t n) {
    if (p && ours(p)) { std::size_t old = *reinterpret_cast<std::size_t*>(static_cast<char*>(p) - 16); void* q = malloc(n); std::memcpy(q, p, old < n ? old : n); return q; }
    if (tid >= 0 && !p) return malloc(n);
    return __libc_realloc(p, n);
}
void* memalign(std::size_t al, std::size_t n) { if (tid >= 0) return allocate(n, al); return __libc_memalign(al, n); }
void* aligned_alloc(std::size_t al, std::size_t n) { return memalign(al, n); }
int posix_memalign(void** p, std::size_t al, std::size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }

// ---- synchronisation
static char* guard_byte(std::uint64_t* g) { return reinterpret_cast<char*>(g); }
int __cxa_guard_acquire(std::uint64_t* g) {
    if (!running || tid < 0) return !*guard_byte(g);
    auto a = reinterpret_cast<std::uintptr_t>(g);
    sync_step(a);
    for (;;) {
        Sync& s = sync_at(a);
        if (*guard_byte(g)) { acquire(s); return 0; }
        if (!s.held) { s.held = true; s.owner = tid; acquire(s); return 1; }
        if (s.owner == tid) { fail("recursive initialisation of a static variable"); std::abort(); }
        block_on(a);
    }
}
void __cxa_guard_release(std::uint64_t* g) {
    if (!running || tid < 0) { *guard_byte(g) = 1; return; }
    auto a = reinterpret_cast<std::uintptr_t>(g);
    sync_step(a);
    Sync& s = sync_at(a);
    release(s);
    *guard_byte(g) = 1; s.held = false; wake(a);
    sync_step(a);
}
void __cxa_guard_abort(std::uint64_t* g) {
    if (!running || tid < 0) return;
    auto a = reinterpret_cast<std::uintptr_t>(g);
    Sync& s = sync_at(a);
    release(s); s.held = false; wake(a);
    sync_step(a);
}
#define REAL(f) (reinterpret_cast<decltype(&f)>(dlsym(RTLD_NEXT, #f)))
extern char __executable_start, etext;
// locks taken inside the C++ runtime (unwinder, locale) are modelled, but are no scheduling points: their holders are never preempted
static thread_local bool inside_runtime = false;
bool rt_inside() { return inside_runtime; }
struct Inside { bool o; explicit Inside(std::uintptr_t from) : o(inside_runtime) { inside_runtime = from < reinterpret_cast<std::uintptr_t>(&__executable_start) || from >= reinterpret_cast<std::uintptr_t>(&etext); } ~Inside() { inside_runtime = o; } };
#define LOCKFROM Inside in_(reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)))
static int lock_it(void* m, bool wr, bool try_only) {
    auto a = reinterpret_cast<std::uintptr_t>(m);
    sync_step(a);
    for (;;) {
        Sync& s = sync_at(a);
        if (!s.held && (!wr || !s.readers)) { if (wr) { s.held = true; s.owner = tid; } else ++s.readers; acquire(s); return 0; }
        if (try_only) return EBUSY;
        if (s.held && s.owner == tid) { s.readers += 100000; return 0; }       // recursive lock
        block_on(a);
    }
}
static int unlock_it(void* m) {
    auto a = reinterpret_cast<std::uintptr_t>(m);
    Sync& s = sync_at(a);
    if (s.held && s.readers >= 100000) { s.readers -= 100000; return 0; }
    release(s);
    if (s.held) s.held = false; else if (s.readers) --s.readers;
    wake(a);
    sync_step(a);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { LOCKFROM; return running && tid >= 0 ? lock_it(m, true, false) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { LOCKFROM; return running && tid >= 0 ? lock_it(m, true, true) : REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { LOCKFROM; return running && tid >= 0 ? unlock_it(m) : REAL(pthread_mutex_unlock)(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { LOCKFROM; return running && tid >= 0 ? lock_it(m, false, false) : REAL(pthread_rwlock_rdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { LOCKFROM; return running && tid >= 0 ? lock_it(m, true, false) : REAL(pthread_rwlock_wrlock)(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { LOCKFROM; return running && tid >= 0 ? unlock_it(m) : REAL(pthread_rwlock_unlock)(m); }
int pthread_once(pthread_once_t* c, void (*f)()) {
    LOCKFROM;
    if (!running || tid < 0) return REAL(pthread_once)(c, f);
    auto a = reinterpret_cast<std::uintptr_t>(c);
    sync_step(a);
    for (;;) {
        Sync& s = sync_at(a);
        if (*c == 2) { acquire(s); return 0; }
        if (!s.held) {
            s.held = true; s.owner = tid;
            try { f(); } catch (...) { Sync& q = sync_at(a); release(q); q.held = false; wake(a); throw; }
            Sync& q = sync_at(a);
            release(q); *c = 2; q.held = false; wake(a);
            sync_step(a);
            return 0;
        }
        block_on(a);
    }
}

// ---- instrumentation inserted by the compiler
#define FROM (reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)))
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, FROM); } void __tsan_write##n(void* p) { access(p, n, true, FROM); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, FROM); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, FROM); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, FROM); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, FROM); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, FROM); } void __tsan_volatile_write##n(void* p) { access(p, n, true, FROM); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, FROM); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, FROM); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, FROM); }
void __tsan_vptr_read(void** p) { access(p, 8, false, FROM); }
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, FROM); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, FROM); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { access(const_cast<void*>(s), n, false, FROM); access(d, n, true, FROM); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { access(const_cast<void*>(s), n, false, FROM); access(d, n, true, FROM); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { access(d, n, true, FROM); return memset(d, c, n); }

static void atomic_point(const volatile void* p) {
    if (!running || tid < 0 || !ops_active) return;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if (a - reinterpret_cast<std::uintptr_t>(stack[tid]) < STACK) return;
    sync_step(a);
    Sync& s = sync_at(a);
    acquire(s); release(s);
}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { atomic_point(p); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomic_point(p); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = T(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = T(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = T(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = T(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = T(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { atomic_point(p); T o = *p; *p = T(~(o & v)); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomic_point(p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomic_point(p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomic_point(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- library functions that read or write memory on behalf of instrumented code (linked with --wrap)
#define W(ret, name, args) ret __real_##name args; ret __wrap_##name args
#define RD(p, n) access(const_cast<void*>(static_cast<const void*>(p)), n, false, FROM)
#define WR(p, n) access(static_cast<void*>(p), n, true, FROM)
W(void*, memcpy, (void* d, const void* s, std::size_t n)) { RD(s, n); WR(d, n); return __real_memcpy(d, s, n); }
W(void*, memmove, (void* d, const void* s, std::size_t n)) { RD(s, n); WR(d, n); return __real_memmove(d, s, n); }
W(void*, memset, (void* d, int c, std::size_t n)) { WR(d, n); return __real_memset(d, c, n); }
W(int, memcmp, (const void* a, const void* b, std::size_t n)) { RD(a, n); RD(b, n); return __real_memcmp(a, b, n); }
W(int, bcmp, (const void* a, const void* b, std::size_t n)) { RD(a, n); RD(b, n); return __real_memcmp(a, b, n); }
W(void*, memchr, (const void* a, int c, std::size_t n)) { RD(a, n); return __real_memchr(a, c, n); }
W(std::size_t, strlen, (const char* s)) { std::size_t n = __real_strlen(s); RD(s, n + 1); return n; }
W(int, strcmp, (const char* a, const char* b)) { RD(a, __real_strlen(a) + 1); RD(b, __real_strlen(b) + 1); return __real_strcmp(a, b); }
W(char*, strcpy, (char* d, const char* s)) { RD(s, __real_strlen(s) + 1); WR(d, __real_strlen(s) + 1); return __real_strcpy(d, s); }
W(char*, strncpy, (char* d, const char* s, std::size_t n)) { WR(d, n); return __real_strncpy(d, s, n); }
W(int, vsnprintf, (char* d, std::size_t n, const char* f, va_list v)) { int r = __real_vsnprintf(d, n, f, v); if (n) WR(d, r < 0 ? 1 : std::min<std::size_t>(std::size_t(r) + 1, n)); return r; }
int __wrap_snprintf(char* d, std::size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = __real_vsnprintf(d, n, f, v); va_end(v); if (n) WR(d, r < 0 ? 1 : std::min<std::size_t>(std::size_t(r) + 1, n)); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list v; va_start(v, f); int r = __real_vsnprintf(d, std::size_t(-1) / 4, f, v); va_end(v); WR(d, std::size_t(r < 0 ? 0 : r) + 1); return r; }
W(std::size_t, strftime, (char* d, std::size_t n, const char* f, const std::tm* t)) { RD(t, sizeof *t); std::size_t r = __real_strftime(d, n, f, t); WR(d, r + 1); return r; }
static std::tm the_tm;
std::tm* __wrap_gmtime(const time_t* t) { RD(t, sizeof *t); WR(&the_tm, sizeof the_tm); return gmtime_r(t, &the_tm); }
std::tm* __wrap_localtime(const time_t* t) { RD(t, sizeof *t); WR(&the_tm, sizeof the_tm); return localtime_r(t, &the_tm); }
W(std::tm*, gmtime_r, (const time_t* t, std::tm* d)) { RD(t, sizeof *t); WR(d, sizeof *d); return __real_gmtime_r(t, d); }
W(std::tm*, localtime_r, (const time_t* t, std::tm* d)) { RD(t, sizeof *t); WR(d, sizeof *d); return __real_localtime_r(t, d); }
W(time_t, timegm, (std::tm* d)) { WR(d, sizeof *d); return __real_timegm(d); }
static char the_env;      // stands for the environment
W(time_t, mktime, (std::tm* d)) { RD(&the_env, 1); WR(d, sizeof *d); return __real_mktime(d); }
static char the_asctime[64];
char* __wrap_asctime(const std::tm* t) { RD(t, sizeof *t); WR(the_asctime, sizeof the_asctime); return asctime_r(t, the_asctime); }

W(char*, getenv, (const char* n)) { RD(&the_env, 1); return __real_getenv(n); }
W(int, setenv, (const char* n, const char* v, int o)) { WR(&the_env, 1); return __real_setenv(n, v, o); }
W(int, unsetenv, (const char* n)) { WR(&the_env, 1); return __real_unsetenv(n); }
W(int, putenv, (char* n)) { WR(&the_env, 1); return __real_putenv(n); }
static char the_locale;
W(char*, setlocale, (int c, const char* l)) { if (l) WR(&the_locale, 1); else RD(&the_locale, 1); return __real_setlocale(c, l); }
static char* the_strtok; 
W(char*, strtok, (char* s, const char* d)) { WR(&the_strtok, sizeof the_strtok); return strtok_r(s, d, &the_strtok); }
static char the_random;
W(int, rand, ()) { WR(&the_random, 1); return __real_rand(); }
}
