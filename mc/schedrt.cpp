// Runtime behind sched.hpp.  Compiled without instrumentation.
#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <execinfo.h>
#include <malloc.h>
#include <new>
#include <set>
#include <unordered_map>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
}

extern "C" char __data_start, _end;
namespace
{
const int MAXT = 4;
struct VC {
    uint32_t c[MAXT] = {0, 0, 0, 0};
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Cell { // shadow of 8 bytes
    uintptr_t key;
    uint32_t gen;
    uint8_t wmask[MAXT], rmask[MAXT];
    uint32_t wclk[MAXT], rclk[MAXT];
    void* wpc[MAXT];
    void* rpc[MAXT];
};
const size_t CELLS = 1u << 20;
Cell* g_cells = nullptr;
uint32_t g_gen = 1;
size_t g_used = 0;

enum St { READY, BLOCKED_MUTEX, SPINNING, DONE };
struct Th {
    sem_t sem;
    St st;
    void* on;           // mutex or spin address
    VC vc;
    const std::function<void()>* f;
    pthread_t p;
};
struct Mx { int owner = -1; int depth = 0; VC vc; };

volatile bool g_active = false;
thread_local int t_id = -1;
int g_n = 0;
Th g_th[MAXT];
std::unordered_map<void*, Mx>* g_mx = nullptr;
std::unordered_map<void*, VC>* g_sync = nullptr;
sched::Outcome* g_o = nullptr;
const std::vector<uint8_t>* g_prefix = nullptr;
int g_bound = 0, g_preempt = 0;
sem_t g_main;
bool g_abort = false;
thread_local bool t_in = false; // inside the runtime

struct Stop {};

struct In {
    bool old;
    In() : old(t_in) { t_in = true; }
    ~In() { t_in = old; }
};

std::string sym(void* pc)
{
    Dl_info i;
    char b[300];
    if (dladdr(pc, &i) && i.dli_fname) snprintf(b, sizeof b, "%s+0x%lx", i.dli_sname ? i.dli_sname : "", (unsigned long)((char*)pc - (char*)i.dli_fbase));
    else snprintf(b, sizeof b, "%p", pc);
    return b;
}

// neighbouring words stay neighbours within 64 bytes
inline size_t slot(uintptr_t k) { return ((((k >> 3) * 0x9e3779b97f4a7c15ULL) >> 47) << 3) | (k & 7); }
Cell* cell(uintptr_t k)
{
    size_t h = slot(k);
    for (size_t n = 0; n < CELLS; ++n, h = (h + 1) & (CELLS - 1)) {
        Cell& c = g_cells[h];
        if (c.gen != g_gen) {
            memset(&c, 0, sizeof c);
            c.gen = g_gen;
            c.key = k;
            if (++g_used > CELLS / 4 * 3) { fprintf(stderr, "sched: shadow memory exhausted\n"); _exit(7); }
            return &c;
        }
        if (c.key == k) return &c;
    }
    return nullptr;
}
Cell* find_cell(uintptr_t k)
{
    size_t h = slot(k);
    for (size_t n = 0; n < CELLS; ++n, h = (h + 1) & (CELLS - 1)) {
        Cell& c = g_cells[h];
        if (c.gen != g_gen) return nullptr;
        if (c.key == k) return &c;
    }
    return nullptr;
}
void race(uintptr_t a, int t, bool w, void* pc, int u, bool uw, void* upc)
{
    if (!g_o->race.empty()) return;
    char b[200];
    snprintf(b, sizeof b, "data race on address %p: %s by thread %d at ", (void*)a, w ? "write" : "read", t);
    g_o->race = b + sym(pc) + (uw ? " against a write by thread " : " against a read by thread ") + char('0' + u) + " at " + sym(upc);
}
void access1(uintptr_t k, uint8_t mask, bool w, void* pc)
{
    int t = t_id;
    Cell* c = cell(k);
    VC& vc = g_th[t].vc;
    {
        // already checked in this epoch (a later conflicting access of another thread is reported there)
        uint32_t e = vc.c[t];
        if (c->wclk[t] == e && (c->wmask[t] & mask) == mask) return;
        if (!w && c->rclk[t] == e && (c->rmask[t] & mask) == mask) return;
    }
    for (int u = 0; u < g_n; ++u) {
        if (u == t) continue;
        if ((c->wmask[u] & mask) && c->wclk[u] > vc.c[u]) race(k << 3, t, w, pc, u, true, c->wpc[u]);
        if (w && (c->rmask[u] & mask) && c->rclk[u] > vc.c[u]) race(k << 3, t, w, pc, u, false, c->rpc[u]);
    }
    uint32_t e = vc.c[t];
    if (w) {
        if (c->wclk[t] == e) c->wmask[t] |= mask; else { c->wclk[t] = e; c->wmask[t] = mask; }
        c->wpc[t] = pc;
    } else {
        if (c->rclk[t] == e) c->rmask[t] |= mask; else { c->rclk[t] = e; c->rmask[t] = mask; }
        c->rpc[t] = pc;
    }
}
void access(const void* p, size_t n, bool w, void* pc)
{
    if (!g_active || t_id < 0 || t_in || !n) return;
    In in;
    uintptr_t a = (uintptr_t)p, e = a + n;
    ++g_o->accesses;
    while (a < e) {
        uintptr_t k = a >> 3;
        uintptr_t hi = (k + 1) << 3;
        if (hi > e) hi = e;
        uint8_t m = (uint8_t)(((1u << (hi - a)) - 1) << (a & 7));
        access1(k, m, w, pc);
        a = hi;
    }
}
void forget(void* p, size_t n)
{
    if (!g_active || t_id < 0 || t_in || !p) return;
    In in;
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
    for (; a < e; ++a) {
        Cell* c = find_cell(a);
        if (c) { memset(c->wmask, 0, sizeof c->wmask); memset(c->rmask, 0, sizeof c->rmask); }
    }
}

bool enabled(int i)
{
    Th& t = g_th[i];
    if (t.st == READY) return true;
    if (t.st == BLOCKED_MUTEX) { auto it = g_mx->find(t.on); return it == g_mx->end() || it->second.owner < 0; }
    return false;
}
// Decides who goes on.  cur: the calling thread (may be DONE or blocked).  Returns -1 if nobody can.
int decide(int cur)
{
    int c[MAXT], n = 0;
    bool cur_ok = cur >= 0 && enabled(cur);
    if (cur_ok) c[n++] = cur;
    for (int i = 0; i < g_n; ++i) if (i != cur && enabled(i)) c[n++] = i;
    if (n == 0) { // only spinning threads are left: let them look again
        for (int i = 0; i < g_n; ++i) if (g_th[i].st == SPINNING) c[n++] = i;
        if (n == 0) return -1;
        if (n > 1) n = 1; // they would all see the same value
        g_th[c[0]].st = READY;
        static thread_local int dummy;
        (void)dummy;
    }
    int w = n;
    if (cur_ok && g_preempt >= g_bound) w = 1;
    size_t i = g_o->choices.size();
    int k = i < g_prefix->size() ? (*g_prefix)[i] : 0;
    if (k >= w) k = 0;
    if (cur_ok && k > 0) ++g_preempt;
    g_o->choices.push_back(k);
    g_o->width.push_back(w);
    g_o->tids.push_back(c[k]);
    if (g_o->choices.size() > 200000) { g_o->livelock = true; return -2; }
    return c[k];
}
void switch_to(int cur, int nxt)
{
    if (nxt == cur) return;
    sem_post(&g_th[nxt].sem);
    if (g_th[cur].st != DONE) {
        while (sem_wait(&g_th[cur].sem) != 0) {}
        if (g_abort) throw Stop();
    }
}
void give_up()
{
    g_abort = true;
    sem_post(&g_main);
}
// Reduction: loads commute, so an atomic load of a variable no thread ever writes needs no scheduling point.
// Only for variables with static storage (their addresses are the same in every execution).  When the first
// write of such a variable is met, explore() starts over (grew()).
std::set<uintptr_t>* g_written;
bool g_grew;
bool is_static(const volatile void* a) { return (uintptr_t)a >= (uintptr_t)&__data_start && (uintptr_t)a < (uintptr_t)&_end; }
bool constant_so_far(const volatile void* a) { return is_static(a) && !(g_written && g_written->count((uintptr_t)a)); }
void writes(const volatile void* a)
{
    if (!is_static(a)) return;
    if (!g_written) g_written = new std::set<uintptr_t>();
    if (g_written->insert((uintptr_t)a).second) g_grew = true;
}
// scheduling point of the running thread
void point()
{
    int me = t_id;
    int nx = decide(me);
    if (nx < 0) {
        if (nx == -1) g_o->deadlock = true;
        give_up();
        for (;;) pause(); // the process is finished by the caller
    }
    switch_to(me, nx);
}

void* body(void* p)
{
    int id = (int)(intptr_t)p;
    t_id = id;
    while (sem_wait(&g_th[id].sem) != 0) {}
    try {
        (*g_th[id].f)();
    } catch (const Stop&) {
    } catch (const std::exception& e) {
        In in;
        if (g_o->exc.empty()) g_o->exc = std::string("exception leaves a thread: ") + e.what();
    } catch (...) {
        In in;
        if (g_o->exc.empty()) g_o->exc = "exception leaves a thread";
    }
    In in;
    g_th[id].st = DONE;
    bool all = true;
    for (int i = 0; i < g_n; ++i) all &= g_th[i].st == DONE;
    if (all) { sem_post(&g_main); return nullptr; }
    int nx = decide(id);
    if (nx < 0) { if (nx == -1) g_o->deadlock = true; give_up(); return nullptr; }
    sem_post(&g_th[nx].sem);
    return nullptr;
}
bool on() { return g_active && t_id >= 0 && !t_in; }
void release_to(VC& s) { VC& v = g_th[t_id].vc; s.join(v); ++v.c[t_id]; }
void acquire_from(const VC& s) { g_th[t_id].vc.join(s); }
void wake(void* a)
{
    for (int i = 0; i < g_n; ++i) if (g_th[i].st == SPINNING && g_th[i].on == a) g_th[i].st = READY;
}
// mo: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
}

namespace sched
{
bool grew() { bool g = g_grew; g_grew = false; return g; }
Outcome run(const std::vector<std::function<void()>>& threads, const std::vector<uint8_t>& prefix, int bound)
{
    Outcome o;
    if (!g_cells) g_cells = (Cell*)mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ++g_gen;
    g_used = 0;
    std::unordered_map<void*, Mx> mx;
    std::unordered_map<void*, VC> sy;
    g_mx = &mx;
    g_sync = &sy;
    g_o = &o;
    g_prefix = &prefix;
    g_bound = bound;
    g_preempt = 0;
    g_abort = false;
    g_n = (int)threads.size();
    o.choices.reserve(1 << 14); o.width.reserve(1 << 14); o.tids.reserve(1 << 14);
    sem_init(&g_main, 0, 0);
    for (int i = 0; i < g_n; ++i) {
        sem_init(&g_th[i].sem, 0, 0);
        g_th[i].st = READY;
        g_th[i].vc = VC();
        g_th[i].vc.c[i] = 1;
        g_th[i].f = &threads[i];
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        pthread_create(&g_th[i].p, &at, body, (void*)(intptr_t)i);
        pthread_attr_destroy(&at);
    }
    g_active = true;
    int first = decide(-1);
    sem_post(&g_th[first].sem);
    while (sem_wait(&g_main) != 0) {}
    g_active = false;
    if (g_abort) { // a stuck schedule: the threads cannot be unwound safely; they stay parked
        for (int i = 0; i < g_n; ++i) pthread_detach(g_th[i].p);
        return o;
    }
    for (int i = 0; i < g_n; ++i) pthread_join(g_th[i].p, nullptr);
    return o;
}
}

extern "C" {
// ---- mutexes
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on()) return __real_pthread_mutex_lock(m);
    int me = t_id;
    In in;
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    { Mx& x = (*g_mx)[m]; if (x.owner == me && rec) { ++x.depth; return 0; } }
    g_th[me].st = READY;
    point();
    for (;;) {
        Mx& x = (*g_mx)[m];
        if (x.owner < 0) { x.owner = me; x.depth = 1; g_th[me].st = READY; acquire_from(x.vc); return 0; }
        g_th[me].st = BLOCKED_MUTEX;
        g_th[me].on = m;
        point();
    }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on()) return __real_pthread_mutex_trylock(m);
    In in;
    point();
    Mx& x = (*g_mx)[m];
    if (x.owner >= 0) return EBUSY;
    x.owner = t_id; x.depth = 1;
    acquire_from(x.vc);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on()) return __real_pthread_mutex_unlock(m);
    In in;
    Mx& x = (*g_mx)[m];
    if (x.owner == t_id && --x.depth == 0) { x.owner = -1; release_to(x.vc); }
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (on()) { In in; acquire_from((*g_sync)[g]); }
    return r;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (on()) { In in; release_to((*g_sync)[g]); }
    __real___cxa_guard_release(g);
}
// ---- memory
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && on()) forget(p, malloc_usable_size(p)); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && on()) forget(p, malloc_usable_size(p)); return p; }
void free(void* p) { if (p && on()) access(p, malloc_usable_size(p), true, __builtin_return_address(0)); __libc_free(p); }
void* realloc(void* p, size_t n)
{
    if (p && on()) access(p, malloc_usable_size(p), true, __builtin_return_address(0));
    void* q = __libc_realloc(p, n);
    if (q && on()) forget(q, malloc_usable_size(q));
    return q;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, __builtin_return_address(0)); return __real_memset(d, c, n); }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && on()) forget(p, malloc_usable_size(p)); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
// ---- file operations that other threads can observe
#define NEXT(name, ...) typedef __VA_ARGS__; static FT f = nullptr; if (!f) f = (FT)dlsym(RTLD_NEXT, name)
FILE* fopen(const char* n, const char* m) { NEXT("fopen", FILE* (*FT)(const char*, const char*)); if (on()) { In in; point(); } return f(n, m); }
FILE* fopen64(const char* n, const char* m) { NEXT("fopen64", FILE* (*FT)(const char*, const char*)); if (on()) { In in; point(); } return f(n, m); }
int remove(const char* n) { NEXT("remove", int (*FT)(const char*)); if (on()) { In in; point(); } return f(n); }
int rename(const char* n, const char* m) { NEXT("rename", int (*FT)(const char*, const char*)); if (on()) { In in; point(); } return f(n, m); }
// ---- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_volatile_read1(void* p) { access(p, 1, false, PC); }
void __tsan_volatile_read2(void* p) { access(p, 2, false, PC); }
void __tsan_volatile_read4(void* p) { access(p, 4, false, PC); }
void __tsan_volatile_read8(void* p) { access(p, 8, false, PC); }
void __tsan_volatile_write1(void* p) { access(p, 1, true, PC); }
void __tsan_volatile_write4(void* p) { access(p, 4, true, PC); }
void __tsan_volatile_write8(void* p) { access(p, 8, true, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
namespace
{
template<class T, class F>
T rmw(volatile T* a, int mo, F f)
{
    if (!on()) {
        T o = __atomic_load_n(a, __ATOMIC_SEQ_CST), n;
        do n = f(o); while (!__atomic_compare_exchange_n(a, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
        return o;
    }
    In in;
    writes(a);
    point();
    VC& s = (*g_sync)[(void*)a];
    T o = *a, n = f(o);
    if (acq(mo)) acquire_from(s);
    *a = n;
    if (rel(mo)) release_to(s);
    if (o == n) { g_th[t_id].st = SPINNING; g_th[t_id].on = (void*)a; }
    else wake((void*)a);
    if (g_th[t_id].st == SPINNING) {
        // an exchange that changes nothing: most likely a spin loop.  Let the others go on; resumed when the
        // value changes, or when nobody else can run.
        int nx = decide(t_id);
        if (nx == -2) { give_up(); for (;;) pause(); }
        if (nx == -1) { g_o->deadlock = true; give_up(); for (;;) pause(); }
        switch_to(t_id, nx);
        g_th[t_id].st = READY;
    }
    return o;
}
template<class T>
T at_load(const volatile T* a, int mo)
{
    if (!on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
    In in;
    if (!constant_so_far(a)) point();
    if (acq(mo)) acquire_from((*g_sync)[(void*)a]);
    return *a;
}
template<class T>
void at_store(volatile T* a, T v, int mo)
{
    if (!on()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
    In in;
    writes(a);
    point();
    VC& s = (*g_sync)[(void*)a];
    if (rel(mo)) release_to(s);
    *a = v;
    wake((void*)a);
}
template<class T>
int at_cas(volatile T* a, T* e, T v, int mo)
{
    if (!on()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    In in;
    writes(a);
    point();
    VC& s = (*g_sync)[(void*)a];
    if (acq(mo)) acquire_from(s);
    if (*a == *e) { *a = v; if (rel(mo)) release_to(s); wake((void*)a); return 1; }
    *e = *a;
    return 0;
}
}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return at_load<T>(a, mo); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return rmw<T>(a, mo, [v](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return rmw<T>(a, mo, [v](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return rmw<T>(a, mo, [v](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return rmw<T>(a, mo, [v](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return rmw<T>(a, mo, [v](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return rmw<T>(a, mo, [v](T o) { return (T)(o ^ v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { return at_cas<T>(a, e, v, mo); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { return at_cas<T>(a, e, v, mo); }
extern "C" {
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
}
// ---- operator new/delete of the whole process
static void* nw(size_t n)
{
    void* p = __libc_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (on()) forget(p, malloc_usable_size(p));
    return p;
}
static void dl(void* p, void* pc)
{
    if (p && on()) access(p, malloc_usable_size(p), true, pc);
    __libc_free(p);
}
void* operator new(size_t n) { return nw(n); }
void* operator new[](size_t n) { return nw(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = __libc_malloc(n ? n : 1); if (p && on()) forget(p, malloc_usable_size(p)); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = __libc_malloc(n ? n : 1); if (p && on()) forget(p, malloc_usable_size(p)); return p; }
void operator delete(void* p) noexcept { dl(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { dl(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { dl(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { dl(p, __builtin_return_address(0)); }
