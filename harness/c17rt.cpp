#include "c17rt.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#define PC __builtin_return_address(0)
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
extern char __executable_start, etext, edata, end;
}
namespace {
using rt::MAXT;
__thread int tid = -1;       // -1: not a thread of a run
__thread int busy = 0;       // inside the runtime
volatile bool inRun = false; // allocate without reuse

// ---- allocation without reuse: an address names one object for the whole run
constexpr size_t ARENA = 4ull << 30;
char *arenas = nullptr;
std::atomic<size_t> used[MAXT + 1], opened[MAXT + 1]; // opened: what may be accessed, so that a memory limit counts only that
void *bump(size_t n, size_t al = 16) {
    int t = tid < 0 ? MAXT : tid;
    size_t from = used[t].fetch_add(n + al + 32); // threads that start or end do so at the same time
    size_t a = (from + 16 + al - 1) / al * al;
    constexpr size_t STEP = 16 << 20;
    for (size_t o = opened[t]; a + n > o && a + n <= ARENA; o = opened[t]) {
        size_t to = (a + n + STEP - 1) / STEP * STEP;
        if (mprotect(arenas + t * ARENA + o, to - o, PROT_READ | PROT_WRITE)) { a = ARENA; break; }
        opened[t].compare_exchange_strong(o, to);
    }
    if (a + n > ARENA) { static const char m[] = "c17: arena exhausted\n"; (void)!write(2, m, sizeof m); _exit(98); }
    char *p = arenas + t * ARENA + a;
    *(size_t *)(p - 8) = n;
    return p;
}
bool mine(void *p) { return arenas && (char *)p >= arenas && (char *)p < arenas + (MAXT + 1) * ARENA; }

// ---- memory that is not looked at: that of the C and C++ run-time libraries, and the standard streams
std::pair<uintptr_t, uintptr_t> skip[64];
int nskip = 0;
int onObj(dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || !*i->dlpi_name) return 0; // the program itself
    for (int k = 0; k < i->dlpi_phnum && nskip < 60; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) skip[nskip++] = {i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz};
    return 0;
}

// ---- vector clocks and access records
typedef uint32_t Clock;
struct VC { Clock c[MAXT] = {0, 0, 0}; void join(const VC &o) { for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]); } bool leq(const VC &o) const { for (int i = 0; i < MAXT; ++i) if (c[i] > o.c[i]) return false; return true; } };
struct Rec { uint32_t seg, next; uint8_t r, w; void *rpc, *wpc; };
struct Thread {
    VC vc;
    std::vector<VC> segs;
    uint32_t seg = 0;
    uintptr_t lo = 0, hi = 0; // its stack
    // open addressing: word -> index of the newest record + 1
    uint64_t *key = nullptr; uint32_t *val = nullptr; size_t cap = 0, n = 0;
    std::vector<Rec> recs;
    uint64_t accesses = 0;
    sem_t sem;
    bool done = false, blocked = false;
    const void *waitFor = nullptr;
    int spin = 0;
    static size_t slot(uint64_t k, size_t cap) { k *= 0x9E3779B97F4A7C15ull; return (k >> 20) & (cap - 1); }
    void grow() {
        size_t nc = cap ? cap * 4 : 1 << 16;
        uint64_t *nk = (uint64_t *)calloc(nc, 8); uint32_t *nv = (uint32_t *)calloc(nc, 4);
        for (size_t i = 0; i < cap; ++i) if (key[i]) { size_t j = slot(key[i], nc); while (nk[j]) j = (j + 1) & (nc - 1); nk[j] = key[i]; nv[j] = val[i]; }
        key = nk; val = nv; cap = nc;
    }
    uint32_t *find(uint64_t w, bool ins) {
        if (ins && n * 2 >= cap) grow();
        if (!cap) return nullptr;
        size_t j = slot(w, cap);
        while (key[j] && key[j] != w) j = (j + 1) & (cap - 1);
        if (!key[j]) { if (!ins) return nullptr; key[j] = w; ++n; }
        return &val[j];
    }
    void rec(uint64_t word, uint8_t mask, bool write, void *pc) {
        uint32_t *h = find(word, true);
        if (!*h || recs[*h - 1].seg != seg) { recs.push_back({seg, *h, 0, 0, nullptr, nullptr}); *h = (uint32_t)recs.size(); }
        Rec &r = recs[*h - 1];
        if (write) { if (!r.w) r.wpc = pc; r.w |= mask; } else { if (!r.r) r.rpc = pc; r.r |= mask; }
    }
    void newSeg() { segs.push_back(vc); seg = (uint32_t)segs.size() - 1; }
};
Thread *T = nullptr;
int NT = 0;
struct Sync { VC vc; int owner = -1; int readers = 0; int state = 0; bool guardDone = false; };
std::map<const void *, Sync> *syncs = nullptr;
rt::Outcome *out = nullptr;
const std::vector<std::pair<int, int>> *plan = nullptr;
sem_t finished;

struct Busy { Busy() { ++busy; } ~Busy() { --busy; } };
inline bool live() { return tid >= 0 && !busy; }

inline void access(void *a, size_t n, bool write, void *pc) {
    if (!live()) return;
    Thread &t = T[tid];
    uintptr_t p = (uintptr_t)a;
    ++t.accesses;
    if (p >= t.lo && p < t.hi) return;
    for (int i = 0; i < nskip; ++i) if (p >= skip[i].first && p < skip[i].second) return;
    Busy b;
    uintptr_t e = p + n;
    while (p < e) {
        uintptr_t w = p >> 3; int from = p & 7; int to = (int)std::min<uintptr_t>(8, e - (w << 3));
        t.rec(w, (uint8_t)(((1u << to) - 1) & ~((1u << from) - 1)), write, pc);
        p = (w + 1) << 3;
    }
}
// ---- scheduling
void handOff(int to) { int me = tid; if (to == me) return; sem_post(&T[to].sem); while (sem_wait(&T[me].sem)) {} }
int nextRunnable(int from, int skipN) {
    int last = -1;
    for (int k = 1; k <= NT; ++k) { int c = (from + k) % NT; if (c == from || T[c].done || T[c].blocked) continue; last = c; if (skipN-- == 0) return c; }
    return last;
}
void point() { // called before a synchronisation operation of thread tid
    int k = out->points++;
    out->pointThread.push_back(tid);
    ++out->syncs;
    if (++T[tid].spin > 5000) { T[tid].spin = 0; int c = nextRunnable(tid, 0); if (c >= 0) handOff(c); return; } // a thread that spins lets others run
    for (auto &p : *plan) if (p.first == k) { int c = nextRunnable(tid, p.second); if (c >= 0) handOff(c); return; }
}
void block(const void *on) { // until wake(on)
    T[tid].blocked = true; T[tid].waitFor = on;
    while (T[tid].blocked) {
        int c = nextRunnable(tid, 0);
        if (c < 0) { out->deadlock = "all threads wait"; sem_post(&finished); for (;;) pause(); }
        handOff(c);
    }
}
void wake(const void *on) { for (int i = 0; i < NT; ++i) if (T[i].blocked && T[i].waitFor == on) T[i].blocked = false; }
void acquire(Sync &s) { if (!s.vc.leq(T[tid].vc)) { T[tid].vc.join(s.vc); T[tid].newSeg(); } }
void release(Sync &s) { s.vc.join(T[tid].vc); ++T[tid].vc.c[tid]; T[tid].newSeg(); }
Sync &sync(const void *a) { return (*syncs)[a]; }
bool fromProgram(void *pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }

void *reals[32]; // the functions of the C library, looked up before any thread starts
enum { RLOCK, RTRY, RUNLOCK, RWR, RRD, RRWU, RONCE, RSETLOC, RSTRTOK, RRAND, RSRAND, RSETENV, RPUTENV, RVSNPRINTF, RSTRTOD, RSTRTOL, RLAST };
const char *const realNames[] = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "pthread_once", "setlocale", "strtok", "rand", "srand", "setenv", "putenv", "vsnprintf", "strtod", "strtol"};
template <class F> F real(int k) { if (!reals[k]) reals[k] = dlsym(RTLD_NEXT, realNames[k]); return (F)reals[k]; }
uint64_t *warmGuards[4096]; int nWarm = 0; // local statics initialised before the threads start
bool isWarm(const volatile void *a) { for (int i = 0; i < nWarm; ++i) if ((const volatile void *)warmGuards[i] == a) return true; return false; }
void pseudo(const char *what, void *pc) { if (live()) access((void *)what, 1, true, pc); } // a C function with state of its own

void lockMutex(const void *m) { Busy b; point(); while (sync(m).owner >= 0 || sync(m).readers > 0) block(m); sync(m).owner = tid; acquire(sync(m)); }
struct Atom { // an atomic operation
    Busy b; Sync &s; int mo; bool w;
    static Sync &get(const void *a, bool write) { Sync &s = sync(a); if (write || !(s.guardDone || isWarm(a))) point(); return s; }
    Atom(const volatile void *a, bool write, int mo) : s(get((const void *)a, write)), mo(mo), w(write) { if (mo == 1 || mo == 2 || mo == 4 || mo == 5) acquire(s); }
    ~Atom() { if (w && (mo == 3 || mo == 4 || mo == 5)) release(s); }
};
} // namespace

namespace rt {
void *base() { return &__executable_start; }
struct Start { int id; Body b; void *arg; };
static void *entry(void *q) {
    Start *s = (Start *)q;
    Thread &t = T[s->id];
    while (sem_wait(&t.sem)) {}
    tid = s->id;
    s->b(s->arg);
    { Busy b; t.done = true; int c = nextRunnable(tid, 0); int me = tid; (void)me; tid = -1; if (c >= 0) sem_post(&T[c].sem); else { for (int i = 0; i < NT; ++i) if (!T[i].done) out->deadlock = "a thread waits for ever"; sem_post(&finished); } }
    return nullptr;
}
Outcome run(int n, Body *bodies, void **args, int first, const std::vector<std::pair<int, int>> &preempt) {
    if (!nskip) {
        dl_iterate_phdr(onObj, nullptr);
        for (const char *s : {"_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "_ZSt3cin"}) if (void *p = dlsym(RTLD_DEFAULT, s)) skip[nskip++] = {(uintptr_t)p, (uintptr_t)p + 300};
    }
    for (int k = 0; k < RLAST; ++k) real<void *>(k);
    if (!arenas) arenas = (char *)mmap(nullptr, (MAXT + 1) * ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arenas == MAP_FAILED) _exit(97);
    Outcome o;
    out = &o; plan = &preempt; NT = n;
    T = new Thread[n]; syncs = new std::map<const void *, Sync>;
    for (int i = 0; i < n; ++i) { sem_init(&T[i].sem, 0, 0); T[i].vc.c[i] = 1; T[i].newSeg(); T[i].recs.reserve(4096); }
    sem_init(&finished, 0, 0);
    static Start st[MAXT]; pthread_t th[MAXT];
    inRun = true;
    for (int i = 0; i < n; ++i) {
        st[i] = {i, bodies[i], args[i]};
        pthread_attr_t at; pthread_attr_init(&at); 
        const size_t SS = 4 << 20;
        void *sp = mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sp == MAP_FAILED) _exit(96);
        pthread_attr_setstack(&at, sp, SS);
        T[i].lo = (uintptr_t)sp; T[i].hi = T[i].lo + SS;
        pthread_create(&th[i], &at, entry, &st[i]);
    }
    sem_post(&T[first].sem);
    while (sem_wait(&finished)) {}
    inRun = false;
    if (!o.deadlock.empty()) return o;
    for (int i = 0; i < n; ++i) pthread_join(th[i], nullptr);
    // conflicting accesses that are not ordered
    for (int a = 0; a < n; ++a) { o.accesses += T[a].accesses; o.words += T[a].n; }
    for (int a = 0; a < n && o.race.empty(); ++a) for (int b = a + 1; b < n && o.race.empty(); ++b) {
        Thread &x = T[a].n < T[b].n ? T[a] : T[b]; Thread &y = &x == &T[a] ? T[b] : T[a];
        int xi = (int)(&x - T), yi = (int)(&y - T);
        for (size_t j = 0; j < x.cap && o.race.empty(); ++j) {
            if (!x.key[j]) continue;
            uint32_t *h = y.find(x.key[j], false);
            if (!h) continue;
            for (uint32_t p = x.val[j]; p && o.race.empty(); p = x.recs[p - 1].next) for (uint32_t q = *h; q; q = y.recs[q - 1].next) {
                Rec &r = x.recs[p - 1], &s = y.recs[q - 1];
                uint8_t ww = r.w & s.w, wr = r.w & s.r, rw = r.r & s.w;
                if (!(ww | wr | rw)) continue;
                const VC &vr = x.segs[r.seg], &vs = y.segs[s.seg];
                if (vr.c[xi] <= vs.c[xi] || vs.c[yi] <= vr.c[yi]) continue; // ordered
                char buf[300];
                void *p1 = (ww | wr) ? r.wpc : r.rpc, *p2 = ww || rw ? s.wpc : s.rpc;
                uintptr_t ad = x.key[j] << 3;
                bool global = ad >= (uintptr_t)&__executable_start && ad < (uintptr_t)&end;
                snprintf(buf, sizeof buf, "thread %d %s and thread %d %s the same %s memory without synchronisation: at %#lx and %#lx", xi, (ww | wr) ? "writes" : "reads", yi, ww || rw ? "writes" : "reads", global ? "global" : mine((void *)ad) ? "heap" : "other", (unsigned long)((char *)p1 - &__executable_start), (unsigned long)((char *)p2 - &__executable_start));
                o.race = buf;
                break;
            }
        }
    }
    return o;
}
} // namespace rt

extern "C" {
// ---- allocation
void *malloc(size_t n) { return inRun ? bump(n) : __libc_malloc(n); }
void free(void *p) { if (p && !mine(p)) { if (!inRun) __libc_free(p); } }
void *calloc(size_t a, size_t b) { return inRun ? bump(a * b) : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) {
    if (!inRun && !mine(p)) return __libc_realloc(p, n);
    void *q = malloc(n);
    if (p) { size_t old = mine(p) ? ((size_t *)p)[-1] : n; memcpy(q, p, old < n ? old : n); }
    return q;
}
void *memalign(size_t al, size_t n) { return inRun ? bump(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : 12; }

// ---- plain accesses
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *a) { access(a, n, false, PC); } void __tsan_write##n(void *a) { access(a, n, true, PC); } void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_read_write##n(void *a) { access(a, n, false, PC); access(a, n, true, PC); } void __tsan_unaligned_read_write##n(void *a) { access(a, n, false, PC); access(a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); } void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, false, PC); } void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }

// ---- atomics
#define AT(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { if (!live()) return __atomic_load_n(a, 5); Atom q(a, false, mo); return *a; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { if (!live()) { __atomic_store_n(a, v, 5); return; } Atom q(a, true, mo); *a = v; } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_exchange_n(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = v; return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_add(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = o + v; return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_sub(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = o - v; return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_and(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = o & v; return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_or(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = o | v; return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_xor(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = o ^ v; return o; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_nand(a, v, 5); Atom q(a, true, mo); ty o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { if (!live()) return __atomic_compare_exchange_n(a, c, v, false, 5, 5); Atom q(a, true, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { if (!live()) return __atomic_compare_exchange_n(a, c, v, false, 5, 5); Atom q(a, true, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { if (!live()) { __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; } Atom q(a, true, mo); ty o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- initialisation of local statics
int __cxa_guard_acquire(uint64_t *g) {
    char *c = (char *)g;
    if (!live()) { if (__atomic_load_n(c, __ATOMIC_ACQUIRE)) return 0; return 1; } // single-threaded
    Busy b;
    point();
    while (true) {
        Sync &s = sync(g);
        if (*c) { s.guardDone = true; acquire(s); return 0; }
        if (s.owner < 0) { s.owner = tid; acquire(s); return 1; }
        block(g);
    }
}
void __cxa_guard_release(uint64_t *g) {
    char *c = (char *)g;
    if (!live()) { __atomic_store_n(c, 1, __ATOMIC_RELEASE); if (tid < 0 && nWarm < 4096) warmGuards[nWarm++] = g; return; }
    Busy b;
    point();
    Sync &s = sync(g); *c = 1; s.guardDone = true; s.owner = -1; release(s); wake(g);
}
void __cxa_guard_abort(uint64_t *g) { if (!live()) return; Busy b; Sync &s = sync(g); s.owner = -1; release(s); wake(g); }

// ---- mutexes and the like, when the program itself uses them
int pthread_mutex_lock(pthread_mutex_t *m) { if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_mutex_t *)>(RLOCK); return f(m); } lockMutex(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_mutex_t *)>(RTRY); return f(m); } Busy b; point(); if (sync(m).owner >= 0) return 16; sync(m).owner = tid; acquire(sync(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_mutex_t *)>(RUNLOCK); return f(m); } Busy b; point(); Sync &s = sync(m); s.owner = -1; release(s); wake(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_rwlock_t *)>(RWR); return f(m); } lockMutex(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_rwlock_t *)>(RRD); return f(m); } Busy b; point(); while (sync(m).owner >= 0) block(m); ++sync(m).readers; acquire(sync(m)); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_rwlock_t *)>(RRWU); return f(m); } Busy b; point(); Sync &s = sync(m); if (s.owner == tid) s.owner = -1; else if (s.readers > 0) --s.readers; release(s); wake(m); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!live() || !fromProgram(PC)) { auto f = real<int (*)(pthread_once_t *, void (*)(void))>(RONCE); return f(o, fn); }
    {
        Busy b; point();
        while (true) { Sync &s = sync(o); if (s.state == 2) { acquire(s); return 0; } if (s.state == 0) { s.state = 1; acquire(s); break; } block(o); }
    }
    fn();
    { Busy b; point(); Sync &s = sync(o); s.state = 2; release(s); wake(o); }
    return 0;
}
// ---- C functions with hidden state
char *setlocale(int c, const char *l) { if (l) pseudo("setlocale", PC); auto f = real<char *(*)(int, const char *)>(RSETLOC); return f(c, l); }
char *strtok(char *s, const char *d) { pseudo("strtok", PC); auto f = real<char *(*)(char *, const char *)>(RSTRTOK); return f(s, d); }
int rand() { pseudo("rand", PC); auto f = real<int (*)()>(RRAND); return f(); }
void srand(unsigned x) { pseudo("rand", PC); auto f = real<void (*)(unsigned)>(RSRAND); f(x); }
int setenv(const char *a, const char *b, int c) { pseudo("environment", PC); auto f = real<int (*)(const char *, const char *, int)>(RSETENV); return f(a, b, c); }
int putenv(char *a) { pseudo("environment", PC); auto f = real<int (*)(char *)>(RPUTENV); return f(a); }
// ---- C functions that read or write memory of the caller
#include <cstdarg>
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { auto g = real<int (*)(char *, size_t, const char *, va_list)>(RVSNPRINTF); int r = g(b, n, f, ap); if (live() && n && r >= 0) access(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, true, PC); return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); auto g = real<int (*)(char *, size_t, const char *, va_list)>(RVSNPRINTF); int r = g(b, n, f, ap); va_end(ap); if (live() && n && r >= 0) access(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, true, PC); return r; }
int vsprintf(char *b, const char *f, va_list ap) { auto g = real<int (*)(char *, size_t, const char *, va_list)>(RVSNPRINTF); int r = g(b, 1 << 30, f, ap); if (live() && r >= 0) access(b, (size_t)r + 1, true, PC); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
double strtod(const char *s, char **e) { auto g = real<double (*)(const char *, char **)>(RSTRTOD); char *x; double r = g(s, &x); if (live()) { access((void *)s, (size_t)(x - s) + 1, false, PC); if (e) access(e, 8, true, PC); } if (e) *e = x; return r; }
long strtol(const char *s, char **e, int b) { auto g = real<long (*)(const char *, char **, int)>(RSTRTOL); char *x; long r = g(s, &x, b); if (live()) { access((void *)s, (size_t)(x - s) + 1, false, PC); if (e) access(e, 8, true, PC); } if (e) *e = x; return r; }
#define STR(s) (__builtin_strlen(s) + 1)
char *strcpy(char *d, const char *s) { size_t n = STR(s); if (live()) { access((void *)s, n, false, PC); access(d, n, true, PC); } return (char *)memmove(d, s, n); }
char *strcat(char *d, const char *s) { size_t n = STR(s), k = __builtin_strlen(d); if (live()) { access((void *)s, n, false, PC); access(d, k, false, PC); access(d + k, n, true, PC); } memmove(d + k, s, n); return d; }
char *strncpy(char *d, const char *s, size_t n) { if (live()) access(d, n, true, PC); size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
}
