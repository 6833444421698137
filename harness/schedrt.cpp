// Runtime for stateless model checking of the real library.
//
// The library and the thread bodies are compiled with -fsanitize=thread, but linked with the
// callbacks below instead of ThreadSanitizer's runtime, and with this file's pthread mutexes,
// guards of function-local statics, call_once, atomics and heap.  Only one thread runs at a time;
// which one continues is decided at every synchronisation operation from a given list of choices.
// Memory accesses of the heap and of the program's globals are checked for data races by vector
// clocks and for use after free, so that exploring the orders of synchronisation operations
// covers all the behaviours of an execution without races.
#include "schedrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include <vector>

extern "C" char __libc_single_threaded;

namespace {
const int MAXT = 4;   // one more than there are threads at most
typedef uint16_t Clk;
struct VC { Clk c[MAXT]; };

// ---------------------------------------------------------------- heap
const size_t ARENA = size_t(8) << 30;
char* arena = nullptr; char* arenaTop = nullptr; char* arenaEnd = nullptr;
struct Hdr { uint64_t size; uint32_t cls; uint32_t state; };  // state: 0x11110000 live, 0xdeadbeef freed
const uint32_t LIVE = 0x11110000u, DEAD = 0xdeadbeefu;
void* freeList[64];
bool quarantineOn = false, noReuse = false;
void* quarantined = nullptr;   // blocks freed meanwhile

// ---------------------------------------------------------------- shadow
struct Cell { Clk w; Clk r[MAXT - 1]; };  // 8 bytes per byte of memory; w: the writer's clock times 4 plus the writer, or FREED
const Clk FREED = 0xffff, REPORTED = 0xfffe;
struct Region { char *lo, *hi; Cell* cells; };
Region heapR, dataR[4]; int nData = 0;

bool active = false;
struct Thread { VC vc; int state; const void* waitObj; int waitKind; volatile int go; };
enum { READY = 0, BLOCKED = 1, DONE = 2 };
Thread th[MAXT]; int nth = 0;
thread_local int me = -1;
thread_local int ignore = 0;
volatile int mainGo = 0;
rt::Trace* tr = nullptr;
std::vector<uint8_t>* choices = nullptr;
uintptr_t exeBase = 0;

void futexWait(volatile int* a, int v) { while (*a == v) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futexWake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

struct Quiet { bool s; Quiet() : s(active) { ignore++; } ~Quiet() { ignore--; } };

void initMemory() {
    if (arena) return;
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { static const char m[] = "arena mmap failed\n"; if (write(2, m, sizeof m)) {} _exit(3); }
    arenaTop = arena + 4096; arenaEnd = arena + ARENA;
    heapR.lo = arena; heapR.hi = arenaEnd;
    heapR.cells = (Cell*)mmap(nullptr, ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (heapR.cells == MAP_FAILED) { static const char m[] = "shadow mmap failed\n"; if (write(2, m, sizeof m)) {} _exit(3); }
}
int sizeClass(size_t n) { int c = 0; size_t s = 16; while (s < n) { s <<= 1; c++; } return c; }

void initData() {
    if (nData) return;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        if (i->dlpi_name && *i->dlpi_name) return 0;  // the program itself comes first, with an empty name
        exeBase = i->dlpi_addr;
        for (int k = 0; k < i->dlpi_phnum; k++) {
            auto& p = i->dlpi_phdr[k];
            if (p.p_type == PT_LOAD && (p.p_flags & PF_W) && nData < 4) {
                Region& r = dataR[nData++]; r.lo = (char*)(i->dlpi_addr + p.p_vaddr); r.hi = r.lo + p.p_memsz;
                r.cells = (Cell*)mmap(nullptr, (r.hi - r.lo) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            }
        }
        return 1;
    }, nullptr);
}

bool inObj(const char* a, const void* o, size_t n) { return a >= (const char*)o && a < (const char*)o + n; }

inline Cell* cellOf(const char* a) {
    if (a >= heapR.lo && a < heapR.hi) return heapR.cells + (a - heapR.lo);
    for (int i = 0; i < nData; i++) if (a >= dataR[i].lo && a < dataR[i].hi) {
        // the standard streams may be used by several threads at once
        if (inObj(a, &std::cerr, sizeof std::cerr) || inObj(a, &std::cout, sizeof std::cout) || inObj(a, &std::clog, sizeof std::clog) || inObj(a, &std::cin, sizeof std::cin)) return nullptr;
        return dataR[i].cells + (a - dataR[i].lo);
    }
    return nullptr;
}
std::string describe(const char* a) {
    char b[200];
    if (a >= heapR.lo && a < heapR.hi) { snprintf(b, sizeof b, "heap memory"); return b; }
    Dl_info i; if (dladdr(a, &i) && i.dli_sname) { snprintf(b, sizeof b, "%s+%ld", i.dli_sname, (long)(a - (char*)i.dli_saddr)); return b; }
    snprintf(b, sizeof b, "global at 0x%lx", (unsigned long)((uintptr_t)a - exeBase)); return b;
}

bool isRaceReported = false;
void race(const char* a, uintptr_t pc, bool write, int other, bool otherWrite) {
    tr->races = tr->races + 1;
    if (isRaceReported) return; isRaceReported = true;
    ignore++;
    rt::report("data race on %s: thread %d %s at pc 0x%lx, thread %d %s, without synchronisation between them", describe(a).c_str(), me, write ? "writes" : "reads",
               (unsigned long)(pc - exeBase), other, otherWrite ? "wrote" : "read");
    ignore--;
}
inline void access(const volatile void* pv, size_t n, bool write, uintptr_t pc) {
    if (!active || me < 0 || ignore) return;
    tr->accesses = tr->accesses + 1;
    const char* p = (const char*)pv;
    Cell* c = cellOf(p); if (!c) return;
    VC& vc = th[me].vc; Clk mine = vc.c[me], epoch = (Clk)(mine * 4 + me);
    for (size_t i = 0; i < n; i++, c++, p++) {
        if (c->w >= REPORTED) {
            if (c->w == FREED) { c->w = REPORTED; ignore++; rt::report("use of freed memory: thread %d %s a freed block at pc 0x%lx", me, write ? "writes" : "reads", (unsigned long)(pc - exeBase)); ignore--; }
            continue;
        }
        int wt = c->w & 3;
        if (c->w && wt != me && (c->w >> 2) > vc.c[wt]) race(p, pc, write, wt, true);
        if (write) {
            for (int t = 0; t < nth; t++) if (t != me && c->r[t] > vc.c[t]) race(p, pc, true, t, false);
            c->w = epoch;
        } else c->r[me] = mine;
    }
}
void onAlloc(char* p, size_t n) {
    (void)p; (void)n;   // never reused during an execution, and nothing is recorded before it: its shadow is empty
}
void onFree(char* p, size_t n, uintptr_t pc) {
    if (!active || me < 0) return;
    if (n > 4096) n = 4096;   // of a big block, its beginning stands for all of it
    access(p, n, true, pc);
    Cell* c = cellOf(p); if (c) for (size_t i = 0; i < n; i++) c[i].w = FREED;
}

// ---------------------------------------------------------------- synchronisation objects
struct Sync { const void* key; VC vc; int owner; int depth; int readers; int state; VC rvc; int waiters; };
Sync syncs[4096]; int nSync = 0;
Sync& sync(const void* k) {
    // open addressing without removal: few objects per execution
    size_t i = ((uintptr_t)k >> 3) % 4096;
    for (size_t n = 0; n < 4096; n++, i = (i + 1) % 4096) {
        if (syncs[i].key == k) return syncs[i];
        if (!syncs[i].key) { syncs[i].key = k; syncs[i].owner = -1; nSync++; return syncs[i]; }
    }
    static const char m[] = "too many synchronisation objects\n"; if (write(2, m, sizeof m)) {} _exit(3);
}
void tick() { if (++th[me].vc.c[me] >= 16000) { rt::report("too many synchronisation operations [RT]"); _exit(48); } }
void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void acquire(Sync& s) { join(th[me].vc, s.vc); }
void release(Sync& s) { join(s.vc, th[me].vc); tick(); }

enum { W_LOCK = 1, W_RDLOCK, W_WRLOCK, W_GUARD, W_COND, W_JOIN };
bool enabled(int t) {
    Thread& x = th[t];
    if (x.state == READY) return true;
    if (x.state == DONE) return false;
    Sync& s = sync(x.waitObj);
    switch (x.waitKind) {
        case W_LOCK: return s.owner < 0 || s.owner == t;
        case W_RDLOCK: return s.owner < 0;
        case W_WRLOCK: return s.owner < 0 && s.readers == 0;
        case W_GUARD: return s.state != 1;
        case W_COND: return s.waiters == 0 ? false : false;
    }
    return false;
}
void dieDeadlock() {
    ignore++;
    std::string s; for (int t = 0; t < nth; t++) { char b[60]; snprintf(b, sizeof b, " thread %d %s;", t, th[t].state == DONE ? "ended" : "waits"); s += b; }
    rt::report("deadlock:%s", s.c_str());
    _exit(44);
}
// hand the processor to thread t (it may be the caller)
void switchTo(int t) {
    if (t == me) return;
    th[me].go = 0;
    th[t].go = 1; futexWake(&th[t].go);
    if (th[me].state != DONE) futexWait(&th[me].go, 0);
}
bool forceYield = false;   // set by a thread that waits by polling: another one continues if it can
int streak = 0, streakOf = -1;
void choose(char kind) {
    if (streakOf == me) streak++; else { streakOf = me; streak = 0; }
    if (kind == 'a' && streak > 300) { forceYield = true; streak = 0; }
    if (tr->ops > 3000000) { rt::report("execution does not end (livelock?)"); _exit(45); }
    int en[MAXT], n = 0; bool run = th[me].state != DONE && enabled(me);
    if (forceYield) {
        forceYield = false; tr->ops = tr->ops + 1;
        for (int k = 1; k < nth; k++) { int t = (me + k) % nth; if (enabled(t)) { switchTo(t); return; } }
        return;
    }
    if (run) en[n++] = me;
    for (int t = 0; t < nth; t++) if (t != me && enabled(t)) en[n++] = t;
    tr->ops = tr->ops + 1;
    if (n == 0) {
        bool all = true; for (int t = 0; t < nth; t++) if (th[t].state != DONE) all = false;
        if (!all) dieDeadlock();
        tr->finished = 1; mainGo = 1; futexWake(&mainGo); return;
    }
    int c = 0;
    if (n > 1) {
        uint32_t i = tr->n;
        if (i >= sizeof tr->p / sizeof tr->p[0]) { rt::report("execution has too many scheduling points (livelock?)"); _exit(45); }
        if (choices && i < choices->size()) c = (*choices)[i];
        if (c >= n) { rt::report("schedule does not replay: choice %d of %d at point %d [RT]", c, n, i); _exit(46); }
        tr->p[i] = {(unsigned char)c, (unsigned char)n, (unsigned char)run, (unsigned char)kind}; tr->n = i + 1;
    }
    switchTo(en[c]);
}
inline bool on() { return active && me >= 0 && !ignore; }
void schedPoint(char kind) { if (on()) choose(kind); }
void block(const void* obj, int kind) {
    th[me].state = BLOCKED; th[me].waitObj = obj; th[me].waitKind = kind;
    choose('b');
    th[me].state = READY;
}

template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define PC ((uintptr_t)__builtin_return_address(0))
}  // namespace

namespace rt {
void report(const char* f, ...) {
    if (!tr || tr->msg[0]) return;
    va_list a; va_start(a, f); vsnprintf(tr->msg, sizeof tr->msg, f, a); va_end(a);
}
int self() { return me; }
void ignore(int d) { ::ignore += d; }
void point(const char*) { schedPoint('x'); }
void quarantine(bool on) {
    quarantineOn = on;
    while (!on && quarantined) {
        char* p = (char*)quarantined; void** l = (void**)(p + sizeof(Hdr)); quarantined = *l;
        int c = ((Hdr*)p)->cls; *l = freeList[c]; freeList[c] = p;
    }
}
bool isFreed(const void* p) {
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    return (char*)h < arena || (char*)h >= arenaTop || h->state != LIVE;
}
struct Arg { int id; std::function<void()> f; };
static void* threadMain(void* v) {
    Arg* a = (Arg*)v; me = a->id;
    futexWait(&th[me].go, 0);
    try { a->f(); } catch (std::exception& e) { report("thread %d: uncaught exception %s", me, e.what()); } catch (...) { report("thread %d: uncaught exception", me); }
    th[me].state = DONE;
    choose('e');
    me = -1;
    return nullptr;
}
void run(const std::vector<std::function<void()>>& bodies, const std::vector<uint8_t>& ch, Trace* t) {
    initData(); __libc_single_threaded = 0;
    tr = t; std::vector<uint8_t> c = ch; choices = &c;
    nth = (int)bodies.size(); std::vector<Arg> args(nth); std::vector<pthread_t> ids(nth);
    for (int i = 0; i < nth; i++) { memset(&th[i], 0, sizeof th[i]); th[i].vc.c[i] = 1; args[i].id = i; args[i].f = bodies[i]; }
    quarantineOn = noReuse = true;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 0; i < nth; i++) pthread_create(&ids[i], &at, threadMain, &args[i]);
    active = true; mainGo = 0;
    // the first thread to run is a decision like any other
    {
        int first = 0;
        if (nth > 1) { if (!c.empty()) first = c[0]; if (first >= nth) { report("schedule does not replay [RT]"); _exit(46); } t->p[0] = {(unsigned char)first, (unsigned char)nth, 0, 's'}; t->n = 1; }
        th[first].go = 1; futexWake(&th[first].go);
    }
    futexWait(&mainGo, 0);
    active = false;
    for (int i = 0; i < nth; i++) pthread_join(ids[i], nullptr);
    choices = nullptr;
}
}  // namespace rt

// ==================================================================== heap
extern "C" {
void* malloc(size_t n) {
    initMemory();
    int c = sizeClass((n < 16 ? 16 : n) + sizeof(Hdr));
    size_t sz = size_t(16) << c;
    char* p = nullptr;
    if (n > (size_t(1) << 31)) { errno = ENOMEM; return nullptr; }
    if (!noReuse && freeList[c]) { p = (char*)freeList[c]; freeList[c] = *(void**)(p + sizeof(Hdr)); }
    else {
        p = __atomic_fetch_add(&arenaTop, sz, __ATOMIC_RELAXED);
        if (p + sz > arenaEnd) { errno = ENOMEM; return nullptr; }
    }
    Hdr* h = (Hdr*)p; h->size = n; h->cls = c; h->state = LIVE;
    onAlloc(p + sizeof(Hdr), n);
    return p + sizeof(Hdr);
}
void free(void* v) {
    if (!v) return;
    char* p = (char*)v - sizeof(Hdr);
    if (p < arena || p >= arenaTop) return;
    Hdr* h = (Hdr*)p;
    if (h->state == DEAD) { rt::report("double free by thread %d at pc 0x%lx", me, (unsigned long)(PC - exeBase)); if (!tr) abort(); return; }
    if (h->state != LIVE) { rt::report("free of a pointer that was not allocated, by thread %d at pc 0x%lx", me, (unsigned long)(PC - exeBase)); if (!tr) abort(); return; }
    onFree((char*)v, h->size, PC);
    h->state = DEAD;
    if (!quarantineOn) { *(void**)v = freeList[h->cls]; freeList[h->cls] = p; }
    else if (!active) { *(void**)v = quarantined; quarantined = p; }
}
void* calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = malloc(n); if (p) memset(p, 0, n); return p;
}
void* realloc(void* v, size_t n) {
    if (!v) return malloc(n);
    if (!n) { free(v); return nullptr; }
    Hdr* h = (Hdr*)((char*)v - sizeof(Hdr));
    void* p = malloc(n); if (!p) return nullptr;
    memcpy(p, v, h->size < n ? h->size : n); free(v); return p;
}
static void* aligned(size_t al, size_t n) {
    if (al <= 16) return malloc(n);
    // over-allocate and never reuse: rare
    char* p = (char*)malloc(n + al + sizeof(Hdr)); if (!p) return nullptr;
    char* q = (char*)(((uintptr_t)p + al - 1) & ~(uintptr_t)(al - 1));
    if (q != p) { q = (char*)(((uintptr_t)p + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1)); Hdr* h = (Hdr*)(q - sizeof(Hdr)); h->size = n; h->cls = 0; h->state = LIVE; }
    return q;
}
int posix_memalign(void** o, size_t al, size_t n) { *o = aligned(al, n); return *o ? 0 : ENOMEM; }
void* memalign(size_t al, size_t n) { return aligned(al, n); }
void* aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
size_t malloc_usable_size(void* v) { return v ? ((Hdr*)((char*)v - sizeof(Hdr)))->size : 0; }

// ==================================================================== locks
// Outside controlled executions only one thread runs, so the real functions are not needed.
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int lockImpl(pthread_mutex_t* m, bool try_) {
    if (!on()) return 0;
    choose('l');
    Sync& s = sync(m);
    if (s.owner == me) {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try_) return EBUSY;
        rt::report("deadlock: thread %d locks a mutex it already holds", me); _exit(44);
    }
    while (s.owner >= 0) { if (try_) return EBUSY; block(m, W_LOCK); }
    s.owner = me; s.depth = 1; acquire(s);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lockImpl(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockImpl(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) return 0;
    Sync& s = sync(m);
    if (s.owner != me) { rt::report("thread %d unlocks a mutex it does not hold", me); return EPERM; }
    if (--s.depth) return 0;
    s.owner = -1; release(s);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (on()) { Sync& s = sync(m); s.owner = -1; s.depth = 0; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (on()) { Sync& s = sync(m); if (s.owner >= 0) rt::report("thread %d destroys a locked mutex", me); s.owner = -1; }
    return 0;
}
int pthread_spin_init(pthread_spinlock_t* m, int) { *(int*)m = 1; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) {
    if (!on()) return 0;
    choose('l'); Sync& s = sync((void*)m);
    if (s.owner == me) { rt::report("deadlock: thread %d locks a spinlock it already holds", me); _exit(44); }
    while (s.owner >= 0) block((void*)m, W_LOCK);
    s.owner = me; acquire(s); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    if (!on()) return 0;
    Sync& s = sync((void*)m); if (s.owner != me) { rt::report("thread %d unlocks a spinlock it does not hold", me); return EPERM; }
    s.owner = -1; release(s); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); if (on()) { Sync& s = sync(m); s.owner = -1; s.readers = 0; } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!on()) return 0; choose('l'); Sync& s = sync(m); while (s.owner >= 0) block(m, W_RDLOCK); s.readers++; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on()) return 0; choose('l'); Sync& s = sync(m); while (s.owner >= 0 || s.readers) block(m, W_WRLOCK); s.owner = me; acquire(s); join(th[me].vc, s.rvc); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!on()) return 0; choose('l'); Sync& s = sync(m); if (s.owner >= 0) return EBUSY; s.readers++; acquire(s); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!on()) return 0; choose('l'); Sync& s = sync(m); if (s.owner >= 0 || s.readers) return EBUSY; s.owner = me; acquire(s); join(th[me].vc, s.rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!on()) return 0;
    Sync& s = sync(m);
    if (s.owner == me) { s.owner = -1; release(s); }
    else { s.readers--; join(s.rvc, th[me].vc); tick(); }  // a reader is ordered before the next writer only
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!on()) { if (*(int*)o != 2) { *(int*)o = 2; f(); } return 0; }
    if (*(int*)o == 2) { acquire(sync(o)); return 0; }   // completed: nothing depends on the order any more
    choose('o'); Sync& s = sync(o);
    while (s.state == 1) block(o, W_GUARD);
    if (*(int*)o == 2) { acquire(s); return 0; }
    s.state = 1; f(); s.state = 2; *(int*)o = 2; release(s);
    return 0;
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { rt::report("condition variables are not modelled [RT]"); _exit(47); }

// ---- function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    char* b = (char*)g;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (b[0]) { acquire(sync(g)); return 0; }
    choose('g'); Sync& s = sync(g);
    while (s.state == 1 && !b[0]) {
        if (s.owner == me) { rt::report("deadlock: recursive initialisation of a static by thread %d", me); _exit(44); }
        block(g, W_GUARD);
    }
    if (b[0]) { acquire(s); return 0; }
    s.state = 1; s.owner = me; return 1;
}
void __cxa_guard_release(uint64_t* g) {
    char* b = (char*)g;
    b[0] = 1; b[1] = 0;
    if (!on()) return;
    Sync& s = sync(g); s.state = 2; s.owner = -1; release(s);
}
void __cxa_guard_abort(uint64_t* g) {
    ((char*)g)[1] = 0;
    if (!on()) return;
    Sync& s = sync(g); s.state = 0; s.owner = -1; release(s);
}

// ==================================================================== libc functions with hidden state
static char strtokState, localeState, randState, timeState, envState;
static char* strtokPos;
static void hidden(char* st, bool write, uintptr_t pc) { if (on()) { choose('h'); access(st, 1, write, pc); } }
char* strtok(char* s, const char* d) { hidden(&strtokState, true, PC); return strtok_r(s, d, &strtokPos); }
int rand(void) { hidden(&randState, true, PC); static auto f = real<int (*)()>("rand"); return f(); }
void srand(unsigned s) { hidden(&randState, true, PC); static auto f = real<void (*)(unsigned)>("srand"); f(s); }
char* setlocale(int c, const char* l) { hidden(&localeState, l != nullptr, PC); static auto f = real<char* (*)(int, const char*)>("setlocale"); ignore++; char* r = f(c, l); ignore--; return r; }
struct tm* localtime(const time_t* t) { hidden(&timeState, true, PC); static auto f = real<struct tm* (*)(const time_t*)>("localtime"); ignore++; auto r = f(t); ignore--; return r; }
struct tm* gmtime(const time_t* t) { hidden(&timeState, true, PC); static auto f = real<struct tm* (*)(const time_t*)>("gmtime"); ignore++; auto r = f(t); ignore--; return r; }
char* ctime(const time_t* t) { hidden(&timeState, true, PC); static auto f = real<char* (*)(const time_t*)>("ctime"); ignore++; auto r = f(t); ignore--; return r; }
int setenv(const char* a, const char* b, int o) { hidden(&envState, true, PC); static auto f = real<int (*)(const char*, const char*, int)>("setenv"); ignore++; int r = f(a, b, o); ignore--; return r; }
char* getenv(const char* a) {
    if (on()) access(&envState, 1, false, PC);
    extern char** environ; size_t n = strlen(a);
    for (char** e = environ; e && *e; e++) if (!strncmp(*e, a, n) && (*e)[n] == '=') return *e + n + 1;
    return nullptr;
}
int chdir(const char* p) { schedPoint('h'); return (int)syscall(SYS_chdir, p); }

// ---- copies made inside the C++ library and zlib (calls from there reach these)
static inline void copyFwd(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void* rawMove(void* d, const void* s, size_t n) {
    if ((uintptr_t)d - (uintptr_t)s >= n) copyFwd(d, s, n);
    else { char* a = (char*)d; const char* b = (const char*)s; while (n--) a[n] = b[n]; }
    return d;
}
static inline void* rawSet(void* d, int v, size_t n) { void* r = d; asm volatile("rep stosb" : "+D"(r), "+c"(n) : "a"(v) : "memory"); return d; }
void* memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return rawMove(d, s, n); }
void* memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return rawMove(d, s, n); }
void* memset(void* d, int v, size_t n) { access(d, n, true, PC); return rawSet(d, v, n); }

// ---- file operations: scheduling points and buffer accesses
FILE* fopen(const char* p, const char* m) { schedPoint('f'); static auto f = real<FILE* (*)(const char*, const char*)>("fopen"); ignore++; FILE* r = f(p, m); ignore--; return r; }
FILE* fopen64(const char* p, const char* m) { schedPoint('f'); static auto f = real<FILE* (*)(const char*, const char*)>("fopen64"); ignore++; FILE* r = f(p, m); ignore--; return r; }
int fclose(FILE* s) { static auto f = real<int (*)(FILE*)>("fclose"); ignore++; int r = f(s); ignore--; return r; }
ssize_t read(int fd, void* b, size_t n) { schedPoint('f'); ssize_t r; do r = syscall(SYS_read, fd, b, n); while (r < 0 && errno == EINTR); if (r > 0) access(b, (size_t)r, true, PC); return r; }
int remove(const char* p) { schedPoint('f'); return (int)syscall(SYS_unlink, p); }
int unlink(const char* p) { schedPoint('f'); return (int)syscall(SYS_unlink, p); }
int rename(const char* a, const char* b) { schedPoint('f'); return (int)syscall(SYS_rename, a, b); }

}
// ---- specialisations that live in the C++ library, so their effects on memory are not instrumented
typedef std::istream& (*GetlineF)(std::istream&, std::string&, char);
typedef std::istream& (*ExtractF)(std::istream&, std::string&);
std::istream& rtGetline(std::istream&, std::string&, char) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
std::istream& rtGetline(std::istream& i, std::string& s, char d) {
    access(&s, sizeof s, true, PC); access(s.data(), s.size(), true, PC);
    static GetlineF f = real<GetlineF>("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
    return f(i, s, d);
}
std::istream& rtExtract(std::istream&, std::string&) asm("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream& rtExtract(std::istream& i, std::string& s) {
    access(&s, sizeof s, true, PC); access(s.data(), s.size(), true, PC);
    static ExtractF f = real<ExtractF>("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
    return f(i, s);
}
void rtInsert(bool, void*, void*, void*) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void rtInsert(bool l, void* x, void* p, void* h) {
    access(p, 32, true, PC); access(h, 32, true, PC);
    static auto f = real<void (*)(bool, void*, void*, void*)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    f(l, x, p, h);
}
void* rtErase(void*, void*) asm("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void* rtErase(void* z, void* h) {
    access(z, 32, true, PC); access(h, 32, true, PC);
    static auto f = real<void* (*)(void*, void*)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    return f(z, h);
}
extern "C" {
int sched_yield(void) throw() { if (on()) { forceYield = true; choose('y'); } return 0; }
// ==================================================================== compiler callbacks
#define ACC(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return rawMove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return rawMove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(d, n, true, PC); return rawSet(d, v, n); }

// ---- atomics: scheduling points that synchronise (relaxed ones order nothing)
static void atomicBegin(const volatile void*) { if (on()) choose('a'); }
static void atomicAcq(const volatile void* a, int mo) { if (on() && mo != 0 && mo != 3) acquire(sync((const void*)a)); }
static void atomicRel(const volatile void* a, int mo) { if (on() && (mo == 3 || mo == 4 || mo == 5)) release(sync((const void*)a)); }
// (real atomic operations: outside controlled executions they act on memory shared between processes)
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomicBegin(a); T v = __atomic_load_n(a, 5); atomicAcq(a, mo); return v; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomicBegin(a); atomicRel(a, mo); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_exchange_n(a, v, 5); atomicRel(a, mo); return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_fetch_add(a, v, 5); atomicRel(a, mo); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_fetch_sub(a, v, 5); atomicRel(a, mo); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_fetch_and(a, v, 5); atomicRel(a, mo); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_fetch_or(a, v, 5); atomicRel(a, mo); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_fetch_xor(a, v, 5); atomicRel(a, mo); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomicBegin(a); atomicAcq(a, mo); T o = __atomic_fetch_nand(a, v, 5); atomicRel(a, mo); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { atomicBegin(a); if (__atomic_compare_exchange_n(a, c, v, false, 5, 5)) { atomicAcq(a, mo); atomicRel(a, mo); return 1; } atomicAcq(a, fmo); return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
