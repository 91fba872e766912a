// Stateless deviation-bounded schedule explorer; see DESIGN.md (Machine A).
// This file is compiled WITHOUT instrumentation.
#include "mc.h"
#include <aio.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <algorithm>

extern "C" uint64_t mc_mockTsc __asm__("_ZN9PerfUtils6Cycles12mockTscValueE") __attribute__((weak));
extern "C" double mc_mockCps __asm__("_ZN9PerfUtils6Cycles16mockCyclesPerSecE") __attribute__((weak));

#define RA __builtin_return_address(0)

// ---------------------------------------------------------------- raw helpers
static void *rawmap(size_t n, void *at = nullptr) {
    void *p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED : 0), -1, 0);
    if (p == MAP_FAILED) { dprintf(2, "mc: mmap failed\n"); _exit(70); }
    return p;
}

// ---------------------------------------------------------------- threads
static const int MAXT = 14;
static const int DEV = MAXT - 1;             // virtual disk
typedef uint32_t VC[MAXT];

enum PK { PK_RUN, PK_LOCK, PK_COND, PK_JOIN, PK_AIOSUSP, PK_RDLOCK, PK_WRLOCK, PK_SEM, PK_GUARD };
struct Thr {
    bool used = false, started = false, done = false, detached = false;
    PK pk = PK_RUN;
    void *obj = nullptr;       // mutex / cond / target
    void *mtx = nullptr;       // mutex to re-acquire after cond
    bool timed = false, timedout = false, signaled = false;
    uint64_t deadline = 0;
    const struct aiocb *const *list = nullptr; int nlist = 0;
    int parked = 0; void *sp = nullptr, *fs = nullptr;
    VC vc;
    void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
    pthread_t real{}; pthread_t handle{};
    char *stkLo = nullptr, *stkHi = nullptr;
    bool lib = false; int keyRounds = 0; uint64_t ticks = 0; uint64_t lastRun = 0;
};
static Thr T[MAXT];
static int nthreads = 1;                      // 0 is main
static __thread int self = 0;
static bool g_active = false;                 // model running
static bool g_interactive = false;            // engine initialised
static int current = 0;

// ---------------------------------------------------------------- result area
struct PointRec { uint8_t nalts; uint8_t chosen; uint8_t kind; uint8_t tid; };
static const int MAXP = 60000;
struct Result {
    volatile int outcome;   // 0 running,1 ok,2 violation
    volatile int npoints;   // recorded multi-choice points
    volatile uint64_t steps;
    volatile uint64_t switches;
    volatile int nraces;
    volatile int diverged;
    volatile int ndevUsed;
    uint64_t obs;
    uint64_t traceHash;
    uint64_t races[512];
    char msg[4096];
    char notes[8192];
    PointRec pts[MAXP];
};
static Result *R = nullptr;
static uint64_t stepLimit = 20000;

struct Dev1 { int at; int alt; };
struct Policy { int order; int devEager; int timeoutEvery; };
static Policy pol;
static std::vector<Dev1> *devs = nullptr;
static size_t devPos = 0;
static const mc::Scenario *scen = nullptr;

// race set (granules) in shared memory
struct RaceSet { volatile uint64_t n; uint64_t slot[1 << 14]; };
static RaceSet *RS = nullptr;
static inline bool inRace(uint64_t g) {
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 50;
    while (RS->slot[h]) { if (RS->slot[h] == g) return true; h = (h + 1) & ((1 << 14) - 1); }
    return false;
}
static bool addRace(uint64_t g) {
    if (inRace(g)) return false;
    if (RS->n > 12000) return false;
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 50;
    while (RS->slot[h]) h = (h + 1) & ((1 << 14) - 1);
    RS->slot[h] = g; RS->n = RS->n + 1; return true;
}

// ---------------------------------------------------------------- deterministic heap
static char *const HEAP = (char *)0x200000000000ull;
static const size_t ARENA = 1ull << 28;      // 256 MB per thread
static char *const SHADOW = (char *)0x300000000000ull;   // 1 byte per 16
static size_t heapPos[MAXT];
static __thread int arenaOverride = -1;      // engine-internal allocations go to the device arena
struct EngineScope { int o; EngineScope() : o(arenaOverride) { arenaOverride = DEV; } ~EngineScope() { arenaOverride = o; } };
static bool heapInit = false;
struct BlkHdr { uint64_t size; uint64_t magic; };
static const uint64_t LIVE = 0xA110CA7ED0000001ull, FREED = 0xF4EED00000000001ull, BIG = 0xB16B10C000000001ull;
static void heapSetup() {
    heapInit = true;
    rawmap(ARENA * MAXT, HEAP);
    rawmap(ARENA * MAXT / 16, SHADOW);
}
static inline bool inHeap(const void *p) { return (char *)p >= HEAP && (char *)p < HEAP + ARENA * MAXT; }
static void *mcAlloc(size_t n, size_t align) {
    if (!heapInit) heapSetup();
    if (n == 0) n = 1;
    if (align < 16) align = 16;
    if (n >= (32u << 20)) {
        char *p = (char *)rawmap(n + align + 4096);
        uintptr_t u = ((uintptr_t)p + sizeof(BlkHdr) + align - 1) & ~(align - 1);
        BlkHdr *h = (BlkHdr *)(u - sizeof(BlkHdr));
        h->size = n; h->magic = BIG;
        return (void *)u;
    }
    int a = arenaOverride >= 0 ? arenaOverride : self < 0 ? 0 : self;
    uintptr_t base = (uintptr_t)HEAP + a * ARENA;
    uintptr_t u = (base + heapPos[a] + 16 + sizeof(BlkHdr) + align - 1) & ~(uintptr_t)(align - 1);
    size_t end = ((u - base) + n + 15) & ~15ull;
    if (end + 64 > ARENA) { dprintf(2, "mc: arena exhausted\n"); _exit(71); }
    heapPos[a] = end + 16;
    BlkHdr *h = (BlkHdr *)(u - sizeof(BlkHdr));
    h->size = n; h->magic = LIVE;
    char *sh = SHADOW + (u - (uintptr_t)HEAP) / 16;
    size_t full = n / 16;
    for (size_t i = 0; i < full; i++) sh[i] = 16;
    if (n % 16) sh[full] = n % 16;
    return (void *)u;
}
static void mcFree(void *p) {
    if (!p) return;
    BlkHdr *h = (BlkHdr *)((char *)p - sizeof(BlkHdr));
    if (h->magic == BIG) { h->magic = FREED; return; }
    if (!inHeap(p)) return;
    if (h->magic != LIVE) {
        if (g_active) mc::fail("heap: invalid or double free of %p", p);
        return;
    }
    h->magic = FREED;
    char *sh = SHADOW + ((char *)p - HEAP) / 16;
    size_t n = (h->size + 15) / 16;
    for (size_t i = 0; i < n; i++) sh[i] = (char)255;
}
namespace mc {
int liveHeapBlocks(size_t atLeast, size_t below) {
    int c = 0;
    for (int a = 0; a < MAXT; a++) {
        char *base = HEAP + a * ARENA;
        for (size_t o = 0; o + 16 < heapPos[a]; o += 16) {
            BlkHdr *h = (BlkHdr *)(base + o);
            if (h->magic == LIVE && h->size >= atLeast && h->size < below) c++;
        }
    }
    return c;
}
}
extern "C" {
void *malloc(size_t n) { return mcAlloc(n, 16); }
void free(void *p) { mcFree(p); }
void *calloc(size_t a, size_t b) { size_t n = a * b; void *p = mcAlloc(n, 16); return p; /* fresh pages are zero, never reused */ }
static size_t blkSize(void *p) { return ((BlkHdr *)((char *)p - sizeof(BlkHdr)))->size; }
void *realloc(void *p, size_t n) {
    if (!p) return mcAlloc(n, 16);
    if (n == 0) { mcFree(p); return nullptr; }
    void *q = mcAlloc(n, 16);
    size_t o = blkSize(p);
    char *s = (char *)p, *d = (char *)q;
    for (size_t i = 0; i < (o < n ? o : n); i++) d[i] = s[i];
    mcFree(p);
    return q;
}
int posix_memalign(void **out, size_t al, size_t n) { *out = mcAlloc(n, al); return 0; }
void *aligned_alloc(size_t al, size_t n) { return mcAlloc(n, al); }
void *memalign(size_t al, size_t n) { return mcAlloc(n, al); }
size_t malloc_usable_size(void *p) { return p ? blkSize(p) : 0; }
}

// ---------------------------------------------------------------- hand-off
// All model threads run on the one operating-system thread of the execution: every model thread is created as a real thread
// (own stack, thread-local storage and exit handlers), which parks for good as soon as it is set up; from then on its context
// (stack pointer and thread pointer) is switched to like a coroutine's.
extern "C" void mcCtxSwitch(void **saveSp, void *newSp, void *newFs);
extern "C" void mcCtxPark(void **saveSp, int *ready);
asm(R"(
.text
.type mcCtxSwitch,@function
.globl mcCtxSwitch
mcCtxSwitch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    movl mcFsgsbase(%rip),%eax
    testl %eax,%eax
    jz 1f
    wrfsbase %rdx
    jmp 2f
1:  movl $158,%eax
    movl $0x1002,%edi
    movq %rdx,%rsi
    syscall
2:  popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mcCtxSwitch,.-mcCtxSwitch
.type mcCtxPark,@function
.globl mcCtxPark
mcCtxPark:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movl $1,(%rsi)
    movq %rsi,%rdi
    movl $1,%esi
    movl $1,%edx
    xorl %r10d,%r10d
    movl $202,%eax
    syscall
3:  movl $34,%eax
    syscall
    jmp 3b
.size mcCtxPark,.-mcCtxPark
)");
extern "C" { int mcFsgsbase = 0; }
static void *fsBase() { void *p; asm volatile("movq %%fs:0,%0" : "=r"(p)); return p; }
static long futex(int *a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

static void finish(int outcome) __attribute__((noreturn));
static void finish(int outcome) {
    g_active = false;
    R->outcome = outcome;
    _exit(0);
}
namespace mc {
void fail(const char *fmt, ...) {
    bool was = g_active; g_active = false;
    va_list ap; va_start(ap, fmt);
    char b[3000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(R->msg, sizeof R->msg, "%s", b);
    (void)was;
    finish(2);
}
void note(const char *fmt, ...) {
    bool was = g_active; g_active = false;
    va_list ap; va_start(ap, fmt);
    size_t l = strlen(R->notes);
    vsnprintf(R->notes + l, sizeof(R->notes) - l, fmt, ap); va_end(ap);
    g_active = was;
}
int tid() { return self; }
bool active() { return g_active; }
void setActive(bool b) { g_active = b; }
}

// ---------------------------------------------------------------- vector clocks
static void vjoin(VC a, const VC b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
struct SyncObj { VC vc; int owner; int count; int readers; };
static std::map<const void *, SyncObj> *objs = nullptr;
static SyncObj &obj(const void *p) {
    EngineScope es;
    auto it = objs->find(p);
    if (it == objs->end()) { SyncObj o; memset(&o, 0, sizeof o); o.owner = -1; it = objs->emplace(p, o).first; }
    return it->second;
}
static void acq(const void *p) { vjoin(T[self].vc, obj(p).vc); }
static void rel(const void *p) { vjoin(obj(p).vc, T[self].vc); T[self].vc[self]++; }

struct Cell { uint64_t g; int8_t wt; uint32_t wc; uint32_t r[MAXT]; };
static const int CELLS = 1 << 15;
static Cell *cells = nullptr;
static Cell *cellOf(uint64_t g) {
    size_t h = ((((g >> 6) * 0x9E3779B97F4A7C15ull) >> 55) << 6) | (g & 63);   // neighbours share a page: page faults dominate short executions
    int n = 0;
    while (cells[h].g && cells[h].g != g) { h = (h + 1) & (CELLS - 1); if (++n > 2000) return nullptr; }
    if (!cells[h].g) { cells[h].g = g; cells[h].wt = -1; }
    return &cells[h];
}
static void reportRace(uint64_t g) {
    if (inRace(g)) return;
    for (int i = 0; i < R->nraces; i++) if (R->races[i] == g) return;
    if (R->nraces < 512) { R->races[R->nraces] = g; R->nraces = R->nraces + 1; }
}
static void raceCheck(uint64_t g, int t, bool write) {
    Cell *c = cellOf(g);
    if (!c) return;
    Thr &me = T[t];
    if (c->wt >= 0 && c->wt != t && c->wc > me.vc[c->wt]) reportRace(g);
    if (write) {
        for (int i = 0; i < MAXT; i++) if (i != t && c->r[i] > me.vc[i]) reportRace(g);
        c->wt = t; c->wc = me.vc[t];
    } else c->r[t] = me.vc[t];
}

// ---------------------------------------------------------------- clock
static uint64_t clockNs = 1000000000ull;
static uint64_t tscTicks = 0;
namespace mc { uint64_t logicalNow() { return tscTicks; } }

// ---------------------------------------------------------------- AIO device
struct Aio { struct aiocb *cb; bool pending; int err; ssize_t ret; int kind; };
static std::vector<Aio> *aios = nullptr;
static Aio *aioOf(const struct aiocb *cb) {
    for (size_t i = aios->size(); i-- > 0;) if ((*aios)[i].cb == cb) return &(*aios)[i];
    return nullptr;
}
struct FState { uint64_t durable; };
static std::map<std::pair<uint64_t, uint64_t>, FState> *fstates = nullptr;
static std::pair<uint64_t, uint64_t> inoOf(int fd, uint64_t *size) {
    struct stat st; memset(&st, 0, sizeof st);
    if (fstat(fd, &st) != 0) { if (size) *size = 0; return {0, 0}; }
    if (size) *size = st.st_size;
    return {st.st_dev, st.st_ino};
}
static void markDurable(int fd) {
    EngineScope es;
    uint64_t sz; auto k = inoOf(fd, &sz);
    (*fstates)[k].durable = sz;
}
static uint64_t nAioDone = 0;
static bool directFd(int fd);
static void devComplete(Aio &a) {
    struct aiocb *cb = a.cb;
    int fl = fcntl(cb->aio_fildes, F_GETFL);
    if (a.kind == 1) { markDurable(cb->aio_fildes); a.ret = 0; a.err = 0; a.pending = false; nAioDone++; vjoin(T[DEV].vc, T[DEV].vc); return; }
    const char *b = (const char *)(void *)cb->aio_buf;
    // the device reads the buffer now
    if (inHeap(b) && cb->aio_nbytes) {
        unsigned char s0 = SHADOW[(b - HEAP) / 16], s1 = SHADOW[(b + cb->aio_nbytes - 1 - HEAP) / 16];
        if (s0 == 255 || s1 == 255 || s0 == 0 || s1 == 0) mc::fail("disk write reads freed/unallocated memory");
    }
    ssize_t r;
    if (fl < 0) { r = -1; errno = EBADF; }
    else if (directFd(cb->aio_fildes) && (cb->aio_nbytes % 512 || (uintptr_t)b % 512)) { r = -1; errno = EINVAL; }
    else if (fl & O_APPEND) {
        r = syscall(SYS_write, cb->aio_fildes, b, cb->aio_nbytes);
    } else
        r = syscall(SYS_pwrite64, cb->aio_fildes, b, cb->aio_nbytes, cb->aio_offset);
    a.err = r < 0 ? errno : 0; a.ret = r; a.pending = false;
    if (r >= 0 && (fl & (O_DSYNC | O_SYNC))) markDurable(cb->aio_fildes);
    nAioDone++;
    T[DEV].vc[DEV]++;
}

// ---------------------------------------------------------------- scheduler
enum CK { C_RUN, C_TIMEOUT, C_SPUR, C_DEV };
struct Cand { CK k; int t; };

static bool mutexFree(const void *m) { return obj(m).owner < 0; }
static bool enabledT(int t) {
    Thr &x = T[t];
    if (!x.used || x.done) return false;
    switch (x.pk) {
        case PK_RUN: return true;
        case PK_LOCK: return mutexFree(x.obj);
        case PK_COND: return x.signaled && mutexFree(x.mtx);
        case PK_JOIN: return T[(intptr_t)x.obj].done;
        case PK_AIOSUSP:
            for (int i = 0; i < x.nlist; i++) { if (!x.list[i]) continue; Aio *a = aioOf(x.list[i]); if (!a || !a->pending) return true; }
            return false;
        case PK_RDLOCK: return obj(x.obj).owner < 0;
        case PK_WRLOCK: return obj(x.obj).owner < 0 && obj(x.obj).readers == 0;
        case PK_SEM: return obj(x.obj).count > 0;
        case PK_GUARD: return obj(x.obj).owner < 0;
    }
    return false;
}
static uint64_t slice = 0;           // consecutive points of the current thread
static uint64_t sinceTimeout = 0;    // points since a timeout fired
static int lastTmo = -1; static bool otherRan = true;   // has a thread other than the last one timed out run since?
struct SpinE { uint64_t k; int n; };
static SpinE spins[64]; static int nspins = 0;
static uint64_t yields = 0;          // forced yields since a timeout or disk completion
static uint64_t quiet = 0;           // instrumented accesses since the last scheduling point
static void resetSlice() { slice = 0; nspins = 0; }

// after the last static destructor: threads of the library that are still alive run on for a while
// (a thread the library left behind must not touch what its destructors released)
static bool drain = false; static int drainLeft = 0, drainMain = 0;
static __thread bool nextIsUser = false;
namespace mc { void nextThreadIsUser() { nextIsUser = true; } }

static int buildCands(Cand *out, bool selfYield) {
    int n = 0;
    int me = self;
    if (drain) {
        if (drainLeft-- > 0) {
            for (int t = 0; t < nthreads; t++) if (T[t].lib && enabledT(t)) { out[0] = {C_RUN, t}; return 1; }
            for (size_t i = 0; i < aios->size(); i++) if ((*aios)[i].pending) { out[0] = {C_DEV, (int)i}; return 1; }
            for (int t = 0; t < nthreads; t++) if (T[t].lib && !T[t].done && T[t].pk == PK_COND && !T[t].signaled && T[t].timed) { out[0] = {C_TIMEOUT, t}; return 1; }
        }
        out[0] = {C_RUN, drainMain}; return 1;
    }
    Cand devc[8]; int ndev = 0;
    for (size_t i = 0; i < aios->size() && ndev < 8; i++) if ((*aios)[i].pending) devc[ndev++] = {C_DEV, (int)i};
    bool meEn = enabledT(me);
    if (!meEn) yields = 0;
    // everybody spins: round robin, time passes (timed waits end) and the disk makes progress
    bool fair = yields > (uint64_t)(2 * nthreads);
    Cand others[MAXT]; int no = 0;
    if (pol.order == 0 || fair) { for (int d = 1; d < nthreads; d++) { int t = (me + d) % nthreads; if (enabledT(t)) others[no++] = {C_RUN, t}; } }
    else { for (int t = nthreads - 1; t >= 0; t--) if (t != me && enabledT(t)) others[no++] = {C_RUN, t}; }
    // aging: an enabled thread that has not run for long goes first
    bool aged = false;
    for (int t = 0; t < nthreads; t++) if (!enabledT(t)) T[t].lastRun = R->steps;
    if (no) { int o = 0; for (int i = 1; i < no; i++) if (T[others[i].t].lastRun < T[others[o].t].lastRun) o = i;
        if (R->steps > T[others[o].t].lastRun + 400) { Cand x = others[o]; for (int i = o; i > 0; i--) others[i] = others[i - 1]; others[0] = x; aged = true; } }
    Cand tmo[MAXT]; int nt = 0; Cand spur[MAXT]; int ns = 0;
    for (int t = 0; t < nthreads; t++) {
        Thr &x = T[t];
        if (x.used && !x.done && x.pk == PK_COND && !x.signaled) {
            if (x.timed) tmo[nt++] = {C_TIMEOUT, t};
            else if (scen->spurious) spur[ns++] = {C_SPUR, t};
        }
    }
    bool tfirst = nt && (fair || (pol.timeoutEvery && sinceTimeout >= (uint64_t)pol.timeoutEvery && (otherRan || !no)));
    bool dfirst = pol.devEager || fair;
    if (aged) out[n++] = others[0];
    if (dfirst) for (int i = 0; i < ndev; i++) out[n++] = devc[i];
    if (tfirst) for (int i = 0; i < nt; i++) out[n++] = tmo[i];
    if (meEn && !selfYield) out[n++] = {C_RUN, me};
    for (int i = aged ? 1 : 0; i < no; i++) out[n++] = others[i];
    if (!dfirst) for (int i = 0; i < ndev; i++) out[n++] = devc[i];
    if (!tfirst) for (int i = 0; i < nt; i++) out[n++] = tmo[i];
    if (meEn && selfYield) out[n++] = {C_RUN, me};
    for (int i = 0; i < ns; i++) out[n++] = spur[i];
    return n;
}

static void *threadMain(void *);
static char *const STACKS = (char *)0x400000000000ull;
static const size_t STK = 1 << 20;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static void startReal(int t) {
    EngineScope es;
    Thr &x = T[t];
    x.started = true;
    pthread_attr_t at; pthread_attr_init(&at);
    x.stkLo = STACKS + (size_t)t * (STK * 2); x.stkHi = x.stkLo + STK;
    rawmap(STK, x.stkLo);
    pthread_attr_setstack(&at, x.stkLo, STK);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (real_pthread_create(&x.real, &at, threadMain, (void *)(intptr_t)t)) { dprintf(2, "mc: real pthread_create failed\n"); _exit(72); }
    while (__atomic_load_n(&x.parked, __ATOMIC_ACQUIRE) == 0) futex(&x.parked, FUTEX_WAIT, 0);
}

// pick who runs next. On return `self` thread is scheduled again (unless it is done).
static void hash64(uint64_t v) { R->traceHash = (R->traceHash ^ v) * 0x100000001b3ull; R->traceHash ^= R->traceHash >> 29; }

static void schedule(int kind, bool selfYield = false) {
    int me = self;
    quiet = 0;
    if (selfYield) yields++;
    for (;;) {
        R->steps = R->steps + 1;
        if (R->steps > stepLimit) {
            std::string st;
            for (int t = 0; t < nthreads; t++) { char b[64]; snprintf(b, sizeof b, " T%d:%s", t, T[t].done ? "done" : T[t].pk == PK_RUN ? "run" : T[t].pk == PK_LOCK ? "lock" : T[t].pk == PK_COND ? (T[t].timed ? "timedwait" : "wait") : T[t].pk == PK_JOIN ? "join" : "blocked"); st += b; }
            mc::fail("HANG: no termination within %lu scheduling points (livelock or lost wake-up);%s", (unsigned long)stepLimit, st.c_str());
        }
        Cand c[2 * MAXT + 16];
        int n = buildCands(c, selfYield);
        int nreal = 0;
        for (int i = 0; i < n; i++) if (c[i].k != C_SPUR) nreal++;
        if (nreal == 0) {
            std::string st;
            for (int t = 0; t < nthreads; t++) { char b[64]; snprintf(b, sizeof b, " T%d:%s", t, T[t].done ? "done" : T[t].pk == PK_LOCK ? "lock" : T[t].pk == PK_COND ? "wait" : T[t].pk == PK_JOIN ? "join" : "blocked"); st += b; }
            mc::fail("HANG: deadlock, no thread can run:%s", st.c_str());
        }
        int ch = 0;
        if (n > 1) {
            int idx = R->npoints;
            if (idx < MAXP) {
                if (devPos < devs->size() && (*devs)[devPos].at == idx) {
                    ch = (*devs)[devPos].alt; devPos++;
                    R->ndevUsed = (int)devPos;
                    if (ch >= n) { R->diverged = 1; mc::fail("DIVERGENCE: replayed choice out of range"); }
                }
                R->pts[idx] = {(uint8_t)n, (uint8_t)ch, (uint8_t)kind, (uint8_t)me};
                R->npoints = idx + 1;
            }
        }
        hash64(((uint64_t)me << 32) | (kind << 16) | (n << 8) | ch);
        Cand k = c[ch];
        if (k.k == C_DEV) { yields = 0; devComplete((*aios)[k.t]); continue; }
        if (k.k == C_TIMEOUT || k.k == C_SPUR) {
            Thr &x = T[k.t];
            x.signaled = true; x.timedout = (k.k == C_TIMEOUT);
            if (k.k == C_TIMEOUT) { sinceTimeout = 0; yields = 0; lastTmo = k.t; otherRan = false; if (clockNs < x.deadline) clockNs = x.deadline; }
            if (!enabledT(k.t)) continue;
            // fall through: run it
        }
        int nx = k.t;
        if (nx != lastTmo) otherRan = true;
        T[nx].lastRun = R->steps;
        T[me].lastRun = R->steps;
        if (nx == me) { if (kind != 99) slice++; sinceTimeout++; return; }
        sinceTimeout++;
        R->switches = R->switches + 1;
        resetSlice();
        current = nx;
        if (!T[nx].started) startReal(nx);
        mcCtxSwitch(&T[me].sp, T[nx].sp, T[nx].fs);      // a thread that is done is never switched back to
        return;
    }
}

static pthread_key_t endKey;
static void threadEnd(int t) {
    Thr &x = T[t];
    if (!g_active) return;
    x.done = true; x.pk = PK_RUN;
    x.vc[t]++;
    resetSlice();
    schedule(98);
    self = -1;
}
static void keyDtor(void *v) {
    int t = (int)(intptr_t)v - 1;
    if (T[t].keyRounds++ < 3) { pthread_setspecific(endKey, v); return; }
    threadEnd(t);
}
static void *threadMain(void *p) {
    int t = (int)(intptr_t)p;
    self = t;
    pthread_setspecific(endKey, (void *)(intptr_t)(t + 1));
    T[t].fs = fsBase();
    mcCtxPark(&T[t].sp, &T[t].parked);
    T[t].ret = T[t].fn(T[t].arg);
    return nullptr;
}

// is the calling context under model control?
static inline bool live() { return g_active && self >= 0; }

static void spinPoint(uint64_t key, int kind) {
    bool y = false;
    int i;
    for (i = 0; i < nspins; i++) if (spins[i].k == key) { if (++spins[i].n >= 4) y = true; break; }
    if (i == nspins && nspins < 64) spins[nspins++] = {key, 1};
    if (slice > 600) y = true;
    T[self].pk = PK_RUN;
    if (y) { slice = 0; nspins = 0; }
    schedule(kind, y);
}
namespace mc { void yieldPoint() { if (live()) { T[self].pk = PK_RUN; schedule(1); } } }

// ---------------------------------------------------------------- memory accesses
static inline void heapCheck(const char *a, size_t sz, bool write) {
    if (!inHeap(a)) return;
    auto bad = [&](const char *p) -> int {
        unsigned char s = SHADOW[(p - HEAP) / 16];
        if (s == 255) return 2;
        if (s == 0) return 1;
        if (s < 16 && (size_t)((uintptr_t)p & 15) >= s) return 1;
        return 0;
    };
    int b = bad(a); if (!b && sz > 1) b = bad(a + sz - 1);
    if (b) mc::fail("memory error: %s of %zu bytes at %p in %s heap memory", write ? "write" : "read", sz, (const void *)a, b == 2 ? "FREED" : "UNALLOCATED");
}
static void access(const void *addr, size_t sz, bool write, void *pc) {
    if (!live() || sz == 0) return;
    Thr &me = T[self];
    const char *a = (const char *)addr;
    if (a >= me.stkLo && a < me.stkHi) return;
    if (&mc_mockTsc && a == (const char *)&mc_mockTsc) { mc_mockTsc = (1ull << 40) + (scen->globalClock ? ++tscTicks : (++me.ticks) * 16 + self); return; }
    heapCheck(a, sz, write);
    uint64_t g0 = (uintptr_t)a >> 3, g1 = ((uintptr_t)a + sz - 1) >> 3;
    bool pt = false;
    for (uint64_t g = g0; g <= g1; g++) if (inRace(g)) { pt = true; break; }
    if (pt) {
        spinPoint(((uint64_t)(uintptr_t)pc << 16) ^ (uintptr_t)a, write ? 3 : 2);
        heapCheck(a, sz, write);
    } else if (++quiet > 5000) {      // a loop on memory not (yet) known to be shared: let the others run
        T[self].pk = PK_RUN; slice = 0; nspins = 0; schedule(5, true);
        heapCheck(a, sz, write);
    }
    for (uint64_t g = g0; g <= g1; g++) raceCheck(g, self, write);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { access(a, n, false, RA); } \
  void __tsan_write##n(void *a) { access(a, n, true, RA); } \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, RA); } \
  void __tsan_unaligned_write##n(void *a) { access(a, n, true, RA); } \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, RA); } \
  void __tsan_volatile_write##n(void *a) { access(a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, RA); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, RA); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(a, 8, true, RA); }
void __tsan_vptr_read(void **a) { access(a, 8, false, RA); }

// libc memory functions called from the code under test (ld --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
size_t __real_strlen(const char *);
void __real_bzero(void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (live()) { access(s, n, false, RA); access(d, n, true, RA); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (live()) { access(s, n, false, RA); access(d, n, true, RA); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (live()) access(d, n, true, RA); return __real_memset(d, c, n); }
void __wrap_bzero(void *d, size_t n) { if (live()) access(d, n, true, RA); __real_bzero(d, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (live()) access(s, n + 1, false, RA); return n; }

// atomics
}
static void atomPt(volatile void *a, size_t sz, void *pc, bool w) {
    if (!live()) return;
    heapCheck((const char *)a, sz, w);
    spinPoint(((uint64_t)(uintptr_t)pc << 16) ^ (uintptr_t)a, 4);
    heapCheck((const char *)a, sz, w);
    acq((const void *)a); if (w) rel((const void *)a);
}
extern "C" {
typedef int morder;
#define ATOM(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY *a, morder) { atomPt((volatile void *)a, sizeof(TY), RA, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *e, TY d, morder, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *e, TY d, morder, morder) { atomPt(a, sizeof(TY), RA, true); return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY e, TY d, morder, morder) { atomPt(a, sizeof(TY), RA, true); __atomic_compare_exchange_n(a, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(morder) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(morder) {}
}

// ---------------------------------------------------------------- pthread interposition
template <typename F> static F realFn(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) { dprintf(2, "mc: no %s\n", n); _exit(73); } return (F)p; }
#define REAL(name) static auto f = realFn<decltype(&name)>(#name)

static void lockModel(const void *m) {
    Thr &me = T[self];
    me.pk = PK_LOCK; me.obj = (void *)m;
    schedule(5);
    me.pk = PK_RUN;
    SyncObj &o = obj(m);
    o.owner = self; o.count = 1;
    acq(m);
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!live()) { if (!g_interactive) return 0; return 0; }
    SyncObj &o = obj(m);
    if (o.owner == self) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o.count++; return 0; }
    }
    lockModel(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!live()) return 0;
    spinPoint((uintptr_t)m ^ 0x7777, 6);
    SyncObj &o = obj(m);
    if (o.owner >= 0) { if (o.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o.count++; return 0; } return EBUSY; }
    o.owner = self; o.count = 1; acq(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!live()) return 0;
    SyncObj &o = obj(m);
    if (o.owner != self) { if (o.owner < 0) return EPERM; return EPERM; }
    if (--o.count > 0) return 0;
    o.owner = -1;
    rel(m);
    return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t dl) {
    // preemption point before the (atomic) release-and-wait
    T[self].pk = PK_RUN; schedule(7);
    Thr &me = T[self];
    SyncObj &o = obj(m);
    o.owner = -1; rel(m);
    me.pk = PK_COND; me.obj = c; me.mtx = m; me.timed = timed; me.deadline = dl; me.signaled = false; me.timedout = false;
    schedule(8);
    me.pk = PK_RUN;
    SyncObj &o2 = obj(m);
    o2.owner = self; o2.count = 1; acq(m);
    acq(c);
    return (timed && me.timedout) ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!live()) return 0; return condWait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!live()) return ETIMEDOUT; return condWait(c, m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
    if (!live()) return ETIMEDOUT; return condWait(c, m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!live()) return 0;
    T[self].pk = PK_RUN; schedule(9);
    rel(c);
    int w[MAXT], n = 0;
    for (int t = 0; t < nthreads; t++) if (T[t].used && !T[t].done && T[t].pk == PK_COND && T[t].obj == c && !T[t].signaled) w[n++] = t;
    if (n == 0) return 0;
    int ch = 0;
    if (n > 1) {          // which waiter is woken is nondeterministic
        int idx = R->npoints;
        if (idx < MAXP) {
            if (devPos < devs->size() && (*devs)[devPos].at == idx) { ch = (*devs)[devPos].alt; devPos++; R->ndevUsed = (int)devPos; if (ch >= n) { R->diverged = 1; mc::fail("DIVERGENCE: waiter choice"); } }
            R->pts[idx] = {(uint8_t)n, (uint8_t)ch, 20, (uint8_t)self}; R->npoints = idx + 1;
        }
    }
    T[w[ch]].signaled = true;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!live()) return 0;
    T[self].pk = PK_RUN; schedule(9);
    rel(c);
    for (int t = 0; t < nthreads; t++) if (T[t].used && !T[t].done && T[t].pk == PK_COND && T[t].obj == c) T[t].signaled = true;
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

int pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (self < 0) { return EAGAIN; }
    if (g_active) { T[self].pk = PK_RUN; schedule(10); }
    if (nthreads >= DEV) { if (g_active) mc::fail("mc: too many threads"); return EAGAIN; }
    int t = nthreads++;
    Thr &x = T[t];
    x.lib = !nextIsUser; nextIsUser = false;
    x.used = true; x.fn = fn; x.arg = arg; x.pk = PK_RUN; x.lastRun = R ? R->steps : 0;
    memset(x.vc, 0, sizeof x.vc);
    vjoin(x.vc, T[self].vc); x.vc[t] = 1; T[self].vc[self]++;
    x.handle = (pthread_t)(0x5000 + t);
    *out = x.handle;
    return 0;
}
int pthread_join(pthread_t h, void **ret) {
    int t = (int)(h - 0x5000);
    if (t <= 0 || t >= nthreads) return ESRCH;
    if (!live()) return 0;
    Thr &me = T[self];
    me.pk = PK_JOIN; me.obj = (void *)(intptr_t)t;
    schedule(11);
    me.pk = PK_RUN;
    vjoin(me.vc, T[t].vc);
    if (ret) *ret = T[t].ret;
    return 0;
}
int pthread_detach(pthread_t h) { int t = (int)(h - 0x5000); if (t > 0 && t < nthreads) T[t].detached = true; return 0; }
int pthread_once(pthread_once_t *o, void (*fn)()) {
    if (!live()) { if (*o != 2) { *o = 2; fn(); } return 0; }
    T[self].pk = PK_GUARD; T[self].obj = o; schedule(12); T[self].pk = PK_RUN;
    acq(o);
    if (*o == 2) return 0;
    obj(o).owner = self; fn(); *o = 2; obj(o).owner = -1; rel(o);
    return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
    if (*(char *)g) return 0;
    if (!live()) return 1;
    T[self].pk = PK_GUARD; T[self].obj = g; schedule(12); T[self].pk = PK_RUN;
    acq(g);
    if (*(char *)g) return 0;
    obj(g).owner = self;
    return 1;
}
void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; if (live()) { obj(g).owner = -1; rel(g); } }
void __cxa_guard_abort(uint64_t *g) { if (live()) { obj(g).owner = -1; rel(g); } }

int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!live()) return 0; T[self].pk = PK_RDLOCK; T[self].obj = l; schedule(13); T[self].pk = PK_RUN; obj(l).readers++; acq(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!live()) return 0; T[self].pk = PK_WRLOCK; T[self].obj = l; schedule(13); T[self].pk = PK_RUN; obj(l).owner = self; acq(l); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!live()) return 0; spinPoint((uintptr_t)l, 13); if (obj(l).owner >= 0) return EBUSY; obj(l).readers++; acq(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!live()) return 0; spinPoint((uintptr_t)l, 13); if (obj(l).owner >= 0 || obj(l).readers) return EBUSY; obj(l).owner = self; acq(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!live()) return 0; SyncObj &o = obj(l); if (o.owner == self) o.owner = -1; else if (o.readers) o.readers--; rel(l); return 0; }
int pthread_spin_init(pthread_spinlock_t *, int) { return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!live()) return 0; lockModel((const void *)l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t *l) { if (!live()) return 0; spinPoint((uintptr_t)l, 6); SyncObj &o = obj((const void *)l); if (o.owner >= 0) return EBUSY; o.owner = self; o.count = 1; acq((const void *)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!live()) return 0; SyncObj &o = obj((const void *)l); o.owner = -1; rel((const void *)l); return 0; }
int sem_init(sem_t *s, int, unsigned v) { if (!objs) objs = new std::map<const void *, SyncObj>; obj(s).count = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s) { if (!live()) { obj(s).count++; return 0; } T[self].pk = PK_RUN; schedule(14); obj(s).count++; rel(s); return 0; }
int sem_wait(sem_t *s) { if (!live()) { obj(s).count--; return 0; } T[self].pk = PK_SEM; T[self].obj = s; schedule(14); T[self].pk = PK_RUN; obj(s).count--; acq(s); return 0; }
int sem_trywait(sem_t *s) { if (live()) spinPoint((uintptr_t)s, 14); if (obj(s).count <= 0) { errno = EAGAIN; return -1; } obj(s).count--; if (live()) acq(s); return 0; }

int sched_yield() { if (live()) { T[self].pk = PK_RUN; nspins = 0; slice = 0; schedule(15, true); } return 0; }
int usleep(useconds_t us) { if (live()) { clockNs += us * 1000ull; sched_yield(); } return 0; }
unsigned sleep(unsigned s) { if (live()) { clockNs += s * 1000000000ull; sched_yield(); } return 0; }
int nanosleep(const struct timespec *ts, struct timespec *) { if (live()) { clockNs += ts->tv_sec * 1000000000ull + ts->tv_nsec; sched_yield(); } return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *) {
    if (live()) { uint64_t v = ts->tv_sec * 1000000000ull + ts->tv_nsec; if (flags & TIMER_ABSTIME) { if (clockNs < v) clockNs = v; } else clockNs += v; sched_yield(); } return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (live()) { clockNs += 10; ts->tv_sec = clockNs / 1000000000ull; ts->tv_nsec = clockNs % 1000000000ull; return 0; }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
int sched_getcpu() { return 0; }

// ---------------------------------------------------------------- files and AIO
}
struct VF { std::string path; int flags; };
static std::map<int, VF> *vfds = nullptr;
static std::vector<std::string> *vpaths = nullptr;
static bool directFd(int fd) { EngineScope es; auto i = vfds ? vfds->find(fd) : std::map<int, VF>::iterator(); return vfds && i != vfds->end() && (i->second.flags & O_DIRECT); }
static int mcOpen(const char *p, int flags, mode_t mode) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, flags & ~O_DIRECT, mode);       // the alignment rules of O_DIRECT are the device's
    if (fd >= 0 && (flags & O_ACCMODE) != O_RDONLY) {
        EngineScope es; bool w = g_active; g_active = false;
        if (!vfds) vfds = new std::map<int, VF>;
        if (!vpaths) vpaths = new std::vector<std::string>;
        if (!fstates) fstates = new std::map<std::pair<uint64_t, uint64_t>, FState>;
        (*vfds)[fd] = {p, flags};
        if (std::find(vpaths->begin(), vpaths->end(), p) == vpaths->end()) vpaths->push_back(p);
        uint64_t sz; auto k = inoOf(fd, &sz);
        if (!fstates->count(k)) (*fstates)[k].durable = sz;   // pre-existing content is durable
        g_active = w;
    }
    return fd;
}
extern "C" {
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return mcOpen(p, flags, m); }
int open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return mcOpen(p, flags, m); }
int close(int fd) {
    if (live() && vfds && vfds->count(fd)) {
        T[self].pk = PK_RUN; schedule(16);
        for (auto &a : *aios) if (a.pending && a.cb->aio_fildes == fd) mc::note("[close with write in flight]");
        vfds->erase(fd);
    }
    return (int)syscall(SYS_close, fd);
}
int fdatasync(int fd) { if (live()) { T[self].pk = PK_RUN; schedule(16); bool w = g_active; g_active = false; markDurable(fd); g_active = w; } return 0; }
int fsync(int fd) { return fdatasync(fd); }
ssize_t write(int fd, const void *b, size_t n) {
    if (live() && vfds && vfds->count(fd)) {
        T[self].pk = PK_RUN; schedule(16);
        ssize_t r = syscall(SYS_write, fd, b, n);
        int fl = fcntl(fd, F_GETFL);
        if (r >= 0 && (fl & (O_DSYNC | O_SYNC))) markDurable(fd);
        return r;
    }
    return syscall(SYS_write, fd, b, n);
}
static int aioSubmit(struct aiocb *cb, int kind) {
    T[self].pk = PK_RUN; schedule(17);
    EngineScope es; bool w = g_active; g_active = false;
    Aio *a = aioOf(cb);
    if (a && a->pending) { g_active = w; mc::fail("aio_write on a control block that is still in flight"); }
    for (size_t i = 0; i < aios->size(); i++) if ((*aios)[i].cb == cb && !(*aios)[i].pending) { aios->erase(aios->begin() + i); break; }
    aios->push_back({cb, true, 0, 0, kind});
    vjoin(T[DEV].vc, T[self].vc); T[self].vc[self]++;
    g_active = w;
    return 0;
}
int aio_write(struct aiocb *cb) { if (!live()) { errno = ENOSYS; return -1; } return aioSubmit(cb, 0); }
int aio_write64(struct aiocb64 *cb) { return aio_write((struct aiocb *)cb); }
int aio_fsync(int, struct aiocb *cb) { if (!live()) { errno = ENOSYS; return -1; } return aioSubmit(cb, 1); }
int aio_error(const struct aiocb *cb) {
    if (!live()) return 0;
    T[self].pk = PK_RUN; schedule(18);
    Aio *a = aioOf(cb);
    if (!a) return EINVAL;
    if (a->pending) return EINPROGRESS;
    vjoin(T[self].vc, T[DEV].vc);
    return a->err;
}
int aio_error64(const struct aiocb64 *cb) { return aio_error((const struct aiocb *)cb); }
ssize_t aio_return(struct aiocb *cb) {
    if (!live()) return 0;
    Aio *a = aioOf(cb);
    if (!a) { errno = EINVAL; return -1; }
    if (a->pending) { errno = EINPROGRESS; return -1; }
    vjoin(T[self].vc, T[DEV].vc);
    return a->ret;
}
ssize_t aio_return64(struct aiocb64 *cb) { return aio_return((struct aiocb *)cb); }
int aio_suspend(const struct aiocb *const list[], int n, const struct timespec *) {
    if (!live()) return 0;
    Thr &me = T[self];
    me.pk = PK_AIOSUSP; me.list = list; me.nlist = n;
    schedule(19);
    me.pk = PK_RUN;
    vjoin(me.vc, T[DEV].vc);
    return 0;
}
int aio_suspend64(const struct aiocb64 *const list[], int n, const struct timespec *ts) { return aio_suspend((const struct aiocb *const *)list, n, ts); }
}

// ---------------------------------------------------------------- scenario-side bookkeeping
namespace mc {
static uint64_t g_stamp = 0;
uint64_t stamp() { return ++g_stamp; }
static std::vector<Expect> *g_exp; static std::vector<SyncEv> *g_sync;
std::vector<Expect> &expects() { if (!g_exp) g_exp = new std::vector<Expect>; return *g_exp; }
std::vector<SyncEv> &syncs() { if (!g_sync) g_sync = new std::vector<SyncEv>; return *g_sync; }
int logBegin(int tag, const std::string &text, int line, const char *level) {
    EngineScope es;
    bool w = g_active; g_active = false;
    int seq = 0; for (auto &e : expects()) if (e.tag == tag) seq++;
    expects().push_back({tag, seq, text, line, level, stamp(), 0, "", false});
    int h = (int)expects().size() - 1;
    g_active = w; return h;
}
void logEnd(int h) { bool w = g_active; g_active = false; expects()[h].stampEnd = stamp(); expects()[h].done = true; g_active = w; }
std::string slurp(const std::string &path) {
    std::string s; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return s;
    char b[65536]; ssize_t n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd); return s;
}
std::string durableOf(const std::string &path) {
    struct stat st; if (stat(path.c_str(), &st) != 0) return "";
    auto it = fstates->find({st.st_dev, st.st_ino});
    std::string s = slurp(path);
    uint64_t d = it == fstates->end() ? s.size() : it->second.durable;
    if (d < s.size()) s.resize(d);
    return s;
}
int syncBegin() {
    EngineScope es;
    bool w = g_active; g_active = false;
    SyncEv e; e.stampBegin = stamp(); e.stampEnd = 0;
    for (size_t i = 0; i < expects().size(); i++) if (expects()[i].done) e.completedBefore.push_back((int)i);
    syncs().push_back(e); int h = (int)syncs().size() - 1;
    g_active = w; return h;
}
void syncEnd(int h) {
    EngineScope es;
    bool w = g_active; g_active = false;
    SyncEv &e = syncs()[h]; e.stampEnd = stamp();
    for (auto &p : *vpaths) { e.paths.push_back(p); e.durable.push_back(durableOf(p)); }
    g_active = w;
}
// decode cache shared by all executions (same bytes decode to the same output)
struct DCE { uint64_t h1, h2; uint32_t off, len; long count; int rc; };
struct DC { volatile int lock; volatile uint32_t n, used; DCE e[4096]; char arena[48 << 20]; };
static DC *dc;
static void contentHash(const std::string &s, int mode, uint64_t *h1, uint64_t *h2) {
    uint64_t a = 1469598103934665603ull ^ mode, b = 0x9E3779B97F4A7C15ull * (s.size() + 1) + mode;
    for (unsigned char c : s) { a = (a ^ c) * 0x100000001b3ull; b = (b + c) * 0xff51afd7ed558ccdull; b ^= b >> 32; }
    *h1 = a; *h2 = b;
}
bool cacheGet(const std::string &content, int mode, std::string *raw, long *count, int *rc) {
    if (!dc) return false;
    uint64_t h1, h2; contentHash(content, mode, &h1, &h2);
    uint32_t n = __atomic_load_n(&dc->n, __ATOMIC_ACQUIRE);
    for (uint32_t i = 0; i < n; i++) if (dc->e[i].h1 == h1 && dc->e[i].h2 == h2) { raw->assign(dc->arena + dc->e[i].off, dc->e[i].len); *count = dc->e[i].count; *rc = dc->e[i].rc; return true; }
    return false;
}
void cachePut(const std::string &content, int mode, const std::string &raw, long count, int rc) {
    if (!dc) return;
    uint64_t h1, h2; contentHash(content, mode, &h1, &h2);
    if (__atomic_exchange_n(&dc->lock, 1, __ATOMIC_ACQUIRE)) return;       // busy: skip, it is only a cache
    if (dc->n < 4096 && dc->used + raw.size() < sizeof dc->arena) {
        memcpy(dc->arena + dc->used, raw.data(), raw.size());
        dc->e[dc->n] = {h1, h2, dc->used, (uint32_t)raw.size(), count, rc};
        dc->used = dc->used + (uint32_t)raw.size();
        __atomic_store_n(&dc->n, dc->n + 1, __ATOMIC_RELEASE);
    }
    __atomic_store_n(&dc->lock, 0, __ATOMIC_RELEASE);
}
static std::vector<Scenario> *g_scen;
void addScenario(const Scenario &s) { if (!g_scen) g_scen = new std::vector<Scenario>; g_scen->push_back(s); }
}

// ---------------------------------------------------------------- execution of one schedule (in a forked child)
static volatile bool g_childRun = false;
struct EndOfWorld { ~EndOfWorld(); };
EndOfWorld::~EndOfWorld() {
    if (!g_childRun) return;
    if (live()) {
        bool any = false;
        for (int t = 0; t < nthreads; t++) if (t != self && T[t].lib && T[t].used && !T[t].done) any = true;
        if (any) { T[self].pk = PK_RUN; drain = true; drainLeft = 600; drainMain = self; schedule(97); drain = false; }
    }
    g_active = false;
    if (scen->check) scen->check();
    // hash of the observation
    uint64_t h = 1469598103934665603ull; for (char *p = R->notes; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
    R->obs = h;
    finish(1);
}
static EndOfWorld eow __attribute__((init_priority(101)));

static char *stkLo0, *stkHi0;          // main's stack: looked up once, not in every child
static void mainStack() {
    EngineScope es;
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
    void *lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz);
    stkLo0 = (char *)lo; stkHi0 = (char *)lo + sz;
}
static void runChild(const Policy &p, const std::vector<Dev1> &d, const char *dir) {
  {
    EngineScope es;
    if (chdir(dir)) _exit(74);
    DIR *dp = opendir("."); struct dirent *de;
    while (dp && (de = readdir(dp))) if (de->d_name[0] != '.' || strlen(de->d_name) > 2) unlink(de->d_name);
    if (dp) closedir(dp);
    pol = p; devs = new std::vector<Dev1>(d); devPos = 0;
    objs = objs ? objs : new std::map<const void *, SyncObj>;
    aios = new std::vector<Aio>; aios->reserve(64);
    if (!fstates) fstates = new std::map<std::pair<uint64_t, uint64_t>, FState>;
    if (!vfds) vfds = new std::map<int, VF>;
    if (!vpaths) vpaths = new std::vector<std::string>;
    fstates->clear();
    cells = (Cell *)rawmap(sizeof(Cell) * CELLS);
    if (scen->prepare) scen->prepare();
    for (auto &v : *vfds) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, v.second.path.c_str(), (v.second.flags & ~O_DIRECT) | O_CREAT, 0666);
        if (fd < 0) _exit(75);
        syscall(SYS_dup3, fd, v.first, 0); syscall(SYS_close, fd);
        uint64_t sz; auto k = inoOf(v.first, &sz); (*fstates)[k].durable = sz;
    }
    if (!stkLo0) mainStack();
    T[0].stkLo = stkLo0; T[0].stkHi = stkHi0;
    mcFsgsbase = (getauxval(AT_HWCAP2) & 2) != 0; T[0].fs = fsBase();
    T[0].used = true; T[0].started = true; T[0].vc[0]++;
    if (&mc_mockTsc) { mc_mockTsc = 1ull << 40; }
    if (&mc_mockCps) mc_mockCps = 1e9;
    // no core dumps, die with parent, quiet
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    syscall(SYS_dup3, dn, 1, 0); syscall(SYS_dup3, dn, 2, 0);
  }
    heapPos[0] = 64u << 20;        // identical addresses in every execution
    g_childRun = true;
    R->outcome = 0;
    g_active = true;
    scen->run();
    exit(0);
}

// ---------------------------------------------------------------- explorer (worker side)
struct Stats { volatile uint64_t execs, steps, switches, points, maxPoints, violations, hangsRetried, obsN; volatile uint64_t obs[8192]; };
struct Shared {
    volatile uint64_t nextTask; volatile int stop; volatile int violFlag; volatile int capHit; volatile int err;
    volatile int lock;
    int violDevN; Dev1 violDev[8]; Policy violPol; char violMsg[4096];
    volatile uint64_t nNew; uint64_t newRaces[4096];
    Stats st;
};
static Shared *SH;
static void slock() { while (__atomic_exchange_n(&SH->lock, 1, __ATOMIC_ACQUIRE)) {} }
static void sunlock() { __atomic_store_n(&SH->lock, 0, __ATOMIC_RELEASE); }
static double now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double deadline = 1e18;
static std::string scratch;
static int workerId = 0;

// returns 1 ok 2 violation ; msg in R->msg
static int runOnceRaw(const Policy &p, const std::vector<Dev1> &d, int timeoutS) {
    memset(R, 0, offsetof(Result, races)); R->msg[0] = 0; memset(R->notes, 0, 64); R->notes[0] = 0;
    char dir[512]; snprintf(dir, sizeof dir, "%s/w%d", scratch.c_str(), workerId);
    mkdir(dir, 0777);
    if (!stkLo0) mainStack();
    pid_t pid = fork();
    if (pid == 0) { runChild(p, d, dir); _exit(76); }
    if (pid < 0) { snprintf(R->msg, sizeof R->msg, "fork failed"); return 3; }
    int st = 0; double t0 = now();
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > timeoutS) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(R->msg, sizeof R->msg, "HANG: execution makes no progress (no scheduling point reached for %d s)", timeoutS); return 4; }
        struct timespec ts = {0, 20000000}; 
        syscall(SYS_rt_sigtimedwait, &ss, nullptr, &ts, 8);
    }
    if (WIFSIGNALED(st)) { snprintf(R->msg, sizeof R->msg, "crash: process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return 2; }
    if (R->outcome == 1) return 1;
    if (R->outcome == 2) return 2;
    if (WEXITSTATUS(st) >= 70 && WEXITSTATUS(st) <= 76) { snprintf(R->msg, sizeof R->msg, "harness error, exit %d", WEXITSTATUS(st)); return 3; }
    snprintf(R->msg, sizeof R->msg, "process ended early with exit status %d", WEXITSTATUS(st));
    return 2;
}
static int runOnce(const Policy &p, const std::vector<Dev1> &d) {
    int r = runOnceRaw(p, d, 20);
    if (r == 4) { r = runOnceRaw(p, d, 60); if (r == 4) r = 2; }
    if (r == 2 && strncmp(R->msg, "HANG", 4) == 0 && stepLimit < 1000000) {
        uint64_t s = stepLimit; stepLimit *= 10;
        r = runOnceRaw(p, d, 120); if (r == 4) r = 2;
        stepLimit = s; __sync_fetch_and_add(&SH->st.hangsRetried, 1);
    }
    Stats &s = SH->st;
    __sync_fetch_and_add(&s.execs, 1); __sync_fetch_and_add(&s.steps, R->steps); __sync_fetch_and_add(&s.switches, R->switches); __sync_fetch_and_add(&s.points, (uint64_t)R->npoints);
    if ((uint64_t)R->npoints > s.maxPoints) s.maxPoints = R->npoints;
    if (R->nraces) {
        slock();
        for (int i = 0; i < R->nraces; i++) { bool f = false; for (uint64_t j = 0; j < SH->nNew; j++) if (SH->newRaces[j] == R->races[i]) f = true; if (!f && SH->nNew < 4096) { SH->newRaces[SH->nNew] = R->races[i]; SH->nNew = SH->nNew + 1; } }
        sunlock();
    }
    if (r == 1) {
        slock(); bool f = false; uint64_t n = s.obsN;
        for (uint64_t j = 0; j < n; j++) if (s.obs[j] == R->obs) { f = true; break; }
        if (!f && n < 8192) { s.obs[n] = R->obs; s.obsN = n + 1; }
        sunlock();
    }
    return r;
}
static void recordViolation(const Policy &p, const std::vector<Dev1> &d, const char *msg) {
    slock();
    if (!SH->violFlag) {
        SH->violFlag = 1; SH->violPol = p; SH->violDevN = (int)d.size();
        for (size_t i = 0; i < d.size() && i < 8; i++) SH->violDev[i] = d[i];
        snprintf(SH->violMsg, sizeof SH->violMsg, "%s", msg);
    }
    SH->st.violations = SH->st.violations + 1;
    sunlock();
}
static void explore(const Policy &p, std::vector<Dev1> &d, int bound) {
    if (SH->stop || SH->violFlag) return;
    if (now() > deadline) { SH->capHit = 1; SH->stop = 1; return; }
    int r = runOnce(p, d);
    if (r == 3) { fprintf(stderr, "mc: %s\n", R->msg); SH->err = 1; SH->stop = 1; return; }
    if (r == 2) {
        // replay before report
        std::string m = R->msg; uint64_t h1 = R->traceHash;
        int r2 = runOnce(p, d);
        if (r2 != 2) { fprintf(stderr, "mc: non-reproducible violation (%s)\n", m.c_str()); SH->err = 2; return; }
        if (h1 != R->traceHash && m.compare(0, 5, "crash") != 0) { fprintf(stderr, "mc: replay took a different path (%s)\n", m.c_str()); }
        recordViolation(p, d, m.c_str());
        return;
    }
    if ((int)d.size() >= bound) return;
    int from = d.empty() ? 0 : d.back().at + 1;
    int np = R->npoints;
    std::vector<uint8_t> na(np);
    for (int i = from; i < np; i++) na[i] = R->pts[i].nalts;
    for (int i = from; i < np; i++)
        for (int a = 1; a < na[i]; a++) {
            d.push_back({i, a}); explore(p, d, bound); d.pop_back();
            if (SH->stop || SH->violFlag) return;
        }
}
// a worker and the executions it forks share one processor: handing control from thread to thread is cheaper there
static void pin(int w) {
    if (getenv("MC_NOPIN")) return;
    cpu_set_t all, one; if (sched_getaffinity(0, sizeof all, &all)) return;
    int n = CPU_COUNT(&all), k = w % n;
    for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); return; }
}
// parallel exploration of one policy at one bound; expands level-1 as tasks
static void exploreParallel(const Policy &p, int bound, int jobs) {
    SH->nextTask = 0;
    std::vector<Dev1> root;
    std::vector<Dev1> tasks;
    workerId = 0;
    if (runOnce(p, root) != 1) { std::vector<Dev1> e; explore(p, e, 0); return; }
    if (bound == 0) return;
    for (int i = 0; i < R->npoints; i++) for (int a = 1; a < R->pts[i].nalts; a++) tasks.push_back({i, a});
    std::vector<pid_t> kids;
    for (int w = 0; w < jobs; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            workerId = w; pin(w);
            R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (;;) {
                uint64_t k = __sync_fetch_and_add(&SH->nextTask, 1);
                if (k >= tasks.size() || SH->stop || SH->violFlag) break;
                std::vector<Dev1> d; d.push_back(tasks[k]);
                explore(p, d, bound);
            }
            _exit(0);
        }
        kids.push_back(pid);
    }
    for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) SH->err = 3; }
}

static std::string jstr(const std::string &s) {
    std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32 || (unsigned char)c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); o += b; } else o += c; } return o + "\"";
}

int main(int argc, char **argv) {
    std::string name, replay; int bound = 1, jobs = 8; double cap = 600; bool list = false; std::vector<Policy> pols; bool verbose = false;
    const char *outp = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--scenario") name = argv[++i];
        else if (a == "--bound") bound = atoi(argv[++i]);
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--cap") cap = atof(argv[++i]);
        else if (a == "--steps") stepLimit = atoll(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--scratch") scratch = argv[++i];
        else if (a == "--out") outp = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "-v") verbose = true;
        else if (a == "--policy") { Policy p; sscanf(argv[++i], "%d,%d,%d", &p.order, &p.devEager, &p.timeoutEvery); pols.push_back(p); }
    }
    if (list) { for (auto &s : *mc::g_scen) printf("%s\n", s.name); fflush(stdout); _exit(0); }
    for (auto &s : *mc::g_scen) if (name == s.name) scen = &s;
    if (!scen) { fprintf(stderr, "mc: no scenario %s\n", name.c_str()); _exit(64); }
    if (pols.empty()) pols.push_back({0, 0, 0});
    if (scratch.empty()) { char t[] = "/dev/shm/mcXXXXXX"; scratch = mkdtemp(t); }
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
    real_pthread_create = realFn<decltype(real_pthread_create)>("pthread_create");
    pthread_key_create(&endKey, keyDtor);
    g_interactive = true;
    R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    RS = (RaceSet *)mmap(nullptr, sizeof(RaceSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mc::dc = (mc::DC *)mmap(nullptr, sizeof(mc::DC), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now(); deadline = t0 + cap;

    if (!replay.empty()) {
        // replay file: line "policy o,e,t", "races g g g", "devs at:alt at:alt"
        FILE *f = fopen(replay.c_str(), "r"); if (!f) _exit(64);
        char line[1 << 16]; std::vector<Dev1> d; Policy p{0, 0, 0};
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "policy ", 7)) sscanf(line + 7, "%d,%d,%d", &p.order, &p.devEager, &p.timeoutEvery);
            if (!strncmp(line, "race ", 5)) addRace(strtoull(line + 5, nullptr, 16));
            if (!strncmp(line, "dev ", 4)) { Dev1 x; sscanf(line + 4, "%d:%d", &x.at, &x.alt); d.push_back(x); }
        }
        fclose(f);
        int r = runOnce(p, d);
        printf("replay: outcome=%d %s\nnotes: %s\nsteps=%lu\n", r, R->msg, R->notes, (unsigned long)R->steps);
        fflush(stdout);
        _exit(r == 1 ? 0 : 1);
    }
    // Phase 0: grow the race set to a fixpoint on bound<=1 explorations, then explore; restart if it still grows.
    int rounds = 0; bool complete = false; int completedBound = -1;
    uint64_t execsAll = 0;
    for (; rounds < 12; rounds++) {
        memset((void *)&SH->st, 0, sizeof SH->st); SH->nNew = 0; SH->capHit = 0;
        completedBound = -1;
        for (int b = 0; b <= bound; b++) {
            // bounds below the target are included in it; run them separately only to grow the race set cheaply
            if (b < bound) { if (b > 1) continue; }
            if (b == bound) { uint64_t e = SH->st.execs; execsAll += e; memset((void *)&SH->st, 0, sizeof SH->st); }
            for (auto &p : pols) { exploreParallel(p, b, jobs); if (SH->violFlag || SH->stop) break; }
            if (SH->violFlag || SH->stop) break;
            if (SH->nNew && b < bound) break;
            completedBound = b;
        }
        if (SH->violFlag || SH->err) break;
        uint64_t add = 0;
        for (uint64_t j = 0; j < SH->nNew; j++) if (addRace(SH->newRaces[j])) add++;
        if (verbose) fprintf(stderr, "round %d: execs=%lu new races=%lu total=%lu bound=%d maxpoints=%lu t=%.1f\n", rounds, (unsigned long)SH->st.execs, (unsigned long)add, (unsigned long)RS->n, completedBound, (unsigned long)SH->st.maxPoints, now() - t0);
        if (verbose && getenv("MC_RACES")) for (uint64_t j = 0; j < SH->nNew && j < 60; j++) { uint64_t a = SH->newRaces[j] << 3; fprintf(stderr, "   %lx %s\n", (unsigned long)a, a >= (uint64_t)HEAP && a < (uint64_t)HEAP + ARENA * MAXT ? (std::string("heap arena ") + std::to_string((a - (uint64_t)HEAP) / ARENA)).c_str() : ""); }
        if (SH->capHit) break;
        if (add == 0) { complete = true; break; }
    }
    double dt = now() - t0;
    FILE *o = outp ? fopen(outp, "w") : stdout;
    Stats &s = SH->st;
    fprintf(o, "{\"scenario\":%s,\"bound\":%d,\"completed_bound\":%d,\"complete\":%s,\"cap_hit\":%s,\"policies\":%zu,\"executions\":%lu,\"scheduling_points\":%lu,\"steps\":%lu,\"context_switches\":%lu,\"max_choice_points\":%lu,\"race_granules\":%lu,\"distinct_observations\":%lu,\"hang_retries\":%lu,\"wall_s\":%.2f,\"violation\":%s,\"error\":%d",
            jstr(name).c_str(), bound, complete ? bound : completedBound, complete ? "true" : "false", SH->capHit ? "true" : "false", pols.size(), (unsigned long)s.execs, (unsigned long)s.points, (unsigned long)s.steps, (unsigned long)s.switches, (unsigned long)s.maxPoints, (unsigned long)RS->n, (unsigned long)s.obsN, (unsigned long)s.hangsRetried, dt, SH->violFlag ? "true" : "false", SH->err);
    if (SH->violFlag) {
        fprintf(o, ",\"message\":%s,\"policy\":\"%d,%d,%d\",\"devs\":[", jstr(SH->violMsg).c_str(), SH->violPol.order, SH->violPol.devEager, SH->violPol.timeoutEvery);
        for (int i = 0; i < SH->violDevN; i++) fprintf(o, "%s\"%d:%d\"", i ? "," : "", SH->violDev[i].at, SH->violDev[i].alt);
        fprintf(o, "],\"races\":["); bool first = true;
        for (int i = 0; i < (1 << 14); i++) if (RS->slot[i]) { fprintf(o, "%s\"%lx\"", first ? "" : ",", (unsigned long)RS->slot[i]); first = false; }
        fprintf(o, "]");
    }
    fprintf(o, "}\n"); fflush(o);
    char cmd[600]; (void)cmd;
    // clean scratch
    for (int w = 0; w < 64; w++) { char dir[512]; snprintf(dir, sizeof dir, "%s/w%d", scratch.c_str(), w); DIR *dp = opendir(dir); struct dirent *de; while (dp && (de = readdir(dp))) { if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue; char f[1024]; snprintf(f, sizeof f, "%s/%s", dir, de->d_name); unlink(f); } if (dp) closedir(dp); rmdir(dir); }
    rmdir(scratch.c_str());
    _exit(SH->violFlag ? 1 : SH->err ? 2 : 0);
}
