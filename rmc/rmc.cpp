// Runtime of rmc. Compiled WITHOUT instrumentation; the library and the harness are compiled with
// -fsanitize=thread and linked with this file in place of libtsan.
//
// - Real OS threads, only the one holding the baton runs; the baton is passed at scheduling points
//   (lock acquisition, atomic operation, static-local initialisation, yield, thread end).
// - Depth first search over schedules with a preemption bound (iterative context bounding); every
//   execution is a forked child of a process that has run the scenario's setup.
// - Happens-before race detection with vector clocks, use after free detection (freed memory is
//   never reused), deadlock and livelock detection.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rmc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <cxxabi.h>
#include <dlfcn.h>

namespace {

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using uptr = uintptr_t;

constexpr int UNBOUNDED = rmc::Unbounded;
constexpr int MAXT = 4;              // threads per scenario (+ none for main)
constexpr u32 MAXSTEPS = 60000;      // per execution: more is reported as non-termination
constexpr u32 FAIR = 3000;           // consecutive steps of one thread while others wait
constexpr u32 MAXDEC = 16000;

// ---------------------------------------------------------------------------------------------
// allocation used by the runtime itself: malloc based, never the interposed operator new
template<typename T> struct Mal {
    using value_type = T;
    Mal() = default; template<typename U> Mal(Mal<U> const&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n*sizeof(T))); }
    void deallocate(T *p, size_t) { free(p); }
    template<typename U> bool operator==(Mal<U> const&) const { return true; }
    template<typename U> bool operator!=(Mal<U> const&) const { return false; }
};
template<typename T> using Vec = std::vector<T, Mal<T>>;
template<typename K, typename V> using HMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Mal<std::pair<K const, V>>>;
template<typename K> using HSet = std::unordered_set<K, std::hash<K>, std::equal_to<K>, Mal<K>>;

// ---------------------------------------------------------------------------------------------
struct VC { u32 c[MAXT] = {};
    void join(VC const &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum class Phase { Setup, Run, Final };

struct Decision { u64 state; u16 enabled; u8 chosen; u8 cur; /*0xff none*/ };
constexpr int LOGSZ = 3000;

// results of an execution, in memory shared with the worker
struct Result {
    std::atomic<u32> status;      // 0 running/crashed, 1 ok, 2 violation, 4 internal, 5 reached a state explored before
    u32 ndec, steps, plain;
    u64 traceHash, outcomeHash;
    char message[1600];
    char outcome[300];
    char log[24000]; u32 nlog;
    Decision dec[MAXDEC];
};

constexpr u32 NSTATES = 1u << 25;
struct Shared {
    // visited states with the preemption budget left when they were explored (+1)
    std::atomic<u64> stateKey[NSTATES]; std::atomic<u8> stateBudget[NSTATES];
    std::atomic<u64> pruned;
    std::atomic<u64> executions, transitions, plainAccesses, states;
    std::atomic<u32> stop;
    std::atomic<u32> idle;
    // shared work queue
    std::atomic<u32> lock;
    u32 nq;
    struct Item { u32 len; u8 preempt; u8 choice[MAXDEC]; } q[64];
    // first violation
    std::atomic<u32> violated;
    u32 vlen; u8 vchoice[MAXDEC]; char vmsg[1600]; char vlog[24000];
    // distinct traces and outcomes (open addressing, shared)
    std::atomic<u64> traces[1u<<20]; std::atomic<u64> ntraces;
    std::atomic<u64> outs[1u<<12]; std::atomic<u64> nouts; std::atomic<u32> nsample; char sample[8][300];
};

Phase phase = Phase::Setup;
Result *R = nullptr;
bool wantLog = false;
u32 prefixLen = 0; u8 const *prefix = nullptr;

thread_local int self = -1;
int nThreads = 0;
int running = -1;

enum class Pend : u8 { None, Simple, Mutex, RdLock, WrLock, Guard, Once, Cond, Finished };
struct Thr {
    std::atomic<u32> go; bool finished = false; bool yielded = false;
    Pend pend = Pend::None; uptr addr = 0; char const *what = "";
    VC vc, relFence, acqPending; bool hasRelFence = false;
    bool condSignalled = false;
    u32 streak = 0;
    u64 hash = 0;
    pthread_t h;
};
Thr *T = nullptr;

struct Lock { int writer = -1; int depth = 0; int readers[MAXT + 1] = {}; VC wr, rd; int nreaders() const { int n = 0; for (int r: readers) n += r; return n; } };
struct GuardS { int owner = -2; VC vc; };
HMap<uptr, Lock> *locks; HMap<uptr, GuardS> *guards; HMap<uptr, VC> *syncs; HMap<uptr, u64> *objHash;
HMap<uptr, u64> *readHash;
HSet<uptr> *doneGuards;
struct Shared; 
bool useCache = false, noCache = false; int budgetLeft = 0; // of the current execution

// ---------------------------------------------------------------------------------------------
void futexWait(std::atomic<u32> &a, u32 v) { syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futexWake(std::atomic<u32> &a) { syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void logf(char const *fmt, ...) __attribute__((format(printf,1,2)));
void logf(char const *fmt, ...)
{
    if (!wantLog || !R || R->nlog + 200 > sizeof R->log) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(R->log + R->nlog, 199, fmt, ap);
    va_end(ap);
    if (n > 199) n = 199;
    R->nlog += n; R->log[R->nlog++] = '\n'; R->log[R->nlog] = 0;
}

void symbol(uptr pc, char *buf, size_t n)
{
    Dl_info i;
    if (dladdr(reinterpret_cast<void*>(pc), &i) && i.dli_sname) {
        int st; char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        snprintf(buf, n, "%s", d ? d : i.dli_sname); free(d);
    } else snprintf(buf, n, "%p", reinterpret_cast<void*>(pc));
}

[[noreturn]] void endExecution(int status) { R->status.store(status); _exit(0); }

[[noreturn]] void violation(char const *fmt, ...)
{
    if (!R) { // setup failed
        va_list ap; va_start(ap, fmt); fputs("setup: ", stderr); vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap); _exit(3);
    }
    va_list ap; va_start(ap, fmt);
    vsnprintf(R->message, sizeof R->message, fmt, ap);
    va_end(ap);
    logf("VIOLATION: %s", R->message);
    endExecution(2);
}

u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull ^ (h >> 29); }

// happens-before trace hash: thread-local hash chains joined through synchronisation objects
void hbTouch(uptr obj, u64 op)
{
    if (phase != Phase::Run || self < 0) return;
    auto &o = (*objHash)[obj];
    T[self].hash = mix(mix(T[self].hash, op), o);
    o = T[self].hash;
}

// reading a synchronisation object
void hbRead(uptr obj, u64 op)
{
    if (phase != Phase::Run || self < 0) return;
    auto it = objHash->find(obj);
    T[self].hash = mix(mix(T[self].hash, op), it == objHash->end() ? 0 : it->second);
}

extern Shared *G;
bool visit(u64 h, int left)
{
    if (!h) h = 1;
    auto &tab = G->stateKey; auto &bud = G->stateBudget;
    for (u32 i = u32(h >> 13) % NSTATES, k = 0; k < 4096; ++k, i = (i + 1) % NSTATES) {
        u64 e = tab[i].load();
        if (!e) { u64 z = 0; if (tab[i].compare_exchange_strong(z, h)) { e = h; ++G->states; } else e = z; }
        if (e == h) {
            u8 b = bud[i].load();
            while (b < left + 1) if (bud[i].compare_exchange_weak(b, u8(left + 1))) return true;
            return false;
        }
    }
    return true; // table full: explore without remembering
}

// ---------------------------------------------------------------------------------------------
// scheduler
bool enabled(int t)
{
    Thr &x = T[t];
    switch (x.pend) {
    case Pend::Finished: return false;
    case Pend::Mutex: { auto &l = (*locks)[x.addr]; return (l.writer == -1 && l.nreaders() == 0) || l.writer == t; }
    case Pend::WrLock: { auto &l = (*locks)[x.addr]; return l.writer == -1 && l.nreaders() == 0; }
    case Pend::RdLock: { auto &l = (*locks)[x.addr]; return l.writer == -1; }
    case Pend::Guard: { auto it = guards->find(x.addr); return it == guards->end() || it->second.owner < 0 || it->second.owner == t; }
    case Pend::Cond: return x.condSignalled;
    default: return true;
    }
}

char const *pendName(Pend p)
{
    switch (p) { case Pend::Mutex: return "mutex"; case Pend::WrLock: return "exclusive lock"; case Pend::RdLock: return "shared lock";
        case Pend::Guard: return "static initialisation"; case Pend::Cond: return "condition"; case Pend::Finished: return "finished"; default: return "runnable"; }
}

void passTo(int t)
{
    int me = self;
    running = t;
    if (t == me) return;
    T[t].go.store(1, std::memory_order_release); futexWake(T[t].go);
    if (T[me].finished) return;
    while (!T[me].go.load(std::memory_order_acquire)) futexWait(T[me].go, 0);
    T[me].go.store(0, std::memory_order_relaxed);
}

std::atomic<u32> allDone;

// Chooses who runs next. cur: the running thread, whose pending operation is registered in T[cur].
void schedule(bool voluntaryYield)
{
    int me = self;
    u16 en = 0; int n = 0;
    for (int i = 0; i < nThreads; ++i) if (enabled(i)) { en |= 1u << i; ++n; }
    if (++R->steps > MAXSTEPS) violation("non-termination: more than %u steps in one execution", MAXSTEPS);
    if (!n) {
        bool all = true;
        for (int i = 0; i < nThreads; ++i) all = all && T[i].finished;
        if (all) { allDone.store(1); futexWake(allDone); return; }
        char buf[1200]; int k = 0; k += snprintf(buf + k, sizeof buf - k, "deadlock:");
        for (int i = 0; i < nThreads; ++i) if (!T[i].finished) {
            int holder = -1;
            if (T[i].pend == Pend::Guard) holder = (*guards)[T[i].addr].owner; else if (locks->count(T[i].addr)) holder = (*locks)[T[i].addr].writer;
            k += snprintf(buf + k, sizeof buf - k, " thread %d waits for %s%s;", i, pendName(T[i].pend), holder >= 0 ? (std::string(" held by thread ") + char('0' + holder)).c_str() : "");
        }
        violation("%s", buf);
    }
    bool meEn = en & (1u << me);
    bool force = false;
    if (meEn && n > 1) {
        if (voluntaryYield) force = true;
        else if (++T[me].streak > FAIR) force = true;
    }
    int next;
    if (n == 1) { next = __builtin_ctz(en); }
    else {
        u16 cand = force ? en & ~(1u << me) : en;
        if (R->ndec >= MAXDEC) violation("non-termination: more than %u scheduling decisions", MAXDEC);
        auto &d = R->dec[R->ndec];
        d.enabled = cand; d.cur = (meEn && !force) ? me : 0xff;
        u64 h = mix(d.cur, cand);
        for (int i = 0; i < nThreads; ++i) h = mix(h, T[i].hash);
        d.state = h;
        if (R->ndec >= prefixLen && useCache && !visit(h, budgetLeft)) endExecution(5);
        if (R->ndec < prefixLen) {
            next = prefix[R->ndec];
            if (!(cand & (1u << next))) { snprintf(R->message, sizeof R->message, "internal: schedule does not replay"); endExecution(4); }
        }
        else if (meEn && !force) next = me;
        else { // default: next thread in cyclic order
            next = me; do next = (next + 1) % nThreads; while (!(cand & (1u << next)));
        }
        d.chosen = next; ++R->ndec;
    }
    if (next != me) T[me].streak = 0;
    if (next != me) logf("-- switch to thread %d", next);
    passTo(next);
}

void point(Pend p, uptr addr, char const *what, bool yield = false)
{
    if (phase != Phase::Run || self < 0) return;
    T[self].pend = p; T[self].addr = addr; T[self].what = what;
    schedule(yield);
    T[self].pend = Pend::Simple;
    T[self].hash = mix(T[self].hash, 0x51);
}

VC &myVC() { return T[self].vc; }
void tick() { ++T[self].vc.c[self]; }

// ---------------------------------------------------------------------------------------------
// shadow memory: 1 cell per byte
struct Cell { u32 pw, aw; u32 pr[MAXT]; u16 ar[MAXT]; u8 pwT, awT, freed, pad; u32 pcW; };
constexpr uptr PAGE = 1024;
struct Page { Cell c[PAGE]; };
HMap<uptr, Page*> *shadow;
Cell &cell(uptr a)
{
    static uptr lastKey = ~uptr(0); static Page *lastPage = nullptr;
    uptr k = a / PAGE;
    if (k != lastKey) {
        auto &p = (*shadow)[k];
        if (!p) p = static_cast<Page*>(calloc(1, sizeof(Page)));
        lastKey = k; lastPage = p;
    }
    return lastPage->c[a % PAGE];
}

[[noreturn]] void raceReport(char const *kind, int other, uptr a, u32 size, uptr pc, u32 pcOther)
{
    char s1[400], s2[400] = "?";
    symbol(pc, s1, sizeof s1);
    if (pcOther) { Dl_info i; dladdr(reinterpret_cast<void*>(&raceReport), &i); symbol(reinterpret_cast<uptr>(i.dli_fbase) + pcOther, s2, sizeof s2); }
    violation("data race: %s of %u bytes by thread %d in [%s] concurrent with thread %d%s%s%s", kind, size, self, s1, other,
              pcOther ? " writing in [" : "", pcOther ? s2 : "", pcOther ? "]" : "");
    (void)a;
}

uptr imgBase;

void access(uptr a, u32 size, bool write, bool atomic, uptr pc)
{
    if (phase != Phase::Run || self < 0) return;
    ++R->plain;
    auto &v = myVC();
    for (u32 i = 0; i < size; ++i) {
        Cell &c = cell(a + i);
        if (c.freed) { if (wantLog && getenv("RMC_ABORT")) { signal(SIGABRT, SIG_DFL); abort(); } char s[400]; symbol(pc, s, sizeof s); violation("use after free: %s of %u bytes by thread %d in [%s]", write ? "write" : "read", size, self, s); }
        if (c.pw && c.pwT != self && c.pw > v.c[c.pwT]) raceReport(write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), c.pwT, a, size, pc, c.pcW);
        if (!atomic && c.aw && c.awT != self && c.aw > v.c[c.awT]) raceReport(write ? "write" : "read", c.awT, a, size, pc, 0);
        if (write) {
            for (int t = 0; t < nThreads; ++t) if (t != self) {
                if (c.pr[t] > v.c[t]) raceReport(atomic ? "atomic write" : "write", t, a, size, pc, 0);
                if (!atomic && c.ar[t] > v.c[t]) raceReport("write", t, a, size, pc, 0);
            }
            if (atomic) { c.aw = v.c[self]; c.awT = self; }
            else { c.pw = v.c[self]; c.pwT = self; c.pcW = u32(pc - imgBase); }
        } else {
            if (atomic) c.ar[self] = v.c[self]; else c.pr[self] = v.c[self];
        }
    }
}

// ---------------------------------------------------------------------------------------------
// heap: bump allocation, never reused
char *arena, *arenaCur, *arenaEnd;
HMap<uptr, size_t> *blocks; bool heapReady = false;

void *heapAlloc(size_t n, size_t al)
{
    if (!heapReady) { void *p = nullptr; if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) abort(); return p; }
    if (al < 16) al = 16;
    uptr p = (reinterpret_cast<uptr>(arenaCur) + 16 + al - 1) & ~uptr(al - 1);
    if (p + n + 16 > reinterpret_cast<uptr>(arenaEnd)) { fprintf(stderr, "rmc: arena exhausted\n"); _exit(5); }
    arenaCur = reinterpret_cast<char*>(p + n);
    (*blocks)[p] = n;
    return reinterpret_cast<void*>(p);
}

void heapFree(void *p, uptr pc)
{
    if (!p) return;
    uptr a = reinterpret_cast<uptr>(p);
    if (a < reinterpret_cast<uptr>(arena) || a >= reinterpret_cast<uptr>(arenaEnd)) { if (!heapReady) free(p); return; }
    if (phase == Phase::Setup) return;
    auto it = blocks->find(a);
    if (it == blocks->end()) violation("double free or invalid free by thread %d", self);
    size_t n = it->second; blocks->erase(it);
    if (phase == Phase::Run && self >= 0) {
        // free conflicts with any concurrent access
        for (size_t i = 0; i < n; i += 4096) access(a + i, u32(n - i < 4096 ? n - i : 4096), true, false, pc);
        for (size_t i = 0; i < n; ++i) cell(a + i).freed = 1;
    }
    memset(p, 0xdb, n);
}

} // namespace

// ---------------------------------------------------------------------------------------------
// interposed allocation
void *operator new(size_t n) { return heapAlloc(n, 16); }
void *operator new[](size_t n) { return heapAlloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return heapAlloc(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return heapAlloc(n, size_t(a)); }
void *operator new(size_t n, std::nothrow_t const&) noexcept { return heapAlloc(n, 16); }
void *operator new[](size_t n, std::nothrow_t const&) noexcept { return heapAlloc(n, 16); }
#define PC reinterpret_cast<uptr>(__builtin_return_address(0))
void operator delete(void *p) noexcept { heapFree(p, PC); }
void operator delete[](void *p) noexcept { heapFree(p, PC); }
void operator delete(void *p, size_t) noexcept { heapFree(p, PC); }
void operator delete[](void *p, size_t) noexcept { heapFree(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { heapFree(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { heapFree(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heapFree(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heapFree(p, PC); }

// ---------------------------------------------------------------------------------------------
// locks
namespace {
int ownerIndex() { return (phase == Phase::Run) ? self : MAXT; }

int lockMutex(uptr a, bool recursive, bool tryOnly, char const *what)
{
    if (phase == Phase::Run && self >= 0) {
        auto &l0 = (*locks)[a];
        if (!recursive && l0.writer == self && !tryOnly) violation("deadlock: thread %d locks a non-recursive mutex it already holds", self);
        point(tryOnly ? Pend::Simple : Pend::Mutex, a, what);
    }
    int o = ownerIndex();
    auto &l = (*locks)[a];
    if (l.writer != -1 && l.writer != o) { hbRead(a, 21); return EBUSY; }
    if (l.writer == o && !recursive) return tryOnly ? EBUSY : EDEADLK;
    l.writer = o; ++l.depth;
    if (phase == Phase::Run && self >= 0) { myVC().join(l.wr); hbTouch(a, 1); logf("thread %d: lock %s", self, what); }
    return 0;
}
int unlockMutex(uptr a)
{
    auto &l = (*locks)[a];
    int o = ownerIndex();
    if (l.writer != o) violation("thread %d unlocks a mutex it does not hold", self);
    if (phase == Phase::Run && self >= 0) { hbTouch(a, 2); }
    if (--l.depth == 0) {
        l.writer = -1;
        if (phase == Phase::Run && self >= 0) { l.wr = myVC(); tick(); logf("thread %d: unlock", self); }
    }
    return 0;
}
int lockRw(uptr a, bool wr, bool tryOnly)
{
    if (phase == Phase::Run && self >= 0) {
        auto &l0 = (*locks)[a];
        if (!tryOnly && l0.writer == self) violation("deadlock: thread %d locks a shared mutex it already holds exclusively", self);
        if (!tryOnly && wr && l0.readers[self]) violation("deadlock: thread %d exclusively locks a shared mutex it already holds shared", self);
        point(tryOnly ? Pend::Simple : wr ? Pend::WrLock : Pend::RdLock, a, wr ? "exclusive" : "shared");
    }
    int o = ownerIndex();
    auto &l = (*locks)[a];
    if (wr) {
        if (l.writer != -1 || l.nreaders()) { hbRead(a, 22); return EBUSY; }
        l.writer = o; l.depth = 1;
        if (phase == Phase::Run && self >= 0) { myVC().join(l.wr); myVC().join(l.rd); }
    } else {
        if (l.writer != -1) { hbRead(a, 23); return EBUSY; }
        ++l.readers[o];
        if (phase == Phase::Run && self >= 0) myVC().join(l.wr);
    }
    if (phase == Phase::Run && self >= 0) { if (wr) { auto &rh = (*readHash)[a]; (*objHash)[a] ^= mix(5, rh); rh = 0; hbTouch(a, 3); } else hbRead(a, 4); logf("thread %d: lock %s", self, wr ? "exclusive" : "shared"); }
    return 0;
}
int unlockRw(uptr a)
{
    int o = ownerIndex();
    auto &l = (*locks)[a];
    if (l.writer == o) {
        l.writer = -1; l.depth = 0;
        if (phase == Phase::Run && self >= 0) { l.wr = myVC(); tick(); hbTouch(a, 5); logf("thread %d: unlock exclusive", self); }
    } else if (l.readers[o] > 0) {
        --l.readers[o];
        if (phase == Phase::Run && self >= 0) { l.rd.join(myVC()); tick(); (*readHash)[a] += mix(77, T[self].hash); T[self].hash = mix(T[self].hash, 78); logf("thread %d: unlock shared", self); }
    } else violation("thread %d unlocks a shared mutex it does not hold", self);
    return 0;
}
bool isRecursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
bool intercept() { return heapReady; }
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!intercept()) return 0; return lockMutex(uptr(m), isRecursive(m), false, "mutex"); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!intercept()) return 0; return lockMutex(uptr(m), isRecursive(m), true, "mutex (try)"); }
int pthread_mutex_timedlock(pthread_mutex_t *m, timespec const*) { if (!intercept()) return 0; return lockMutex(uptr(m), isRecursive(m), false, "mutex (timed)"); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, timespec const*) { if (!intercept()) return 0; return lockMutex(uptr(m), isRecursive(m), false, "mutex (timed)"); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!intercept()) return 0; return unlockMutex(uptr(m)); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (intercept()) locks->erase(uptr(m)); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!intercept()) return 0; return lockRw(uptr(m), false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!intercept()) return 0; return lockRw(uptr(m), true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!intercept()) return 0; return lockRw(uptr(m), false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!intercept()) return 0; return lockRw(uptr(m), true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!intercept()) return 0; return unlockRw(uptr(m)); }
int pthread_rwlock_destroy(pthread_rwlock_t *m) { if (intercept()) locks->erase(uptr(m)); return 0; }

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (phase != Phase::Run || self < 0) return 0;
    unlockMutex(uptr(m));
    T[self].condSignalled = false; hbTouch(uptr(c), 33);
    point(Pend::Cond, uptr(c), "condition");
    if (auto it = syncs->find(uptr(c)); it != syncs->end()) myVC().join(it->second);
    return lockMutex(uptr(m), isRecursive(m), false, "mutex");
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (phase != Phase::Run || self < 0) return 0;
    // waking any one waiter is allowed; spurious wake-ups are too, so wake all of them
    for (int i = 0; i < nThreads; ++i) if (T[i].pend == Pend::Cond && T[i].addr == uptr(c)) T[i].condSignalled = true;
    (*syncs)[uptr(c)].join(myVC()); tick(); hbTouch(uptr(c), 32);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }
int pthread_once(pthread_once_t *o, void (*f)())
{
    if (!intercept() || phase != Phase::Run || self < 0) { // single threaded
        if (*o == 0) { *o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; } return 0;
    }
    uptr a = uptr(o);
    point(Pend::Guard, a, "once");
    auto &g = (*guards)[a];
    if (*o == 2) { myVC().join(g.vc); return 0; }
    *o = 1; g.owner = self;
    try { f(); } catch (...) { auto &g2 = (*guards)[a]; *o = 0; g2.owner = -2; g2.vc.join(myVC()); tick(); throw; }
    auto &g2 = (*guards)[a]; *o = 2; g2.owner = -2; g2.vc.join(myVC()); tick();
    return 0;
}
int sched_yield() { if (phase == Phase::Run && self >= 0) point(Pend::Simple, 0, "yield", true); return 0; }
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(timespec const*, timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, timespec const*, timespec*) { return sched_yield(); }

// exception objects come from malloc, which reuses memory: forget what is known about it
void *__cxa_allocate_exception(size_t n) noexcept
{
    static auto real = reinterpret_cast<void*(*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
    void *p = real(n);
    if (heapReady && phase == Phase::Run && self >= 0) for (size_t i = 0; i < n; ++i) cell(uptr(p) + i) = Cell{};
    return p;
}

// static local initialisation
int __cxa_guard_acquire(char *g)
{
    uptr a = uptr(g);
    if (!heapReady || phase != Phase::Run || self < 0) { return !*g; }
    if (doneGuards->count(a) && *g) { hbRead(a, 12); return 0; }
    auto it = guards->find(a);
    if (it != guards->end() && it->second.owner == self) violation("recursive initialisation of a static local by thread %d", self);
    point(Pend::Guard, a, "static initialisation");
    auto &s = (*guards)[a];
    hbTouch(a, 6);
    if (*g) { myVC().join(s.vc); return 0; }
    s.owner = self; logf("thread %d: begins static initialisation", self);
    return 1;
}
void __cxa_guard_release(char *g)
{
    *g = 1;
    if (heapReady) { doneGuards->insert(uptr(g)); if (phase == Phase::Run && self >= 0) { auto &s = (*guards)[uptr(g)]; s.owner = -2; s.vc.join(myVC()); (*syncs)[uptr(g)] = myVC(); hbTouch(uptr(g), 7); tick(); logf("thread %d: ends static initialisation", self); } }
}
void __cxa_guard_abort(char *g)
{
    *g = 0;
    if (heapReady && phase == Phase::Run && self >= 0) { auto &s = (*guards)[uptr(g)]; s.owner = -2; s.vc.join(myVC()); tick(); }
}

// ---------------------------------------------------------------------------------------------
// instrumentation interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(uptr(p), 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access(uptr(p), 8, false, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { if (n) access(uptr(p), u32(n), false, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access(uptr(p), u32(n), true, false, PC); }
#define RW(n) \
void __tsan_read##n(void *p) { access(uptr(p), n, false, false, PC); } \
void __tsan_write##n(void *p) { access(uptr(p), n, true, false, PC); } \
void __tsan_unaligned_read##n(void *p) { access(uptr(p), n, false, false, PC); } \
void __tsan_unaligned_write##n(void *p) { access(uptr(p), n, true, false, PC); } \
void __tsan_volatile_read##n(void *p) { access(uptr(p), n, false, false, PC); } \
void __tsan_volatile_write##n(void *p) { access(uptr(p), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
} // extern C

namespace {
bool isAcq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool live() { return phase == Phase::Run && self >= 0; }
void acq(uptr a, int mo)
{
    auto it = syncs->find(a);
    if (it == syncs->end()) return;
    if (isAcq(mo)) myVC().join(it->second); else T[self].acqPending.join(it->second);
}
void rel(uptr a, int mo, bool rmw)
{
    auto &s = (*syncs)[a];
    VC none;
    VC const &pub = isRel(mo) ? myVC() : T[self].hasRelFence ? T[self].relFence : none;
    if (rmw) s.join(pub); else s = pub;
    if (isRel(mo)) tick();
}
struct AtomicOp {
    uptr a; u32 n; int mo; bool w, rmw, on;
    AtomicOp(volatile void const *p, u32 n, int mo, bool w, bool rmw, uptr pc) : a(uptr(p)), n(n), mo(mo), w(w), rmw(rmw), on(live())
    {
        if (!on) return;
        bool stable = !w && doneGuards->count(a) && *reinterpret_cast<char const*>(a); // initialised static local: never changes again
        if (!stable) { point(Pend::Simple, a, w ? (rmw ? "rmw" : "store") : "load"); logf("thread %d: atomic %s", self, w ? (rmw ? "rmw" : "store") : "load"); }
        access(a, n, w, true, pc);
        if (w) hbTouch(a, 8); else hbRead(a, 9);
        if (!w || rmw) acq(a, mo);
        if (w) rel(a, mo, rmw);
    }
};
} // namespace

extern "C" {
void __tsan_atomic_thread_fence(int mo)
{
    if (!live()) return;
    point(Pend::Simple, 0, "fence");
    if (isAcq(mo)) myVC().join(T[self].acqPending);
    if (isRel(mo)) { T[self].relFence = myVC(); T[self].hasRelFence = true; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, type) \
type __tsan_atomic##bits##_load(const volatile type *p, int mo) { AtomicOp o{p, bits/8, mo, false, false, PC}; return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, false, PC}; __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_nand(volatile type *p, type v, int mo) { AtomicOp o{p, bits/8, mo, true, true, PC}; return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *c, type v, int mo, int fmo) \
{ \
    if (live()) { \
        point(Pend::Simple, uptr(p), "cas"); \
        logf("thread %d: atomic cas", self); \
        type cur = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        bool ok = cur == *c; \
        access(uptr(p), bits/8, ok, true, PC); \
        if (ok) hbTouch(uptr(p), 10); else hbRead(uptr(p), 11); \
        acq(uptr(p), ok ? mo : fmo); \
        if (ok) rel(uptr(p), mo, true); \
    } \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
} \
int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *c, type v, int mo, int fmo) \
{ return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); } \
type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type c, type v, int mo, int fmo) \
{ __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)

// memory functions called from instrumented objects (linked with --wrap)
void *__real_memcpy(void*, void const*, size_t); void *__real_memmove(void*, void const*, size_t); void *__real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t); size_t __real_strlen(char const*);
void *__wrap_memcpy(void *d, void const *s, size_t n) { if (live() && n) { access(uptr(s), u32(n), false, false, PC); access(uptr(d), u32(n), true, false, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, void const *s, size_t n) { if (live() && n) { access(uptr(s), u32(n), false, false, PC); access(uptr(d), u32(n), true, false, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (live() && n) access(uptr(d), u32(n), true, false, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(void const *a, void const *b, size_t n) { if (live() && n) { access(uptr(a), u32(n), false, false, PC); access(uptr(b), u32(n), false, false, PC); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(char const *s) { size_t n = __real_strlen(s); if (live()) access(uptr(s), u32(n + 1), false, false, PC); return n; }
}

// ---------------------------------------------------------------------------------------------
namespace rmc {
void fail(std::string const &m) { violation("%s", m.c_str()); }
int thread() { return self; }
unsigned stamp() { static unsigned n; hbTouch(uptr(&n), 31); return ++n; }
void note(std::string const &t) { logf("thread %d: %s", self, t.c_str()); }
void outcome(std::string const &t)
{
    if (!R) return;
    R->outcomeHash = std::_Hash_bytes(t.data(), t.size(), 7) | 1;
    snprintf(R->outcome, sizeof R->outcome, "%s", t.c_str());
}
void point() { ::point(Pend::Simple, 0, "user code"); }
} // namespace rmc

namespace {

rmc::Scenario *S;

void onSignal(int sig) { violation("crash: signal %d (%s) in thread %d", sig, strsignal(sig), self); }

void *threadMain(void *arg)
{
    int me = int(uptr(arg));
    while (!T[me].go.load(std::memory_order_acquire)) futexWait(T[me].go, 0);
    T[me].go.store(0, std::memory_order_relaxed);
    self = me;
    try { S->threads[me](); }
    catch (std::exception &e) { violation("exception escaped from thread %d: %s", me, e.what()); }
    catch (...) { violation("exception escaped from thread %d", me); }
    T[me].finished = true; T[me].pend = Pend::Finished;
    logf("thread %d: finished", me);
    schedule(false);
    return nullptr;
}

[[noreturn]] void onTerminate() { violation("std::terminate called in thread %d", self); }

void execute()
{
    static char alt[MAXT][1]; (void)alt;
    for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, onSignal);
    std::set_terminate(onTerminate);
    Dl_info di; if (dladdr(reinterpret_cast<void*>(&violation), &di)) imgBase = uptr(di.dli_fbase);
    nThreads = int(S->threads.size());
    T = new (malloc(sizeof(Thr) * MAXT)) Thr[MAXT];
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    for (int i = 0; i < nThreads; ++i) {
        T[i].go.store(0); T[i].pend = Pend::Simple; T[i].vc.c[i] = 1;
        if (pthread_create(&T[i].h, &at, threadMain, reinterpret_cast<void*>(uptr(i)))) { fprintf(stderr, "rmc: pthread_create failed\n"); _exit(6); }
    }
    phase = Phase::Run;
    // first decision: who starts
    u16 en = (1u << nThreads) - 1; int first = 0;
    auto &d = R->dec[0]; d.enabled = en; d.cur = 0xff; d.state = 1;
    if (prefixLen > 0) first = prefix[0];
    d.chosen = first; R->ndec = 1;
    running = first;
    T[first].go.store(1); futexWake(T[first].go);
    while (!allDone.load(std::memory_order_acquire)) futexWait(allDone, 0);
    phase = Phase::Final;
    u64 h = 0;
    for (int i = 0; i < nThreads; ++i) h = mix(h, T[i].hash);
    R->traceHash = h | 1;
    if (S->final) {
        try { S->final(); }
        catch (std::exception &e) { violation("exception in the final check: %s", e.what()); }
        catch (...) { violation("exception in the final check"); }
    }
    endExecution(1);
}

} // namespace
namespace { Shared *G;
template<size_t N> bool insertHash(std::atomic<u64> (&tab)[N], std::atomic<u64> &count, u64 h)
{
    if (!h) h = 1;
    for (size_t i = h % N, k = 0; k < N; ++k, i = (i + 1) % N) {
        u64 e = tab[i].load();
        if (e == h) return false;
        if (!e) { u64 z = 0; if (tab[i].compare_exchange_strong(z, h)) { ++count; return true; } if (z == h) return false; }
    }
    return false;
}

struct Prefix { Vec<u8> c; int preempt; };

// runs one execution in a child process
bool runOne(u8 const *c, u32 n, bool log, int left = -1)
{
    useCache = left >= 0; budgetLeft = left;
    R->status.store(0); R->ndec = R->steps = R->plain = 0; R->traceHash = R->outcomeHash = 0; R->message[0] = R->outcome[0] = 0; R->nlog = 0; R->log[0] = 0;
    prefix = c; prefixLen = n; wantLog = log;
    pid_t pid = fork();
    if (pid < 0) { perror("rmc: fork"); _exit(7); }
    if (!pid) { alarm(60); execute(); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (R->status.load() == 0) { // died without a report
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 5) { fprintf(stderr, "rmc: internal error %d\n", WEXITSTATUS(st)); _exit(8); }
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL)) { fprintf(stderr, "rmc: execution was killed\n"); _exit(9); }
        snprintf(R->message, sizeof R->message, WIFSIGNALED(st) ? "crash: execution ended by signal %d" : "execution exited with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        R->status.store(2);
    }
    if (R->status.load() == 4) { fprintf(stderr, "rmc: %s\n", R->message); _exit(10); }
    return R->status.load() == 1 || R->status.load() == 5;
}

void qlock() { while (G->lock.exchange(1, std::memory_order_acquire)) syscall(SYS_sched_yield); }
void qunlock() { G->lock.store(0, std::memory_order_release); }

void worker(int nWorkers, int bound, u64 maxExec)
{
    R = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
    if (R == MAP_FAILED) _exit(11);
    Vec<Prefix> stack;
    for (;;) {
        if (G->stop.load()) return;
        if (stack.empty()) {
            bool got = false; bool wasIdle = false;
            for (;;) {
                qlock();
                if (G->nq) { auto &it = G->q[--G->nq]; Prefix p; p.c.assign(it.choice, it.choice + it.len); p.preempt = it.preempt; stack.push_back(std::move(p)); got = true; if (wasIdle) --G->idle; }
                else if (!wasIdle) { ++G->idle; wasIdle = true; }
                bool done = G->idle.load() == u32(nWorkers) && !G->nq;
                qunlock();
                if (got) break;
                if (done || G->stop.load()) return;
                timespec ts{0, 100000}; syscall(SYS_nanosleep, &ts, nullptr);
            }
        }
        Prefix p = std::move(stack.back()); stack.pop_back();
        bool ok = runOne(p.c.data(), u32(p.c.size()), false, noCache ? -1 : bound - p.preempt);
        bool pruned = R->status.load() == 5;
        if (pruned) ++G->pruned;
        u64 ex = ++G->executions;
        G->transitions += R->steps; G->plainAccesses += R->plain;
        if (!ok) {
            u32 z = 0;
            if (G->violated.compare_exchange_strong(z, 1)) {
                Vec<u8> c; for (u32 i = 0; i < R->ndec; ++i) c.push_back(R->dec[i].chosen);
                std::string *m = nullptr; (void)m;
                char msg[1600]; memcpy(msg, R->message, sizeof msg);
                // replay: same schedule must give the same report
                bool ok2 = runOne(c.data(), u32(c.size()), true);
                G->vlen = u32(c.size()); memcpy(G->vchoice, c.data(), c.size());
                if (ok2) snprintf(G->vmsg, sizeof G->vmsg, "NOT REPRODUCED: %.1500s", msg);
                else snprintf(G->vmsg, sizeof G->vmsg, "%s", R->message);
                memcpy(G->vlog, R->log, sizeof G->vlog);
            }
            G->stop.store(1); return;
        }
        if (!pruned) insertHash(G->traces, G->ntraces, R->traceHash);
        if (R->outcomeHash && insertHash(G->outs, G->nouts, R->outcomeHash)) { u32 s = G->nsample++; if (s < 8) snprintf(G->sample[s], sizeof G->sample[s], "%s", R->outcome); }
        // alternatives
        int pre = p.preempt;
        size_t from = p.c.size();
        for (u32 i = u32(from); i < R->ndec; ++i) {
            auto &d = R->dec[i];
            for (int t = 0; t < MAXT; ++t) if ((d.enabled & (1u << t)) && t != d.chosen) {
                int cost = pre + ((bound < UNBOUNDED && d.cur != 0xff && t != d.cur) ? 1 : 0);
                if (cost > bound) continue;
                Prefix q; q.c.reserve(i + 1);
                for (u32 k = 0; k < i; ++k) q.c.push_back(R->dec[k].chosen);
                q.c.push_back(u8(t)); q.preempt = cost;
                stack.push_back(std::move(q));
            }
            // default continuation never preempts
        }
        if (stack.size() > 1 && G->idle.load() && G->nq < 64) {
            qlock();
            // give away the shallowest prefixes
            size_t give = 0;
            while (G->nq < 64 && stack.size() - give > 1 && give < 8) {
                auto &it = G->q[G->nq++]; auto &q = stack[give++];
                it.len = u32(q.c.size()); it.preempt = u8(q.preempt); memcpy(it.choice, q.c.data(), q.c.size());
            }
            qunlock();
            stack.erase(stack.begin(), stack.begin() + give);
        }
        if (ex >= maxExec) { G->stop.store(2); return; }
    }
}

std::string jsonEsc(char const *s) { std::string r; for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += c; } return r; }

int runScenario(rmc::Scenario &s, int bound, int nWorkers, u64 maxExec, FILE *out, char const *replayChoices)
{
    S = &s;
    G = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0));
    if (G == MAP_FAILED) return 12;
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    pid_t sp = fork();
    if (!sp) { // scenario process: runs setup once
        if (s.threads.size() > MAXT) { fprintf(stderr, "rmc: too many threads\n"); _exit(13); }
        alarm(120);
        try { if (s.setup) s.setup(); }
        catch (std::exception &e) { fprintf(stderr, "rmc: exception in setup of %s: %s\n", s.name.c_str(), e.what()); _exit(3); }
        catch (...) { fprintf(stderr, "rmc: exception in setup of %s\n", s.name.c_str()); _exit(3); }
        alarm(0);
        if (replayChoices) {
            R = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
            Vec<u8> c; for (char const *q = replayChoices; *q; ++q) if (*q >= '0' && *q < '0' + MAXT) c.push_back(u8(*q - '0'));
            bool ok = runOne(c.data(), u32(c.size()), true);
            printf("%s\nschedule %s: %s\n", R->log, ok ? "passes" : "VIOLATES", ok ? "" : R->message);
            fflush(stdout);
            _exit(ok ? 0 : 1);
        }
        G->nq = 1; G->q[0].len = 0; G->q[0].preempt = 0;
        for (int i = 0; i < nWorkers; ++i) { pid_t p = fork(); if (!p) { worker(nWorkers, bound, maxExec); _exit(0); } }
        int rc = 0, st; pid_t p;
        while ((p = wait(&st)) > 0 || errno == EINTR) if (p > 0 && (!WIFEXITED(st) || WEXITSTATUS(st))) { rc = WIFEXITED(st) ? WEXITSTATUS(st) : 14; G->stop.store(1); }
        _exit(rc);
    }
    int st; while (waitpid(sp, &st, 0) < 0 && errno == EINTR) {}
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 15;
    bool setupFailed = rc == 3 || (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL);
    if (replayChoices) return setupFailed ? 1 : rc;
    timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    double sec = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec);
    bool v = G->violated.load();
    fprintf(out, "{\"scenario\":\"%s\",\"threads\":%zu,\"bound\":%d,\"executions\":%lu,\"pruned\":%lu,\"transitions\":%lu,\"states\":%lu,\"plain_accesses\":%lu,\"distinct_traces\":%lu,\"distinct_outcomes\":%lu,\"complete\":%s,\"wall_s\":%.2f,\"rc\":%d",
            jsonEsc(s.name.c_str()).c_str(), s.threads.size(), bound, G->executions.load(), G->pruned.load(), G->transitions.load(), G->states.load(), G->plainAccesses.load(), G->ntraces.load(), G->nouts.load(),
            (G->stop.load() == 0 && rc == 0) ? "true" : "false", sec, rc);
    fprintf(out, ",\"outcomes\":["); for (u32 i = 0; i < G->nsample.load() && i < 8; ++i) fprintf(out, "%s\"%s\"", i ? "," : "", jsonEsc(G->sample[i]).c_str()); fprintf(out, "]");
    if (v) {
        std::string c; for (u32 i = 0; i < G->vlen; ++i) c += char('0' + G->vchoice[i]);
        fprintf(out, ",\"violation\":\"%s\",\"schedule\":\"%s\",\"log\":\"%s\"", jsonEsc(G->vmsg).c_str(), c.c_str(), jsonEsc(G->vlog).c_str());
    }
    else if (setupFailed) {
        fprintf(out, ",\"violation\":\"single-threaded preparation of the scenario failed (%s %d)\",\"schedule\":\"0\",\"log\":\"\"", rc == 3 ? "check or exception" : "signal", rc == 3 ? 3 : WTERMSIG(st));
        v = true;
    }
    fprintf(out, "}\n"); fflush(out);
    munmap(G, sizeof(Shared));
    return v ? 1 : rc ? 2 : 0;
}

} // namespace

int rmc::main_(int argc, char **argv, std::vector<Scenario> scenarios)
{
    bool thorough = false; char const *only = nullptr, *replay = nullptr, *outName = nullptr; int bound = -1, workers = 8; u64 maxExec = 20000000; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--scenario" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--bound" && i + 1 < argc) bound = atoi(argv[++i]);
        else if (a == "--workers" && i + 1 < argc) workers = atoi(argv[++i]);
        else if (a == "--max" && i + 1 < argc) maxExec = strtoull(argv[++i], nullptr, 10);
        else if (a == "--out" && i + 1 < argc) outName = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--no-cache") noCache = true;
        else if (a == "--known" && i + 1 < argc) ++i;
    }
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    FILE *out = outName ? fopen(outName, "w") : stdout;
    locks = new (malloc(sizeof *locks)) std::remove_pointer_t<decltype(locks)>; guards = new (malloc(sizeof *guards)) std::remove_pointer_t<decltype(guards)>;
    syncs = new (malloc(sizeof *syncs)) std::remove_pointer_t<decltype(syncs)>; readHash = new (malloc(sizeof *readHash)) std::remove_pointer_t<decltype(readHash)>; objHash = new (malloc(sizeof *objHash)) std::remove_pointer_t<decltype(objHash)>;
    doneGuards = new (malloc(sizeof *doneGuards)) std::remove_pointer_t<decltype(doneGuards)>; shadow = new (malloc(sizeof *shadow)) std::remove_pointer_t<decltype(shadow)>;
    blocks = new (malloc(sizeof *blocks)) std::remove_pointer_t<decltype(blocks)>;
    size_t asz = size_t(64) << 20;
    arena = static_cast<char*>(mmap(nullptr, asz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0));
    arenaCur = arena; arenaEnd = arena + asz; heapReady = true;
    int worst = 0;
    for (auto &s: scenarios) {
        if (list) { puts(s.name.c_str()); continue; }
        if (only && s.name != only) continue;
        int b = bound >= 0 ? bound : thorough ? s.thoroughBound : s.quickBound;
        int rc = runScenario(s, b, workers, maxExec, out, replay);
        if (rc == 1) { worst = 1; if (!replay) break; }
        else if (rc && worst != 1) worst = rc;
    }
    if (outName) fclose(out);
    fflush(stdout);
    _exit(worst);
}
