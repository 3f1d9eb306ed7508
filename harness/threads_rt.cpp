// C05: controlled scheduler and happens-before race detector.
//
// threads_ops.cpp is compiled with -fsanitize=thread, which only inserts calls at
// memory accesses and atomic operations; this file provides those calls instead
// of the ThreadSanitizer library. Real threads run one at a time. The scheduler
// chooses the next thread before every synchronization operation (atomics, static
// initialization guards, mutexes, once) and when a thread ends; the explorer of
// vh.hpp enumerates all the choices within a preemption bound. Every execution
// runs in a process of its own, so that each first use of a function is really the
// first. Plain accesses are checked with vector clocks: two accesses of different
// threads to the same byte, one of them a write, not ordered by synchronization,
// are a data race in whatever order they ran, so switching at synchronization
// operations only is enough.
#include "vh.hpp"
#include "threads_rt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <map>
#include <unordered_map>

namespace rt {
constexpr int MT = 4;                    // threads; 0 is the main one
constexpr int MAXSTEP = 4000, MAXOUT = 4000, MAXIDS = 256;
struct VC { unsigned c[MT]; VC() { for (unsigned &x : c) x = 0; } void join(const VC &o) { for (int i = 0; i < MT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread { VC vc; bool started = false, done = false; const void *waits = nullptr; sem_t sem; const ThreadOp *const *ops = nullptr; int nops = 0; };

// what an execution tells its parent
struct Report {
    int status;                          // 0 running, 1 finished, 2 violation
    int nchoice; int choice[vh::MAXVEC], arity[vh::MAXVEC];
    int nsync; uint64_t hash; uint64_t accesses;
    int nout[MT]; long double out[MT][MAXOUT];
    int nids; long ids[MAXIDS];
    char msg[1500]; int ntrace; char trace[3000];
};
static Report *rep;
static Thread th[MT];
static int nthreads = 0, current = 0;
static volatile bool active = false;
static __thread int me = -1;             // the managed thread running
static __thread int inside = 0;          // in the runtime: accesses are ours
static int prefix_n = 0; static const int *prefix = nullptr;
static int preemptions = 0, bound = 0, steps = 0;
struct Guard { Guard() { ++inside; } ~Guard() { --inside; } };

[[noreturn]] static void violation(const std::string &m) {
    vh::fill(rep->msg, sizeof rep->msg, m);
    rep->status = 2;
    _exit(0);
}
static void trace(const std::string &s) {
    const size_t n = std::strlen(rep->trace);
    if (n + s.size() + 3 < sizeof rep->trace) { std::memcpy(rep->trace + n, s.c_str(), s.size() + 1); std::strcat(rep->trace, "; "); }
}
static std::string where(const void *pc) {
    Dl_info d; char b[64];
    if (dladdr(pc, &d) && d.dli_sname) { int st; char *n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string s = n ? n : d.dli_sname; std::free(n); return s; }
    std::snprintf(b, sizeof b, "%p", pc); return b;
}

// ---- choices -----------------------------------------------------------------
static int pick(int n) {
    if (n <= 1) return 0;
    const int k = rep->nchoice;
    if (k >= vh::MAXVEC) return 0;
    int v = k < prefix_n ? prefix[k] : 0;
    if (v >= n) violation("the schedule structure changed on re-execution");
    rep->choice[k] = v; rep->arity[k] = n; rep->nchoice = k + 1;
    return v;
}
static void give(int t) {
    if (t == me) return;
    const int self = me;
    current = t;
    sem_post(&th[t].sem);
    if (self >= 0 && !th[self].done) while (sem_wait(&th[self].sem)) { }
}
static bool runnable(int t) { return th[t].started && !th[t].done && !th[t].waits; }
static int others(int *list) { int n = 0; for (int t = 0; t < nthreads; ++t) if (t != me && runnable(t)) list[n++] = t; return n; }
static int streak = 0;
// a point where the scheduler may switch; what: for the trace
static void point(const char *what, const void *obj) {
    if (++steps > MAXSTEP) violation("the threads do not terminate under a fair schedule");
    ++rep->nsync;
    rep->hash = vh::mix(rep->hash, uint64_t(me) * 7919 + what[0] * 31 + what[1]);
    (void)obj;
    int list[MT]; const int n = others(list);
    if (!n) { streak = 0; return; }
    if (++streak > 60) { streak = 0; int k = 0; while (k < n && list[k] < me) ++k; give(list[k % n]); return; }   // fairness: a thread that spins lets the next go on
    if (preemptions >= bound) return;
    const int k = pick(n + 1);
    if (k) { ++preemptions; streak = 0; trace("T" + std::to_string(me) + " preempted before " + what + " by T" + std::to_string(list[k - 1])); give(list[k - 1]); }
}
static void leave() {                    // the current thread cannot go on
    int list[MT]; const int n = others(list);
    if (!n) violation("deadlock: no thread can continue");
    streak = 0;
    give(list[pick(n)]);
}
static void block(const void *obj) { th[me].waits = obj; leave(); }
static void wake(const void *obj) { for (int t = 0; t < nthreads; ++t) if (th[t].waits == obj) th[t].waits = nullptr; }

// ---- shadow memory -------------------------------------------------------------
struct Cell { unsigned char wt, awt; unsigned w, aw, r[MT], ar[MT]; const void *wpc, *rpc[MT]; };
struct Line { Cell c[8]; };
static std::unordered_map<uintptr_t, Line> *shadow;
static std::unordered_map<const void *, VC> *syncs;
static char *stack_lo[MT], *stack_hi[MT];
static VC fencevc;

static void race(int t, const void *pc1, const char *k1, int u, const void *pc2, const char *k2, uintptr_t a) {
    char b[32]; std::snprintf(b, sizeof b, "%#lx", (unsigned long)a);
    Dl_info d; std::string sym;
    if (dladdr((void *)a, &d) && d.dli_sname) { int st; char *n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); sym = std::string(" (") + (n ? n : d.dli_sname) + ")"; }
    violation(std::string("data race") + sym + ": " + k1 + " by thread " + std::to_string(t) + " in " + where(pc1) + " and " + k2 + " by thread " + std::to_string(u) + " in " + where(pc2) + ", not ordered by any synchronization");
}
static void access(uintptr_t a, size_t n, bool write, bool atomic, const void *pc) {
    Thread &T = th[me];
    for (size_t i = 0; i < n; ++i, ++a) {
        auto it = shadow->find(a >> 3);
        if (it == shadow->end()) { Line l; std::memset(&l, 0, sizeof l); it = shadow->emplace(a >> 3, l).first; }
        Cell &c = it->second.c[a & 7];
        auto ordered = [&](int t, unsigned clk) { return clk == 0 || t == me || clk <= T.vc.c[t]; };
        if (!ordered(c.wt, c.w)) race(c.wt, c.wpc, "write", me, pc, write ? "write" : "read", a);
        if (!atomic && !ordered(c.awt, c.aw)) race(c.awt, c.wpc, "atomic write", me, pc, write ? "write" : "read", a);
        if (write) for (int t = 0; t < MT; ++t) {
            if (!ordered(t, c.r[t])) race(t, c.rpc[t], "read", me, pc, "write", a);
            if (!atomic && !ordered(t, c.ar[t])) race(t, c.rpc[t], "atomic read", me, pc, "write", a);
        }
        const unsigned k = T.vc.c[me];
        if (write) { if (atomic) { c.awt = me; c.aw = k; } else { c.wt = me; c.w = k; } c.wpc = pc; }
        else { (atomic ? c.ar : c.r)[me] = k; c.rpc[me] = pc; }
    }
}
static inline bool watched() { return active && me > 0 && !inside; }
static inline void plain(const void *p, size_t n, bool write, const void *pc) {
    if (!watched()) return;
    const char *q = static_cast<const char *>(p);
    if (q >= stack_lo[me] && q < stack_hi[me]) return;
    Guard g; ++rep->accesses;
    access(uintptr_t(q), n, write, false, pc);
}
static void forget(void *p, size_t n) {
    if (!shadow || inside) return;
    Guard g;
    uintptr_t a = uintptr_t(p);
    if (n > (1u << 20)) return;
    for (size_t i = 0; i < n; i += 8) shadow->erase((a + i) >> 3);
}
static void acquire(const void *o) { auto it = syncs->find(o); if (it != syncs->end()) th[me].vc.join(it->second); }
static void release(const void *o) { (*syncs)[o].join(th[me].vc); ++th[me].vc.c[me]; }

// ---- running one execution -------------------------------------------------------
static void *body(void *arg) {
    const int t = int(intptr_t(arg));
    me = t;
    pthread_attr_t at; void *lo; size_t sz;
    ++inside;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stack_lo[t] = static_cast<char *>(lo); stack_hi[t] = stack_lo[t] + sz;
    while (sem_wait(&th[t].sem)) { }
    --inside;
    for (int i = 0; i < th[t].nops; ++i) {
        try { th[t].ops[i]->run(); }
        catch (const std::exception &e) { Guard g; violation(std::string(th[t].ops[i]->name) + " threw " + e.what()); }
        { Guard g; rep->hash = vh::mix(rep->hash, 1000 + t); }
    }
    ++inside;
    th[t].done = true;
    int list[MT]; const int n = others(list);
    if (n) { streak = 0; give(list[pick(n)]); }
    else {
        for (int u = 1; u < nthreads; ++u) if (!th[u].done) violation("deadlock: a thread waits forever");
        current = 0; sem_post(&th[0].sem);
    }
    return nullptr;
}
static void execution(int how, const std::vector<std::vector<const ThreadOp *>> &prog, int preempt, int first, const int *pre, int npre) {
    me = 0; ++inside;
    shadow = new std::unordered_map<uintptr_t, Line>(); syncs = new std::unordered_map<const void *, VC>();
    shadow->reserve(1 << 14);
    --inside;
    prepare(how);
    ++inside;
    prefix = pre; prefix_n = npre; bound = preempt;
    nthreads = int(prog.size()) + 1;
    th[0].started = true; th[0].vc.c[0] = 1; sem_init(&th[0].sem, 0, 0);
    pthread_t id[MT];
    for (int t = 1; t < nthreads; ++t) {
        th[t].ops = prog[t - 1].data(); th[t].nops = int(prog[t - 1].size());
        th[t].vc = th[0].vc; th[t].vc.c[t] = 1;
        sem_init(&th[t].sem, 0, 0); th[t].started = true;
    }
    active = true;
    for (int t = 1; t < nthreads; ++t) if (pthread_create(&id[t], nullptr, body, (void *)intptr_t(t))) _exit(9);
    th[0].waits = &id;                     // joins
    current = 1 + first;
    sem_post(&th[current].sem);
    while (sem_wait(&th[0].sem)) { }
    active = false;
    rep->status = 1;
    _exit(0);
}
}
using namespace rt;

void out(long double x) { if (me > 0) { int &n = rep->nout[me]; if (n < MAXOUT) rep->out[me][n++] = x; } }
void out(const std::string &s) { for (char c : s) out((long double)c); out(-1.L); }
void out_id(long id) { if (me > 0 && rep->nids < MAXIDS) rep->ids[rep->nids++] = id; }

// ---- calls inserted by the compiler -----------------------------------------------
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void *p) { plain(p, n, false, PC); } void __tsan_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { plain(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { plain(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_read##n##_pc(void *p, void *pc) { plain(p, n, false, pc); } void __tsan_write##n##_pc(void *p, void *pc) { plain(p, n, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { plain(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { plain(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) plain(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { plain(p, 8, false, PC); }

static void atomic_op(const void *p, size_t n, bool rd, bool wr, int mo, const char *what, const void *pc) {
    // called before the operation takes effect
    Guard g; point(what, p);
    const bool acq = rd && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    const bool rel = wr && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    access(uintptr_t(p), n, wr, true, pc);
    if (acq) acquire(p);
    if (rel) release(p);
    else if (wr && !rd) syncs->erase(p);   // a relaxed store ends the release sequence
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, false, mo, "load", PC); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), false, true, mo, "store", PC); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "xchg", PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "add", PC); T o = *p; *p = T(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "sub", PC); T o = *p; *p = T(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "and", PC); T o = *p; *p = T(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "or", PC); T o = *p; *p = T(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "xor", PC); T o = *p; *p = T(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "nand", PC); T o = *p; *p = T(~(o & v)); return o; } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "cas", PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "cas", PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { if (watched()) atomic_op((const void *)p, sizeof(T), true, true, mo, "cas", PC); T o = *p; if (o == e) *p = v; return o; }
typedef unsigned char u8_; typedef unsigned short u16_; typedef unsigned u32_; typedef unsigned long u64_;
ATOMIC(8, u8_) ATOMIC(16, u16_) ATOMIC(32, u32_) ATOMIC(64, u64_)
void __tsan_atomic_thread_fence(int) { if (watched()) { Guard g; point("fence", nullptr); th[me].vc.join(fencevc); fencevc.join(th[me].vc); ++th[me].vc.c[me]; } }
void __tsan_atomic_signal_fence(int) {}

// ---- static initialization guards ---------------------------------------------------
static const void *nowhere;
int __cxa_guard_acquire(long long *gd) {
    volatile char *b = reinterpret_cast<volatile char *>(gd);
    if (!(active && me > 0)) { if (b[0]) return 0; b[1] = 1; return 1; }
    Guard g;
    point("guard", gd);
    for (;;) {
        if (b[0]) { acquire(gd); return 0; }
        if (!b[1]) { b[1] = char(1 + me); return 1; }
        if (b[1] == 1 + me) violation("recursive initialization of a static variable");
        block(gd);
    }
}
void __cxa_guard_release(long long *gd) {
    volatile char *b = reinterpret_cast<volatile char *>(gd);
    if (!(active && me > 0)) { b[0] = 1; b[1] = 0; return; }
    Guard g;
    release(gd);
    b[0] = 1; b[1] = 0; wake(gd);
    point("guard done", gd);
}
void __cxa_guard_abort(long long *gd) {
    volatile char *b = reinterpret_cast<volatile char *>(gd);
    b[1] = 0;
    if (active && me > 0) { Guard g; wake(gd); }
}

// ---- locks: the managed threads run one at a time, so a lock is only bookkeeping -------
struct Lock { int owner = 0, depth = 0; bool real = false; };
static std::unordered_map<const void *, Lock> *locks;
static Lock &lk(const void *m) { if (!locks) locks = new std::unordered_map<const void *, Lock>(); return (*locks)[m]; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!(active && me > 0) || inside) return 0;
    Guard g; point("lock", m);
    for (;;) {
        Lock &l = lk(m);
        if (!l.depth) { l.owner = me; l.depth = 1; acquire(m); return 0; }
        if (l.owner == me) { if (m->__data.__kind & 1) { ++l.depth; return 0; } violation("deadlock: a thread locks a mutex it already holds"); }
        block(m);
    }
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!(active && me > 0) || inside) return 0;
    Guard g; point("trylock", m);
    Lock &l = lk(m);
    if (l.depth && !(l.owner == me && m->__data.__kind & 1)) return EBUSY;
    l.owner = me; ++l.depth; acquire(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (!(active && me > 0) || inside) return 0;
    Guard g;
    Lock &l = lk(m);
    if (l.depth && --l.depth == 0) { release(m); wake(m); point("unlock", m); }
    return 0;
}
// a reader-writer lock is treated as exclusive for blocking; readers are ordered too
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { return pthread_mutex_lock(reinterpret_cast<pthread_mutex_t *>(m)); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { return pthread_mutex_lock(reinterpret_cast<pthread_mutex_t *>(m)); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { return pthread_mutex_unlock(reinterpret_cast<pthread_mutex_t *>(m)); }
int pthread_once(pthread_once_t *o, void (*f)()) {
    volatile int *s = reinterpret_cast<volatile int *>(o);
    if (!(active && me > 0)) { if (*s == 0) { f(); *s = 2; } return 0; }
    const bool hidden = inside;
    ++inside;
    if (!hidden) point("once", o);
    for (;;) {
        if (*s == 2) { acquire(o); --inside; return 0; }
        if (*s == 0) break;
        block(o);
    }
    *s = 1;
    --inside;
    try { f(); } catch (...) { *s = 0; Guard g; wake(o); throw; }
    ++inside;
    release(o); *s = 2; wake(o);
    --inside;
    return 0;
}

// ---- block copies -----------------------------------------------------------------------
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { plain(s, n, false, PC); plain(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { plain(s, n, false, PC); plain(d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { plain(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { plain(a, n, false, PC); plain(b, n, false, PC); return __real_memcmp(a, b, n); }
}
// memory given out again has no past
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void *fresh(void *p, size_t n) { if (p && active && !inside) forget(p, n); return p; }
void *__wrap_malloc(size_t n) { return fresh(__real_malloc(n), n); }
void *__wrap_calloc(size_t k, size_t n) { return fresh(__real_calloc(k, n), k * n); }
void *__wrap_realloc(void *p, size_t n) { return fresh(__real_realloc(p, n), n); }
void __wrap_free(void *p) { __real_free(p); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return fresh(p, n); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t n) noexcept { if (p && watched()) plain(p, n, true, PC); std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }

// ---- exploration ----------------------------------------------------------------------------
typedef std::vector<std::vector<const ThreadOp *>> Program;
static std::string show(const Program &p) {
    std::string s;
    for (auto &t : p) { s += s.empty() ? "" : " | "; for (auto *o : t) s += std::string(o->name) + " "; }
    return s;
}
// runs a program in a process of its own, following the choices c has from here on
static void run(vh::Ctx &c, int how, const Program &prog, int bound, int first, bool replayed) {
    if (!rep) {
        rep = static_cast<Report *>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (rep == MAP_FAILED) _exit(8);
    }
    rep->status = rep->nchoice = rep->nsync = rep->nids = 0; rep->hash = rep->accesses = 0; rep->msg[0] = rep->trace[0] = 0;
    for (int &n : rep->nout) n = 0;
    const std::vector<int> pre(c.vec.begin() + long(c.pos < c.vec.size() ? c.pos : c.vec.size()), c.vec.end());
    const pid_t p = fork();
    if (p < 0) throw std::runtime_error("fork");
    if (p == 0) {
        for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, SIG_DFL);
        struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, nullptr);
        struct rlimit lim = {20, 21}; setrlimit(RLIMIT_CPU, &lim);
        alarm(120);
        execution(how, prog, bound, first, pre.data(), int(pre.size()));
    }
    int st; while (waitpid(p, &st, 0) < 0) { }
    if (replayed) for (int i = 0; i < rep->nchoice; ++i) { const int v = c.choose(rep->arity[i]); if (v != rep->choice[i]) throw vh::Violation{"nondeterminism", "schedule replay mismatch"}; }
    if (rep->status == 2) throw vh::Violation{"threads", std::string(rep->msg) + " [" + show(prog) + "; schedule: " + rep->trace + "]"};
    if (WIFSIGNALED(st)) throw vh::Violation{"threads-crash", "the process died of signal " + std::to_string(WTERMSIG(st)) + " [" + show(prog) + "; schedule: " + rep->trace + "]"};
    if (rep->status != 1) throw std::runtime_error("the execution ended abnormally");
}
static std::vector<long double> alone(vh::Ctx &c, int how, const ThreadOp *o, int &nids) {
    static std::map<std::pair<int, const ThreadOp *>, std::pair<int, std::vector<long double>>> memo;
    auto it = memo.find({how, o});
    if (it == memo.end()) {
        vh::Ctx t; run(t, how, Program{{o}}, 0, 0, false);
        it = memo.insert({{how, o}, {rep->nids, std::vector<long double>(rep->out[1], rep->out[1] + rep->nout[1])}}).first;
    }
    (void)c; nids = it->second.first;
    return it->second.second;
}
static void judge(vh::Ctx &c, int how, const Program &prog, int bound) {
    const int first = c.choose(int(prog.size()));
    c.shard();
    std::vector<std::vector<long double>> want;
    int ids = 0;
    for (auto &t : prog) {
        want.push_back({});
        for (auto *o : t) { int k; auto v = alone(c, how, o, k); want.back().insert(want.back().end(), v.begin(), v.end()); ids += k; }
    }
    c.note([&] { return std::string(how ? "computed" : "independent") + " shared variables, " + show(prog); });
    run(c, how, prog, bound, first, true);
    c.note([&] { return std::string("schedule: ") + rep->trace; });
    c.ntrans += uint64_t(rep->nsync) + prog.size();
    c.state(vh::mix(rep->hash, how));
    for (size_t t = 0; t < prog.size(); ++t) {
        const int n = rep->nout[t + 1];
        c.check(n == int(want[t].size()), "results", [&] { return "thread " + std::to_string(t + 1) + " gave " + std::to_string(n) + " results instead of " + std::to_string(want[t].size()); });
        for (int i = 0; i < n; ++i) {
            const long double a = rep->out[t + 1][i], b = want[t][i];
            c.check(a == b || (std::isnan(a) && std::isnan(b)), "results", [&] { return "thread " + std::to_string(t + 1) + ": result " + std::to_string(i) + " is " + vh::num(a) + " but " + vh::num(b) + " when run alone [" + show(prog) + "; schedule: " + rep->trace + "]"; });
        }
    }
    c.check(rep->nids == ids, "ids", [&] { return std::string("wrong number of ids"); });
    std::set<long> seen;
    for (int i = 0; i < rep->nids; ++i) {
        c.check(rep->ids[i] > 0, "ids", [&] { return "an independent variable got the id " + std::to_string(rep->ids[i]) + " [" + show(prog) + "; schedule: " + rep->trace + "]"; });
        c.check(seen.insert(rep->ids[i]).second, "ids", [&] { return "two independent variables got the same id " + std::to_string(rep->ids[i]) + " [" + show(prog) + "; schedule: " + rep->trace + "]"; });
    }
}
// Threads are interchangeable, so programs are enumerated up to their order.
#ifndef DEEP
#define DEEP 1
#endif
#ifndef PAIRB
#define PAIRB 4
#endif
static const int ANY = 1000000;            // no bound on preemptions
static void pairs(vh::Ctx &c) {
    const int a = c.choose(NOPS), b = c.choose(NOPS - a) + a, how = c.choose(2);
    judge(c, how, Program{{&OPS[a]}, {&OPS[b]}}, c.thorough() ? PAIRB + 2 : PAIRB);
}
static void triples(vh::Ctx &c) {
    const int a = c.choose(NOPS), b = c.choose(NOPS - a) + a, d = c.choose(NOPS - b) + b, how = a == b || b == d || c.thorough() ? c.choose(2) : 0;
    judge(c, how, Program{{&OPS[a]}, {&OPS[b]}, {&OPS[d]}}, c.thorough() ? 2 : a == b && b == d ? 2 : a == b || b == d ? 1 : 0);
}
static void twice(vh::Ctx &c) {            // an operation after another
    const int a = c.choose(NOPS), b = c.choose(NOPS), d = c.choose(NOPS);
    if (!c.thorough() && a != d && b != d) c.prune();
    judge(c, 0, Program{{&OPS[a], &OPS[b]}, {&OPS[d]}}, c.thorough() ? 2 : 1);
}
static void creation(vh::Ctx &c, int nt) { // every interleaving of constructions
    const int K = c.thorough() || nt == 2 ? 5 : 4;   // UReal, UReal2 in both modes, given all moments; mixed types
    Program p;
    int k = 0;
    for (int t = 0; t < nt; ++t) { k += c.choose(K - k); p.push_back({&OPS[k]}); }
    judge(c, 0, p, c.thorough() || nt == 2 ? ANY : 4);
}
static void creation2(vh::Ctx &c) {        // two after each other
    const int K = 4;
    Program p;
    for (int t = 0; t < 2; ++t) { const ThreadOp *a = &OPS[c.choose(K)], *b = &OPS[c.choose(K)]; p.push_back({a, b}); }
    judge(c, 0, p, c.thorough() ? ANY : 4);
}
int main(int argc, char **argv) {
    vh::Harness h;
    h.add("creation2", [](vh::Ctx &c) { creation(c, 2); });
    if (DEEP) h.add("creation3", [](vh::Ctx &c) { creation(c, 3); });
    h.add("creation-twice", creation2);
    h.add("pairs", pairs);
    h.add("triples", triples);
    h.add("twice", twice);
    return h.main(argc, argv);
}
