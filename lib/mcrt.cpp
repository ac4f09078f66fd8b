// mcrt.cpp - controlled scheduler + happens-before race detector + stateless explorer.
//
// The harness (and all SpaceHub headers it includes) is compiled with -fsanitize=thread but linked against this file
// instead of libtsan: every memory access and every atomic operation calls into this runtime.  pthread primitives, the
// futex behind std::future, call_once and function-static guards are interposed.  Exactly one thread runs at a time;
// a context switch can only happen where this runtime decides, i.e. at every synchronisation operation (mutex,
// condition variable, atomic, thread creation/join/exit, once, static-initialisation guard, future) and at explicit
// mcrt::yield() points.  Plain accesses are not scheduling points: they are checked for data races with vector clocks,
// and a race is itself a violation, so exploring switches at synchronisation operations covers all behaviours of
// race-free programs.
//
// Explorer: every execution is a forked child that follows a prefix of choices and then the default policy, and
// records all alternatives it had; a work list of prefixes enumerates the complete tree of executions within the
// preemption bound.
#include "mcrt.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <bits/atomic_futex.h>
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

namespace {
constexpr int MAXT = 12;
constexpr int MAXCH = 6000;
constexpr int MAXSTEP = 60000;

enum : int { E_RUN = 0, E_OK = 1, E_FAIL = 2 };
struct ExecShared {
    int result;
    int nch;
    uint64_t steps;
    uint64_t outcome;
    char key[256];
    char what[2000];
    unsigned char nalt[MAXCH];
    unsigned char chosen[MAXCH];
};
ExecShared* X = nullptr;

std::string sfmt(const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// ------------------------------------------------------------------ scheduler state (only used in the child)
typedef std::vector<uint32_t> VC;
static inline void vjoin(uint32_t* a, const uint32_t* b) {
    for (int i = 0; i < MAXT; ++i)
        if (b[i] > a[i]) a[i] = b[i];
}
struct Clock {
    uint32_t c[MAXT];
};
struct Thr {
    enum St { RUN, WAIT, DONE } st = DONE;
    std::function<bool()> pred;  // enabled condition when WAIT
    const char* where = "";
    std::atomic<int> go{0};
    Clock vc{};
    Clock exit_vc{};
    pthread_t pt{};
    bool yielded = false;
    int atomics_run = 0;
    int ignore = 0;
    bool started = false;
    bool detached = false;
};
struct Sched {
    Thr t[MAXT];
    int n = 0;
    int cur = 0;
    bool on = false;
    std::vector<unsigned char> prefix;
    size_t pos = 0;
    int bound = 2, used = 0, spurious = 0;
    bool fixed = false;  // default schedule only
    bool dying = false;
};
Sched* S = nullptr;
__thread int me = -1;
__thread int in_rt = 0;  // inside the runtime: accesses are not recorded, operator new not tracked
void (*g_on_end)() = nullptr;

struct InRt {
    InRt() { ++in_rt; }
    ~InRt() { --in_rt; }
};

bool live() { return S && S->on && me >= 0 && !S->dying; }

void finish(int res, std::string const& key, std::string const& what) {
    ++in_rt;
    if (X->result == E_RUN) {
        snprintf(X->key, sizeof X->key, "%s", key.c_str());
        snprintf(X->what, sizeof X->what, "%s", what.c_str());
        X->result = res;
    }
    S->dying = true;
    _exit(0);
}
std::string thread_report() {
    std::string o;
    for (int i = 0; i < S->n; ++i)
        if (S->t[i].st != Thr::DONE) o += sfmt(" T%d:%s", i, S->t[i].st == Thr::RUN ? "runnable" : S->t[i].where);
    return o;
}
int pick(int n, int /*kind*/) {  // a recorded choice among n alternatives
    if (n <= 1) return 0;
    if (X->nch >= MAXCH) finish(E_FAIL, "mcrt-choice-limit", "too many choice points in one execution (no progress?)");
    int c = 0;
    if (S->pos < S->prefix.size()) c = S->prefix[S->pos];
    S->pos++;
    if (c >= n) finish(E_FAIL, "mcrt-divergence", "replayed prefix diverged: execution is not deterministic");
    X->nalt[X->nch] = (unsigned char)std::min(n, 250);
    X->chosen[X->nch] = (unsigned char)c;
    X->nch++;
    return c;
}
void fwait(Thr& t) {
    while (t.go.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &t.go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    t.go.store(0, std::memory_order_relaxed);
}
void fwake(Thr& t) {
    t.go.store(1, std::memory_order_release);
    syscall(SYS_futex, &t.go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
bool enabled(int i) {
    Thr& t = S->t[i];
    if (t.st == Thr::RUN) return true;
    if (t.st == Thr::WAIT) return t.pred();
    return false;
}
// Give up the token if the explorer says so.  Called by the running thread with its own status already set.
void schedule() {
    InRt g;
    if (++X->steps > MAXSTEP)
        finish(E_FAIL, "no-progress", "execution exceeds the step limit (livelock):" + thread_report());
    int opts[MAXT], k = 0;
    bool cur_en = enabled(me);
    bool fresh = false;
    if (cur_en && !S->t[me].yielded) opts[k++] = me;
    for (int i = 0; i < S->n; ++i)
        if (i != me && enabled(i)) {
            if (S->t[i].yielded) {
                continue;
            }
            opts[k++] = i;
            fresh = true;
        }
    (void)fresh;
    if (k == 0) {  // only threads that yielded are left
        for (int i = 0; i < S->n; ++i)
            if (S->t[i].yielded) {
                S->t[i].yielded = false;
                if (enabled(i)) opts[k++] = i;
            }
    }
    if (k == 0) {
        bool any = false;
        for (int i = 0; i < S->n; ++i) any |= S->t[i].st != Thr::DONE;
        if (any) finish(E_FAIL, "deadlock", "no thread can run:" + thread_report());
        return;
    }
    int c;
    bool preemptive = opts[0] == me;
    if (S->fixed || (preemptive && S->used >= S->bound))
        c = 0;
    else
        c = pick(k, 0);
    int nx = opts[c];
    if (preemptive && c > 0) S->used++;
    for (int i = 0; i < S->n; ++i)
        if (i != nx && S->t[i].yielded && nx != me) { /* others keep their mark until someone else ran */
        }
    S->t[nx].yielded = false;
    if (nx != me) {
        for (int i = 0; i < S->n; ++i)
            if (i != me) S->t[i].yielded = false;
        S->t[nx].atomics_run = 0;
        S->cur = nx;
        bool done = S->t[me].st == Thr::DONE;
        fwake(S->t[nx]);
        if (done) return;
        fwait(S->t[me]);
    }
    if (S->t[me].st == Thr::WAIT) S->t[me].st = Thr::RUN;
}
void sched_point() {
    if (!live() || in_rt) return;
    schedule();
}
void wait_for(std::function<bool()> p, const char* where) {
    InRt g;
    Thr& t = S->t[me];
    t.pred = std::move(p);
    t.where = where;
    t.st = Thr::WAIT;
    schedule();
    t.pred = nullptr;
}

// ------------------------------------------------------------------ happens-before
struct SyncVar {
    Clock c{};
};
std::unordered_map<const void*, Clock>* syncs;
Clock& sync_of(const void* p) { return (*syncs)[p]; }
void acquire(const void* p) {
    auto it = syncs->find(p);
    if (it != syncs->end()) vjoin(S->t[me].vc.c, it->second.c);
}
void release(const void* p, bool strong = false) {
    Clock& c = sync_of(p);
    if (strong) c = S->t[me].vc;
    else vjoin(c.c, S->t[me].vc.c);
    S->t[me].vc.c[me]++;
}
struct ThrCell {  // clocks of the last plain/atomic write/read of each byte of an 8-byte granule by one thread
    uint32_t w[8], r[8], wa[8], ra[8];
};
struct Cell {
    ThrCell* t[MAXT];
    bool freed;
};
std::unordered_map<uintptr_t, Cell*>* shadow;
Cell* cell(uintptr_t g) {
    auto& p = (*shadow)[g];
    if (!p) p = (Cell*)calloc(1, sizeof(Cell));
    return p;
}
void describe_pc(void* pc, char* out, size_t n) {
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_fname)
        snprintf(out, n, "%s+0x%lx", di.dli_sname ? di.dli_sname : "?", (unsigned long)((char*)pc - (char*)di.dli_fbase));
    else snprintf(out, n, "%p", pc);
}
void race(const char* kind, uintptr_t addr, void* pc, int other) {
    char b[512];
    describe_pc(pc, b, sizeof b);
    finish(E_FAIL, "data-race", sfmt("%s at %p by T%d (pc %s) unordered with an access by T%d", kind, (void*)addr, me, b, other));
}
void access1(uintptr_t a, unsigned sz, bool wr, bool atomic, void* pc) {
    // within one 8-byte granule
    uintptr_t g = a >> 3;
    uint8_t m = (uint8_t)(((1u << sz) - 1) << (a & 7));
    Cell* c = cell(g);
    if (c->freed) {
        char b[512];
        describe_pc(pc, b, sizeof b);
        finish(E_FAIL, "use-after-free", sfmt("access to freed memory %p by T%d (pc %s)", (void*)a, me, b));
    }
    Clock& vc = S->t[me].vc;
    unsigned lo = a & 7, hi = lo + sz;
    (void)m;
    for (int i = 0; i < S->n; ++i) {
        if (i == me || !c->t[i]) continue;
        ThrCell& o = *c->t[i];
        uint32_t v = vc.c[i];
        for (unsigned k = lo; k < hi; ++k) {
            if (o.w[k] > v || (!atomic && o.wa[k] > v)) race(wr ? "write" : "read", a, pc, i);
            if (wr && (o.r[k] > v || (!atomic && o.ra[k] > v))) race("write", a, pc, i);
        }
    }
    uint32_t now = vc.c[me];
    if (!c->t[me]) c->t[me] = (ThrCell*)calloc(1, sizeof(ThrCell));
    ThrCell& t = *c->t[me];
    uint32_t* f = wr ? (atomic ? t.wa : t.w) : (atomic ? t.ra : t.r);
    for (unsigned k = lo; k < hi; ++k) f[k] = now;
}
void mem_access(const void* p, size_t n, bool wr, bool atomic, void* pc) {
    if (!live() || in_rt || S->n < 1) return;
    if (S->t[me].ignore) return;
    if (S->n == 1) {  // no other thread ever existed: nothing can race; still check freed memory cheaply
        return;
    }
    InRt g;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        unsigned sz = (unsigned)std::min<uintptr_t>(8 - (a & 7), e - a);
        access1(a, sz, wr, atomic, pc);
        a += sz;
    }
}
void clear_range(const void* p, size_t n, bool freed) {
    uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
    if (n > (1u << 16) && !freed) {  // large ranges: walk the map instead
        for (auto it = shadow->begin(); it != shadow->end();) {
            uintptr_t x = it->first << 3;
            if (x >= a && x < e) {
                for (auto* t : it->second->t) free(t);
                free(it->second);
                it = shadow->erase(it);
            } else ++it;
        }
        return;
    }
    for (; a < e; a += 8) {
        auto it = shadow->find(a >> 3);
        if (it != shadow->end()) {
            for (auto*& x : it->second->t) free(x), x = nullptr;
            it->second->freed = freed;
        } else if (freed && n <= 4096) {
            cell(a >> 3)->freed = true;
        }
    }
}
std::unordered_map<void*, size_t>* blocks;

}  // namespace

// ------------------------------------------------------------------ heap (quarantined, so addresses are not reused)
static void* rt_new(size_t n) {
    void* p = __libc_malloc(n ? n : 1);
    if (live() && !in_rt) {
        InRt g;
        (*blocks)[p] = n;
        if (S->n > 1) clear_range(p, n, false);
    }
    return p;
}
static void rt_delete(void* p, void* pc) {
    if (!p) return;
    if (live() && !in_rt) {
        InRt g;
        auto it = blocks->find(p);
        if (it != blocks->end()) {
            size_t n = it->second;
            if (S->n > 1 && !S->t[me].ignore && n <= 65536) {
                // freeing counts as a write; then poison
                uintptr_t a = (uintptr_t)p, e = a + n;
                for (; a < e; a += 8) {
                    auto c = shadow->find(a >> 3);
                    if (c != shadow->end()) {
                        if (c->second->freed) finish(E_FAIL, "double-free", "memory freed twice");
                        access1(a, (unsigned)std::min<uintptr_t>(8, e - a), true, false, pc);
                    }
                }
            }
            clear_range(p, std::min<size_t>(n, 4096), true);
            return;  // quarantine: never reused within this execution
        }
    }
    __libc_free(p);
}
void* operator new(size_t n) { return rt_new(n); }
void* operator new[](size_t n) { return rt_new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return rt_new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return rt_new(n); }
void operator delete(void* p) noexcept { rt_delete(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { rt_delete(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { rt_delete(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { rt_delete(p, __builtin_return_address(0)); }

// ------------------------------------------------------------------ interposed pthread primitives
#define REAL(ret, name, ...)                            \
    typedef ret (*name##_fp)(__VA_ARGS__);              \
    static name##_fp real_##name() {                    \
        static name##_fp f = nullptr;                   \
        if (!f) f = (name##_fp)dlsym(RTLD_NEXT, #name);  \
        return f;                                       \
    }
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_cond_destroy, pthread_cond_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)())
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, nanosleep, const struct timespec*, struct timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*)

namespace {
struct Mtx {
    int owner = -1, depth = 0;
    int readers = 0;
};
struct Cnd {
    std::deque<std::pair<int, bool>> waiters;  // tid, signalled
};
std::unordered_map<const void*, Mtx>* mtxs;
std::unordered_map<const void*, std::vector<int>>* cnds;   // waiting thread ids (not yet signalled)
std::unordered_map<const void*, int>* onces;               // 0 none, 1 running, 2 done
bool woken[MAXT];

void check_alive(const void* p, const char* what) {
    auto it = shadow->find((uintptr_t)p >> 3);
    if (it != shadow->end() && it->second->freed && !S->t[me].ignore)
        finish(E_FAIL, "use-after-free", sfmt("%s on freed object by T%d", what, me));
}
bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
void do_lock(pthread_mutex_t* m, bool point) {
    check_alive(m, "mutex lock");
    if (point) schedule();
    Mtx& x = (*mtxs)[m];
    if (x.owner == me) {
        if (is_recursive(m)) {
            x.depth++;
            return;
        }
        finish(E_FAIL, "self-deadlock", sfmt("T%d locks a mutex it already holds", me));
    }
    while ((*mtxs)[m].owner != -1) wait_for([m] { return (*mtxs)[m].owner == -1; }, "mutex");
    Mtx& y = (*mtxs)[m];
    y.owner = me;
    y.depth = 1;
    acquire(m);
}
void do_unlock(pthread_mutex_t* m) {
    check_alive(m, "mutex unlock");
    Mtx& x = (*mtxs)[m];
    if (x.owner != me) finish(E_FAIL, "bad-unlock", sfmt("T%d unlocks a mutex it does not hold", me));
    if (--x.depth == 0) {
        release(m);
        (*mtxs)[m].owner = -1;
    }
}
struct StartArg {
    void* (*f)(void*);
    void* a;
    int id;
};
void thread_exit_rt() {
    ++in_rt;
    Thr& t = S->t[me];
    t.exit_vc = t.vc;
    t.st = Thr::DONE;
    schedule();
}
void* start(void* p) {
    StartArg* s = (StartArg*)p;
    in_rt = 1;
    me = s->id;
    fwait(S->t[me]);
    {
        pthread_attr_t at;
        void* base;
        size_t sz;
        if (!pthread_getattr_np(pthread_self(), &at)) {
            pthread_attr_getstack(&at, &base, &sz);
            clear_range(base, sz, false);
            pthread_attr_destroy(&at);
        }
    }
    auto f = s->f;
    auto a = s->a;
    free(s);
    in_rt = 0;
    void* r = f(a);
    thread_exit_rt();
    return r;
}
}  // namespace

extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if (!live() || in_rt) return real_pthread_create()(th, at, f, a);
    {
        InRt g;
        if (S->n >= MAXT) finish(E_FAIL, "mcrt-thread-limit", "too many threads");
        int id = S->n;
        Thr& t = S->t[id];
        t.st = Thr::RUN;
        memset(&t.vc, 0, sizeof t.vc);
        vjoin(t.vc.c, S->t[me].vc.c);
        t.vc.c[id] = 1;
        S->t[me].vc.c[me]++;
        StartArg* s = (StartArg*)__libc_malloc(sizeof *s);
        s->f = f;
        s->a = a;
        s->id = id;
        S->n++;
        int r = real_pthread_create()(th, at, start, s);
        if (r) finish(E_FAIL, "mcrt-create", "pthread_create failed");
        t.pt = *th;
        t.started = true;
    }
    schedule();
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    if (!live() || in_rt) return real_pthread_join()(th, ret);
    InRt g;
    int id = -1;
    for (int i = 0; i < S->n; ++i)
        if (S->t[i].started && pthread_equal(S->t[i].pt, th)) id = i;
    if (id < 0) finish(E_FAIL, "bad-join", "join of an unknown thread");
    if (id == me) finish(E_FAIL, "self-join", "thread joins itself");
    schedule();
    if (S->t[id].st != Thr::DONE) wait_for([id] { return S->t[id].st == Thr::DONE; }, "join");
    vjoin(S->t[me].vc.c, S->t[id].exit_vc.c);
    S->t[id].started = false;
    return real_pthread_join()(th, ret);
}
int pthread_detach(pthread_t th) {
    if (!live() || in_rt) return real_pthread_detach()(th);
    InRt g;
    for (int i = 0; i < S->n; ++i)
        if (S->t[i].started && pthread_equal(S->t[i].pt, th)) S->t[i].detached = true, S->t[i].started = false;
    return real_pthread_detach()(th);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!live() || in_rt) return in_rt && S && S->on ? 0 : real_pthread_mutex_lock()(m);
    InRt g;
    do_lock(m, true);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!live() || in_rt) return in_rt && S && S->on ? 0 : real_pthread_mutex_trylock()(m);
    InRt g;
    schedule();
    Mtx& x = (*mtxs)[m];
    if (x.owner == me && is_recursive(m)) {
        x.depth++;
        return 0;
    }
    if (x.owner != -1) return EBUSY;
    x.owner = me;
    x.depth = 1;
    acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!live() || in_rt) return in_rt && S && S->on ? 0 : real_pthread_mutex_unlock()(m);
    InRt g;
    do_unlock(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!live() || in_rt) return real_pthread_mutex_destroy()(m);
    InRt g;
    if ((*mtxs)[m].owner != -1) finish(E_FAIL, "destroy-locked-mutex", "mutex destroyed while locked");
    mtxs->erase(m);
    return 0;
}
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    InRt g;
    check_alive(c, "condition wait");
    // scheduling point before atomically releasing the mutex and blocking: a notification sent without the mutex can
    // fall exactly between the caller's predicate check and this point
    schedule();
    int self = me;
    woken[self] = false;
    (*cnds)[c].push_back(self);
    do_unlock(m);
    bool timeout = false;
    if (timed) {
        // nondeterministic time-out
        schedule();
        if (!woken[self] && pick(2, 2) == 1) timeout = true;
    } else if (S->spurious > 0) {
        schedule();
        if (!woken[self] && pick(2, 2) == 1) {
            S->spurious--;
            woken[self] = true;
            auto& v = (*cnds)[c];
            v.erase(std::remove(v.begin(), v.end(), self), v.end());
        }
    }
    if (!woken[self] && !timeout) wait_for([self] { return woken[self]; }, "condition variable");
    if (timeout && !woken[self]) {
        auto& v = (*cnds)[c];
        v.erase(std::remove(v.begin(), v.end(), self), v.end());
    }
    // note: no happens-before edge through the condition variable itself; the mutex provides it
    do_lock(m, false);
    return timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!live() || in_rt) return real_pthread_cond_wait()(c, m);
    return cond_wait_impl(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!live() || in_rt) return real_pthread_cond_timedwait()(c, m, ts);
    return cond_wait_impl(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (!live() || in_rt) return real_pthread_cond_clockwait()(c, m, k, ts);
    return cond_wait_impl(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!live() || in_rt) return in_rt && S && S->on ? 0 : real_pthread_cond_signal()(c);
    InRt g;
    check_alive(c, "notify");
    schedule();
    check_alive(c, "notify");
    auto& v = (*cnds)[c];
    if (!v.empty()) {
        int k = S->fixed ? 0 : pick((int)v.size(), 1);
        woken[v[k]] = true;
        v.erase(v.begin() + k);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!live() || in_rt) return in_rt && S && S->on ? 0 : real_pthread_cond_broadcast()(c);
    InRt g;
    check_alive(c, "notify");
    schedule();
    check_alive(c, "notify");
    for (int i : (*cnds)[c]) woken[i] = true;
    (*cnds)[c].clear();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!live() || in_rt) return real_pthread_cond_destroy()(c);
    InRt g;
    if (!(*cnds)[c].empty()) finish(E_FAIL, "destroy-waited-cond", "condition variable destroyed with waiters");
    cnds->erase(c);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!live() || in_rt) return real_pthread_once()(o, f);
    {
        InRt g;
        schedule();
        while ((*onces)[o] == 1) wait_for([o] { return (*onces)[o] != 1; }, "call_once");
        if ((*onces)[o] == 2) {
            acquire(o);
            return 0;
        }
        if (*(int*)o != 0 && (*onces)[o] == 0) {  // completed before the scheduler was switched on
            (*onces)[o] = 2;
            return 0;
        }
        (*onces)[o] = 1;
    }
    try {
        f();
    } catch (...) {
        InRt g;
        (*onces)[o] = 0;
        throw;
    }
    InRt g;
    (*onces)[o] = 2;
    *(int*)o = 2;
    release(o);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!live() || in_rt) return real_pthread_rwlock_rdlock()(l);
    InRt g;
    schedule();
    while ((*mtxs)[l].owner != -1) wait_for([l] { return (*mtxs)[l].owner == -1; }, "rwlock");
    (*mtxs)[l].readers++;
    acquire(l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!live() || in_rt) return real_pthread_rwlock_wrlock()(l);
    InRt g;
    schedule();
    auto free_ = [l] { return (*mtxs)[l].owner == -1 && (*mtxs)[l].readers == 0; };
    while (!free_()) wait_for(free_, "rwlock");
    (*mtxs)[l].owner = me;
    acquire(l);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!live() || in_rt) return real_pthread_rwlock_unlock()(l);
    InRt g;
    release(l);
    if ((*mtxs)[l].owner == me) (*mtxs)[l].owner = -1;
    else (*mtxs)[l].readers--;
    return 0;
}
static void do_yield() {
    InRt g;
    S->t[me].yielded = true;
    schedule();
    S->t[me].yielded = false;
}
int sched_yield() {
    if (live() && !in_rt) do_yield();
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!live() || in_rt) return real_nanosleep()(a, b);
    do_yield();
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
    if (!live() || in_rt) return real_clock_nanosleep()(c, f, a, b);
    do_yield();
    return 0;
}
int usleep(useconds_t u) {
    if (live() && !in_rt) {
        do_yield();
        return 0;
    }
    struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000};
    return real_nanosleep()(&t, nullptr);
}
int get_nprocs() { return 3; }  // std::thread::hardware_concurrency() seen by the code under test
int pthread_num_processors_np() { return 3; }

// function-static guards
int __cxa_guard_acquire(uint64_t* gd) {
    if (!live() || in_rt) {
        if (*(volatile char*)gd) return 0;
        return 1;
    }
    InRt g;
    schedule();
    while (!*(char*)gd && (*onces)[gd] == 1) wait_for([gd] { return (*onces)[gd] != 1; }, "static initialisation");
    if (*(char*)gd) {
        acquire(gd);
        return 0;
    }
    (*onces)[gd] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* gd) {
    if (live() && !in_rt) {
        InRt g;
        release(gd);
        (*onces)[gd] = 2;
    }
    *(char*)gd = 1;
}
void __cxa_guard_abort(uint64_t* gd) {
    if (live() && !in_rt) {
        InRt g;
        (*onces)[gd] = 0;
    }
}
}  // extern "C"

// futex behind std::future
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds,
                                                       chrono::nanoseconds) {
    if (!live()) {
        syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0);
        return true;
    }
    InRt g;
    if (has_timeout) {
        schedule();
        return pick(2, 3) == 0;
    }
    if (*(volatile unsigned*)addr == val)
        wait_for([addr, val] { return *(volatile unsigned*)addr != val; }, "future");
    return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s,
                                                              chrono::nanoseconds n) {
    return _M_futex_wait_until(addr, val, has_timeout, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
    if (live()) return;  // waiters poll their predicate
    syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 0x7fffffff, nullptr, nullptr, 0);
}
}  // namespace std

// ------------------------------------------------------------------ instrumentation callbacks
#define PC __builtin_return_address(0)
static void atomic_pre(const void* p, int mo, bool wr, bool rd, void* pc, int sz) {
    // called before the operation is performed
    if (!live() || in_rt) return;
    if (S->n > 1 || true) {
        InRt g;
        Thr& t = S->t[me];
        if (++t.atomics_run > 400) {  // spinning: let others run
            t.atomics_run = 0;
            t.yielded = true;
        }
        if (S->n > 1) schedule();
        t.yielded = false;
    }
    mem_access(p, sz, wr, true, pc);
    InRt g;
    if (!S->t[me].ignore) {
        bool acq = mo != 0 && mo != 3, rel = mo >= 3;
        if (rd && (acq)) acquire(p);
        if (wr && rel) release(p);
        (void)rd;
    }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                     \
    void __tsan_read##N(void* p) { mem_access(p, N, false, false, PC); }              \
    void __tsan_write##N(void* p) { mem_access(p, N, true, false, PC); }              \
    void __tsan_unaligned_read##N(void* p) { mem_access(p, N, false, false, PC); }    \
    void __tsan_unaligned_write##N(void* p) { mem_access(p, N, true, false, PC); }    \
    void __tsan_volatile_read##N(void* p) { mem_access(p, N, false, false, PC); }     \
    void __tsan_volatile_write##N(void* p) { mem_access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem_access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { mem_access(p, 8, false, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { mem_access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { mem_access(p, n, true, false, PC); }

#define AT(BITS, T)                                                                                                   \
    T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                                                       \
        atomic_pre((const void*)a, mo, false, true, PC, sizeof(T));                                                   \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                 \
    void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                                                    \
        atomic_pre((const void*)a, mo, true, false, PC, sizeof(T));                                                   \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {                                                    \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) {                                                   \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) {                                                   \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) {                                                   \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) {                                                    \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                 \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) {                                                   \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {                        \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                           \
    }                                                                                                                 \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {                          \
        atomic_pre((const void*)a, mo, true, true, PC, sizeof(T));                                                    \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                           \
    }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ services
namespace mcrt {
void fail(std::string const& key, std::string const& what) {
    if (S && S->on) finish(E_FAIL, key, what);
    fprintf(stderr, "mcrt::fail outside an execution: %s %s\n", key.c_str(), what.c_str());
    _exit(3);
}
void yield() { sched_point(); }
int choose(int n) {
    if (!live()) return 0;
    InRt g;
    return pick(n, 4);
}
void access(const void* p, bool write, size_t n) {
    mem_access(p, n, write, false, __builtin_return_address(0));
}
void outcome(uint64_t h) { X->outcome = h; }
void on_end(void (*f)()) { g_on_end = f; }
int self() { return me; }
void ignore_begin() {
    if (S && me >= 0) S->t[me].ignore++;
}
void ignore_end() {
    if (S && me >= 0) S->t[me].ignore--;
}
bool active() { return live(); }
void no_race(bool) {}
}  // namespace mcrt

// ------------------------------------------------------------------ explorer
namespace {
double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
void* shm(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
}
void at_end() {  // registered first, hence runs after every static destructor
    if (!S || !S->on || me != 0 || S->dying) return;
    if (g_on_end) {
        ++in_rt;
        g_on_end();
        --in_rt;
    }
    ++in_rt;
    bool left = false;
    for (int i = 1; i < S->n; ++i) left |= S->t[i].st != Thr::DONE;
    if (X->result == E_RUN) {
        if (left) {
            snprintf(X->key, sizeof X->key, "thread-left-behind");
            snprintf(X->what, sizeof X->what, "a thread created by the code under test still runs at process exit:%s", thread_report().c_str());
            X->result = E_FAIL;
        } else
            X->result = E_OK;
    }
    S->dying = true;
    _exit(0);
}
void run_child(mcrt::Test const& t, std::vector<unsigned char> const& prefix, int bound, bool verbose) {
    if (!verbose) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    in_rt = 1;
    atexit(at_end);
    S = new Sched();
    syncs = new std::unordered_map<const void*, Clock>();
    shadow = new std::unordered_map<uintptr_t, Cell*>();
    blocks = new std::unordered_map<void*, size_t>();
    mtxs = new std::unordered_map<const void*, Mtx>();
    cnds = new std::unordered_map<const void*, std::vector<int>>();
    onces = new std::unordered_map<const void*, int>();
    S->prefix = prefix;
    S->bound = bound;
    S->spurious = t.spurious;
    S->fixed = t.fixed_schedule;
    S->n = 1;
    S->t[0].st = Thr::RUN;
    S->t[0].vc.c[0] = 1;
    S->t[0].pt = pthread_self();
    me = 0;
    S->on = true;
    in_rt = 0;
    bool threw = false;
    std::string ex;
    try {
        t.body(t.param);
    } catch (std::exception& e) {
        threw = true;
        ex = e.what();
    }
    if (threw) mcrt::fail("exception", "uncaught exception: " + ex);
    exit(0);
}
struct Pending {
    std::vector<unsigned char> p;
};
// executes one schedule in a forked child
int run_one(mcrt::Test const& t, std::vector<unsigned char> const& prefix, int bound, bool verbose) {
    X->result = E_RUN;
    X->nch = 0;
    X->steps = 0;
    X->outcome = 0;
    X->key[0] = X->what[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        alarm(60);
        run_child(t, prefix, bound, verbose);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (X->result == E_RUN) {
        X->result = E_FAIL;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(X->key, sizeof X->key, "hang"), snprintf(X->what, sizeof X->what, "execution does not terminate");
        else {
            snprintf(X->key, sizeof X->key, "crash");
            if (WIFSIGNALED(st)) snprintf(X->what, sizeof X->what, "process killed by signal %d", WTERMSIG(st));
            else snprintf(X->what, sizeof X->what, "process exited prematurely with status %d", WEXITSTATUS(st));
        }
    }
    return X->result;
}
std::string enc(std::vector<unsigned char> const& p) {
    std::string s;
    for (auto c : p) s += sfmt("%x.", c);
    return s.empty() ? "-" : s;
}
std::vector<unsigned char> dec(std::string const& s) {
    std::vector<unsigned char> r;
    if (s == "-") return r;
    size_t p = 0;
    while (p < s.size()) {
        r.push_back((unsigned char)strtoul(s.c_str() + p, nullptr, 16));
        p = s.find('.', p);
        if (p == std::string::npos) break;
        ++p;
    }
    return r;
}
std::string jesc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c < 32 || c > 126) o += sfmt("\\u%04x", c);
        else o += c;
    }
    return o;
}
struct Agg {
    uint64_t execs = 0, steps = 0, choices = 0;
    std::set<uint64_t> outcomes;
    std::map<std::string, std::pair<std::string, std::string>> viol;  // key -> (what, prefix)
    bool complete = true;
    std::vector<unsigned char> longest;
};
}  // namespace

int main(int argc, char** argv) {
    in_rt = 1;
    bool thorough = false;
    std::string out = "/dev/stdout", replay, only;
    int W = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--suite") only = argv[++i];
        else if (a == "--workers") W = atoi(argv[++i]);
    }
    auto ts = mcrt::tests();
    if (!replay.empty()) {
        auto p = replay.rfind(':');
        X = (ExecShared*)shm(sizeof(ExecShared));
        for (auto& t : ts)
            if (t.name == replay.substr(0, p)) {
                int r = run_one(t, dec(replay.substr(p + 1)), t.preemptions[thorough], true);
                printf("REPLAY %s -> %s key=%s %s (steps=%llu)\n", replay.c_str(), r == E_OK ? "ok" : "violation reproduced", X->key, X->what, (unsigned long long)X->steps);
                return r == E_OK ? 0 : 1;
            }
        return 2;
    }
    struct TR {
        std::string name, bounds;
        Agg a;
        int bound;
        double wall;
    };
    std::vector<TR> res;
    for (auto& t : ts) {
        if (!only.empty() && t.name.find(only) == std::string::npos) continue;
        if (t.thorough_only && !thorough) continue;
        double t0 = now();
        Agg agg;
        int bound = t.preemptions[thorough];
        uint64_t cap = t.cap[thorough];
        std::vector<std::vector<unsigned char>> work{{}};
        if (!X) X = (ExecShared*)shm(sizeof(ExecShared));
        auto account = [&](Agg& g, std::vector<unsigned char> const& pre, std::vector<std::vector<unsigned char>>& stack) {
            g.execs++;
            g.steps += X->steps;
            g.choices += X->nch;
            g.outcomes.insert(X->outcome);
            if (X->result == E_FAIL) {
                if (!g.viol.count(X->key)) {
                    std::vector<unsigned char> full(X->chosen, X->chosen + X->nch);
                    g.viol[X->key] = {X->what, enc(full)};
                }
            }
            for (int i = X->nch - 1; i >= (int)pre.size(); --i)
                for (int c = X->nalt[i] - 1; c >= 1; --c) {
                    std::vector<unsigned char> q(X->chosen, X->chosen + i);
                    q.push_back((unsigned char)c);
                    stack.push_back(std::move(q));
                }
            if ((int)g.longest.size() < X->nch) g.longest.assign(X->chosen, X->chosen + X->nch);
        };
        // phase 1: grow the work list in the parent; phase 2: rounds of parallel workers
        while (!work.empty() && agg.execs < 120 && agg.viol.empty()) {
            auto p = work.back();
            work.pop_back();
            run_one(t, p, bound, false);
            account(agg, p, work);
        }
        while (!work.empty() && agg.viol.empty() && agg.execs < cap) {
            int w = (int)std::min<size_t>(W, work.size());
            std::vector<pid_t> pids;
            std::vector<std::string> files;
            uint64_t quota = std::min<uint64_t>(thorough ? 6000 : 800, (cap - agg.execs) / w + 1);
            for (int i = 0; i < w; ++i) {
                std::string fn = sfmt("/tmp/mcrt.%d.%d", (int)getpid(), i);
                files.push_back(fn);
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) {
                    X = (ExecShared*)shm(sizeof(ExecShared));
                    std::vector<std::vector<unsigned char>> st;
                    for (size_t k = i; k < work.size(); k += w) st.push_back(work[k]);
                    Agg g;
                    double s0 = now();
                    while (!st.empty() && g.execs < quota && g.viol.empty() && now() - s0 < 20) {
                        auto p = st.back();
                        st.pop_back();
                        run_one(t, p, bound, false);
                        account(g, p, st);
                    }
                    FILE* f = fopen(fn.c_str(), "w");
                    fprintf(f, "%llu %llu %llu\n", (unsigned long long)g.execs, (unsigned long long)g.steps, (unsigned long long)g.choices);
                    fprintf(f, "%zu\n", g.outcomes.size());
                    for (auto h : g.outcomes) fprintf(f, "%llu\n", (unsigned long long)h);
                    fprintf(f, "%zu\n", g.viol.size());
                    for (auto& v : g.viol) {
                        std::string wv = v.second.first;
                        for (auto& ch : wv)
                            if (ch == '\n' || ch == '\r') ch = ' ';
                        std::string kv = v.first;
                        for (auto& ch : kv)
                            if (ch == '\n') ch = ' ';
                        fprintf(f, "%s\n%s\n%s\n", kv.c_str(), wv.c_str(), v.second.second.c_str());
                    }
                    fprintf(f, "%zu\n", st.size());
                    for (auto& p : st) fprintf(f, "%s\n", enc(p).c_str());
                    fprintf(f, "%s\n", enc(g.longest).c_str());
                    fclose(f);
                    _exit(0);
                }
                pids.push_back(pid);
            }
            for (auto p : pids) waitpid(p, nullptr, 0);
            std::vector<std::vector<unsigned char>> nw;
            for (auto& fn : files) {
                FILE* f = fopen(fn.c_str(), "r");
                if (!f) {
                    agg.complete = false;
                    continue;
                }
                unsigned long long a, b, c;
                size_t n;
                static char line[1 << 16];
                auto rd = [&]() -> std::string {
                    if (!fgets(line, sizeof line, f)) return "";
                    std::string s = line;
                    while (!s.empty() && (s.back() == '\n')) s.pop_back();
                    return s;
                };
                sscanf(rd().c_str(), "%llu %llu %llu", &a, &b, &c);
                agg.execs += a, agg.steps += b, agg.choices += c;
                n = strtoull(rd().c_str(), nullptr, 10);
                while (n--) agg.outcomes.insert(strtoull(rd().c_str(), nullptr, 10));
                n = strtoull(rd().c_str(), nullptr, 10);
                while (n--) {
                    auto k = rd(), wh = rd(), pf = rd();
                    if (!agg.viol.count(k)) agg.viol[k] = {wh, pf};
                }
                n = strtoull(rd().c_str(), nullptr, 10);
                while (n--) nw.push_back(dec(rd()));
                auto lg = dec(rd());
                if (lg.size() > agg.longest.size()) agg.longest = lg;
                fclose(f);
                unlink(fn.c_str());
            }
            work.swap(nw);
        }
        if (!work.empty()) agg.complete = false;
        // confirm violations
        for (auto it = agg.viol.begin(); it != agg.viol.end();) {
            bool ok = false;
            for (int k = 0; k < 2 && !ok; ++k) {
                run_one(t, dec(it->second.second), bound, false);
                ok = X->result == E_FAIL && it->first == X->key;
            }
            if (!ok) it->second.first += " [NOT reproduced on replay]";
            ++it;
        }
        res.push_back({t.name, t.bounds, agg, bound, now() - t0});
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"suites\":[");
    bool viol = false;
    for (size_t i = 0; i < res.size(); ++i) {
        auto& r = res[i];
        fprintf(f, "%s{\"name\":\"%s\",\"bounds\":\"%s; preemption bound %d\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct\":%zu,\"complete\":%s,\"sample\":\"[%s] schedule choices %s\",\"wall_s\":%.2f}",
                i ? "," : "", jesc(r.name).c_str(), jesc(r.bounds).c_str(), r.bound, (unsigned long long)r.a.execs, (unsigned long long)r.a.choices,
                (unsigned long long)r.a.steps, r.a.outcomes.size(), r.a.complete ? "true" : "false", jesc(r.name).c_str(), enc(r.a.longest).substr(0, 300).c_str(), r.wall);
    }
    fprintf(f, "],\"violations\":[");
    bool first = true;
    for (auto& r : res)
        for (auto& v : r.a.viol) {
            viol = true;
            fprintf(f, "%s{\"suite\":\"%s\",\"case\":\"%s\",\"key\":\"%s\",\"what\":\"%s\",\"confirmed\":%s}", first ? "" : ",", jesc(r.name).c_str(),
                    v.second.second.c_str(), jesc(v.first).c_str(), jesc(v.second.first).c_str(),
                    v.second.first.find("[NOT repr") == std::string::npos ? "true" : "false");
            first = false;
        }
    fprintf(f, "]}\n");
    fclose(f);
    _exit(viol ? 1 : 0);
}
