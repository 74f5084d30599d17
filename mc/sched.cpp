// A controlled scheduler for the real code.
//
// The pthread entry points (mutexes, condition variables, creation and joining of threads, once, futex system calls made
// by libstdc++ for futures and static initialisation) are replaced; only one thread runs at a time, and at every such
// operation, and at every atomic operation of the instrumented code, the explorer decides which thread goes on.  The code
// under test is compiled with -fsanitize=thread but linked against the functions in this file instead of the ThreadSanitizer
// run time: memory accesses are checked with vector clocks, so two accesses that are not ordered by synchronisation are
// reported in every schedule in which they occur, whatever values they happen to see.
#include "sched.hpp"
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <cxxabi.h>

namespace {
#ifndef SCHED_THREADS
#define SCHED_THREADS 8      // at the same time
#endif
constexpr int MAXT = SCHED_THREADS;
typedef uint32_t clk;
struct vc { clk v[MAXT] = {}; void join(const vc &o) { for(int i = 0; i < MAXT; ++i) if(o.v[i] > v[i]) v[i] = o.v[i]; } };

long raw_futex(volatile int *a, int op, int val)
{
    long r; register long r10 asm("r10") = 0;
    asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(val), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

enum status { RUN, MUTEX, COND, TIMED, JOIN, FUTEX, ONCE, ALL, DONE };
// real threads are kept and reused from one execution to the next
struct thread;
struct carrier { volatile int token = 0; pthread_t real{}; thread *job = nullptr; };
struct thread
{
    int id = 0; status st = RUN; void *obj = nullptr; void *mutex = nullptr; vc c; carrier *on = nullptr;
    int joining = -1; bool signalled = false, joined = false, creating = false; void *(*f)(void *) = nullptr; void *arg = nullptr; const char *at = "start";
};
struct mutex_state { int owner = -1; int depth = 0; vc c; };
struct sync_state { vc c; };
struct once_state { int st = 0, by = -1; vc c; };

struct session
{
    mc::ctx *c; sched::options o; std::vector<thread *> ts; int running = 0, preempted = 0, spurious = 0; unsigned steps = 0; bool over = false;
    std::map<void *, mutex_state> mutexes; std::map<void *, sync_state> atoms; std::map<void *, once_state> onces; std::map<void *, std::vector<int>> waiting;
};
session *S = nullptr;
std::vector<carrier *> idle; pid_t idle_of = 0; carrier *first = nullptr;
__thread int me = -1;         // thread number within the session
__thread int ignore = 0;      // > 0: own code
__thread int inside = 0;      // > 0: in the scheduler

template<typename F> F real(const char *n) { void *p = dlsym(RTLD_NEXT, n); if(!p) { fprintf(stderr, "sched: no %s\n", n); abort(); } return (F)p; }
bool on() { return S && me >= 0 && !inside; }
struct enter { enter() { ++inside; ++ignore; } ~enter() { --inside; --ignore; } };

std::string where(void *pc)
{
    Dl_info i; if(dladdr(pc, &i) && i.dli_sname) { int st; char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); std::string s = st == 0 ? d : i.dli_sname; free(d); return s.substr(0, 160); }
    return "?";
}

[[noreturn]] void die() { if(mc::fatal_hook()) mc::fatal_hook()(*S->c); fprintf(stderr, "sched: %s: %s\n", S->c->failure.key.c_str(), S->c->failure.msg.c_str()); _exit(3); }
void fatal(const std::string &key, const std::string &msg, bool can_continue)
{
    enter e; if(S->c->report(key, msg) && can_continue) return;
    if(!S->c->failed) { S->c->failed = true; S->c->failure = mc::violation{key, msg}; }
    die();
}

// ---- who may go on
bool enabled(thread &t)
{
    switch(t.st) {
    case RUN: case TIMED: return true;
    case MUTEX: return S->mutexes[t.mutex].owner == -1;
    case COND: case FUTEX: return false;
    case JOIN: return S->ts[t.joining]->st == DONE;
    case ONCE: return S->onces[t.obj].st != 1;
    case ALL: for(auto *u: S->ts) if(u->id != t.id && u->st != DONE) return false; return true;
    case DONE: return false;
    }
    return false;
}
void hand(int n)
{
    thread *t = S->ts[n]; S->running = n; carrier *k = t->on; __atomic_store_n(&k->token, 1, __ATOMIC_SEQ_CST); raw_futex(&k->token, FUTEX_WAKE_PRIVATE, 1);
}
void await(carrier *t)
{
    while(__atomic_load_n(&t->token, __ATOMIC_SEQ_CST) == 0) raw_futex(&t->token, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->token, 0, __ATOMIC_SEQ_CST);
}
std::string situation()
{
    std::ostringstream s; static const char *names[] = {"can run", "waits for a mutex", "waits on a condition variable", "waits with a time limit", "waits for a thread", "waits on a futex", "waits for a once", "waits for all threads", "finished"};
    for(auto *t: S->ts) s << " thread " << t->id << ' ' << names[t->st] << " (" << t->at << ");";
    return s.str();
}
// decide who goes on after the current thread came to a point where others may
void decide(bool finished)
{
    if(++S->steps > S->o.max_steps) fatal("livelock", "no end after " + std::to_string(S->steps) + " scheduling points:" + situation(), false);
    int n[MAXT], k = 0; thread *t = S->ts[me]; bool cur = !finished && enabled(*t);
    if(cur) n[k++] = me;
    for(auto *u: S->ts) if(u->id != me && enabled(*u)) n[k++] = u->id;
    if(k == 0) fatal("deadlock", "no thread can go on:" + situation(), false);
    int i = 0;
    bool free = S->ts[me]->creating && S->o.any_start;
    if(S->o.order) { if(!cur || free) i = S->o.order == 1 ? 0 : k - 1; }
    else if(k > 1 && !(cur && !free && S->preempted >= S->o.preemptions)) i = S->c->choose(k);
    if(cur && i > 0 && !free) ++S->preempted;
    if(S->c->verbose && n[i] != me) S->c->log_ << "  -> thread " << n[i] << " (" << me << " at " << t->at << ")\n";
    if(n[i] == me) return;
    hand(n[i]); if(!finished) await(t->on);
}
void pt(const char *what) { S->ts[me]->at = what; S->c->op(); decide(false); }
void block(status st, void *obj) { thread *t = S->ts[me]; t->st = st; t->obj = obj; decide(false); t->st = RUN; }
void tick() { ++S->ts[me]->c.v[me]; }
void acquire(const vc &c) { S->ts[me]->c.join(c); }

void lock_model(void *m)
{
    thread *t = S->ts[me]; auto &x = S->mutexes[m];
    if(x.owner != -1) { t->mutex = m; block(MUTEX, m); }
    x.owner = me; acquire(x.c);
}
void unlock_model(void *m) { auto &x = S->mutexes[m]; x.c.join(S->ts[me]->c); tick(); x.owner = -1; }

// ---- races
struct cell { uintptr_t key; uint32_t gen; uint32_t last_c; uint8_t last_t, last_mask, last_w; uint32_t w[8]; void *wpc; clk r[8][MAXT]; void *rpc[MAXT]; };
constexpr size_t CELLS = 1u << 16; cell *cells = nullptr; uint32_t gen = 0;
cell *find(uintptr_t g, bool make)
{
    size_t h = (g * 0x9e3779b97f4a7c15ull) >> 48;
    for(size_t i = 0; i < 64; ++i) { cell &x = cells[(h + i) & (CELLS - 1)];
        if(x.gen == gen && x.key == g) return &x;
        if(x.gen != gen) { if(!make) return nullptr; memset((void *)&x, 0, sizeof x); x.gen = gen; x.key = g; return &x; } }
    return nullptr;
}
void race(uintptr_t a, int other, void *opc, void *pc, bool ow, bool w)
{
    std::string s = std::string(ow ? "write" : "read") + " in thread " + std::to_string(other) + " in " + where(opc) + " and " + (w ? "write" : "read") + " in thread " + std::to_string(me) + " in " + where(pc) + " of the same memory are not ordered";
    (void)a; fatal("data-race", s, true);
}
// exception objects are counted and destroyed inside libstdc++, out of sight: not checked
struct range { uintptr_t a, e; }; std::vector<range> thrown_objects;
void access(uintptr_t a, size_t n, bool w, void *pc)
{
    if(!S || me < 0 || ignore || !S->o.races || S->ts.size() < 2) return;
    if(!thrown_objects.empty()) for(auto &r: thrown_objects) if(a >= r.a && a < r.e) return;
    vc &c = S->ts[me]->c; clk now = c.v[me];
    while(n) {
        uintptr_t g = a & ~uintptr_t(7); unsigned o = a - g, k = std::min<size_t>(8 - o, n); uint8_t mask = ((1u << k) - 1) << o;
        cell *x = find(g, true);
        if(x && !(x->last_t == me && x->last_c == now && (x->last_mask & mask) == mask && (x->last_w || !w))) {
            for(unsigned b = o; b < o + k; ++b) {
                uint32_t e = x->w[b]; int t = e >> 28; clk ec = e & 0x0fffffff;
                if(e && t != me && ec > c.v[t]) { enter i; race(a, t, x->wpc, pc, true, w); }
                if(w) { for(unsigned u = 0; u < S->ts.size(); ++u) if(int(u) != me && x->r[b][u] > c.v[u]) { enter i; race(a, u, x->rpc[u], pc, false, w); }
                    x->w[b] = (uint32_t(me) << 28) | now; x->wpc = pc; }
                else { x->r[b][me] = now; x->rpc[me] = pc; }
            }
            x->last_t = me; x->last_c = now; x->last_mask = mask; x->last_w = w;
        }
        a += k; n -= k;
    }
}
template<typename M> void forget_in(M &m, void *lo, void *hi) { for(auto i = m.lower_bound(lo); i != m.end() && i->first < hi;) i = m.erase(i); }
void forget(void *p, size_t n)
{
    if(!p || !n) return;
    uintptr_t a = uintptr_t(p) & ~uintptr_t(7), e = uintptr_t(p) + n;
    if(n <= CELLS) for(; a < e; a += 8) { if(cell *x = find(a, false)) { auto k = x->key; auto g = x->gen; memset((void *)x, 0, sizeof *x); x->key = k; x->gen = g; } }
    enter i; auto &x = thrown_objects; x.erase(std::remove_if(x.begin(), x.end(), [&](const range &r) { return r.a < e && r.e > (uintptr_t)p; }), x.end());
    forget_in(S->mutexes, p, (char *)p + n); forget_in(S->atoms, p, (char *)p + n); forget_in(S->onces, p, (char *)p + n);
}
void *begin_carrier(void *p)
{
    carrier *k = (carrier *)p;
    for(;;) {
        await(k); thread *t = k->job; me = t->id; inside = 0; ignore = 0;
        t->f(t->arg);
        enter e; t->st = DONE; t->at = "end"; tick(); decide(true);
        me = -1;
    }
}
}

namespace sched {
quiet::quiet() { ++ignore; }
quiet::~quiet() { --ignore; }
int self() { return me; }
unsigned clock() { return S ? S->steps : 0; }
void order(int o) { if(S) S->o.order = o; }
void point(const char *what) { if(on()) { enter e; pt(what); } }
void fail(const std::string &key, const std::string &msg) { if(S && me >= 0) { fatal(key, msg, true); } else throw mc::violation{key, msg}; }
void run(mc::ctx &c, const options &o, const std::function<void()> &body)
{
    if(!cells) mallopt(M_ARENA_MAX, 1);
    if(!cells) cells = (cell *)calloc(CELLS, sizeof(cell));
    ++gen; thrown_objects.clear();
    session s; s.c = &c; s.o = o; thread *t0 = new thread; t0->c.v[0] = 1; if(!first) first = new carrier; first->token = 0; t0->on = first; s.ts.push_back(t0); S = &s; me = 0; ignore = 0; inside = 0;
    bool thrown = false; mc::violation v; std::string other; bool any = false;
    try { body(); } catch(const mc::violation &x) { thrown = true; v = x; } catch(const std::exception &e) { any = true; other = e.what(); }
    {
        enter e; bool alone = true; for(auto *t: s.ts) if(t->id && t->st != DONE) alone = false;
        if(!alone) { t0->at = "the end of the program"; block(ALL, nullptr); }
        for(auto *t: s.ts) if(t->id && !t->joined) idle.push_back(t->on);
    }
    S = nullptr; me = -1;
    for(auto *t: s.ts) delete t;
    if(thrown) throw v;
    if(any) throw std::runtime_error(other);
}
}

// ---- replaced functions
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if(!on()) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return f(m); }
    enter e; auto &x = S->mutexes[m];
    if(x.owner == me) { if((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return 0; } }
    pt("lock"); lock_model(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if(!on()) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return f(m); }
    enter e; pt("try_lock"); auto &x = S->mutexes[m];
    if(x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return 0; }
    if(x.owner != -1) return EBUSY;
    x.owner = me; acquire(x.c); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if(!on()) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return f(m); }
    enter e; auto &x = S->mutexes[m]; if(x.depth) { --x.depth; return 0; }
    if(x.owner != me) { fatal("unlock", "a mutex is unlocked by a thread that does not hold it", true); return EPERM; }
    pt("unlock"); unlock_model(m); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if(on()) { enter e; if(S->mutexes[m].owner != -1) fatal("destroy", "a locked mutex is destroyed", true); S->mutexes.erase(m); return 0; } return 0; }
int pthread_cond_wait(pthread_cond_t *v, pthread_mutex_t *m)
{
    if(!on()) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return f(v, m); }
    enter e; pt("wait"); thread *t = S->ts[me]; unlock_model(m); t->mutex = m;
    if(S->spurious < S->o.spurious && S->c->choose(2)) { ++S->spurious; block(MUTEX, m); }
    else { S->waiting[v].push_back(me); block(COND, v); }
    auto &x = S->mutexes[m]; x.owner = me; acquire(x.c); return 0;
}
static int timed(pthread_cond_t *v, pthread_mutex_t *m)
{
    enter e; pt("timed wait"); thread *t = S->ts[me]; unlock_model(m); t->mutex = m; t->signalled = false; S->waiting[v].push_back(me); block(TIMED, v);
    auto &w = S->waiting[v]; w.erase(std::remove(w.begin(), w.end(), me), w.end()); bool s = t->signalled;
    if(S->mutexes[m].owner != -1) block(MUTEX, m);
    auto &x = S->mutexes[m]; x.owner = me; acquire(x.c); return s ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *v, pthread_mutex_t *m, const struct timespec *a)
{
    if(!on()) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait"); return f(v, m, a); }
    return timed(v, m);
}
int pthread_cond_clockwait(pthread_cond_t *v, pthread_mutex_t *m, clockid_t k, const struct timespec *a)
{
    if(!on()) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait"); return f(v, m, k, a); }
    return timed(v, m);
}
static void wake(void *v, size_t i)
{
    auto &w = S->waiting[v]; thread *t = S->ts[w[i]]; w.erase(w.begin() + i); t->signalled = true; if(t->st == COND) t->st = MUTEX;
}
int pthread_cond_signal(pthread_cond_t *v)
{
    if(!on()) { static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); return f(v); }
    enter e; pt("notify"); auto &w = S->waiting[v]; if(!w.empty()) wake(v, w.size() > 1 ? S->c->choose(w.size()) : 0); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *v)
{
    if(!on()) { static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); return f(v); }
    enter e; pt("notify all"); while(!S->waiting[v].empty()) wake(v, 0); return 0;
}
int pthread_cond_destroy(pthread_cond_t *v)
{
    if(on()) { enter e; if(!S->waiting[v].empty()) fatal("destroy", "a condition variable is destroyed while a thread waits on it", false); S->waiting.erase(v); }
    return 0;
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    static auto g = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if(!on()) return g(p, a, f, arg);
    enter e; int id = S->ts.size(); clk start = 1;
    // the number of a thread is taken over when all it did is known to have happened before
    for(auto *u: S->ts) if(u->id && u->joined && S->ts[me]->c.v[u->id] >= u->c.v[u->id]) { id = u->id; start = u->c.v[id] + 1; break; }
    if(id >= MAXT) { fatal("threads", "too many threads", false); }
    thread *t = new thread; t->id = id; t->f = f; t->arg = arg; t->c = S->ts[me]->c; t->c.v[id] = start; tick();
    if(idle_of != getpid()) { idle.clear(); idle_of = getpid(); }
    if(idle.empty()) { carrier *k = new carrier; if(int r = g(&k->real, nullptr, begin_carrier, k)) { delete k; delete t; return r; } idle.push_back(k); }
    t->on = idle.back(); idle.pop_back(); t->on->job = t;
    if(id < int(S->ts.size())) { delete S->ts[id]; S->ts[id] = t; } else S->ts.push_back(t);
    *p = t->on->real; S->ts[me]->creating = true; pt("create"); S->ts[me]->creating = false; return 0;
}
int pthread_join(pthread_t p, void **out)
{
    static auto g = real<int (*)(pthread_t, void **)>("pthread_join");
    if(!on()) return g(p, out);
    enter e; int n = -1; for(auto *t: S->ts) if(t->id && !t->joined && pthread_equal(t->on->real, p)) n = t->id;
    if(n < 0) { fatal("join", "a thread is joined that does not exist", false); }
    pt("join"); S->ts[me]->joining = n; if(S->ts[n]->st != DONE) block(JOIN, nullptr);
    acquire(S->ts[n]->c); S->ts[n]->joined = true; idle.push_back(S->ts[n]->on); if(out) *out = nullptr; return 0;
}
int pthread_detach(pthread_t p)
{
    static auto g = real<int (*)(pthread_t)>("pthread_detach");
    if(!on()) return g(p);
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)())
{
    static auto g = real<int (*)(pthread_once_t *, void (*)())>("pthread_once");
    if(!S || me < 0) return g(o, f);
    once_state *x; { enter e; x = &S->onces[o]; if(x->st == 2 || (x->st == 0 && *o == 2)) { acquire(x->c); return 0; }
        if(!(inside > 1)) { pt("once"); x = &S->onces[o]; if(x->st == 1) block(ONCE, o); if(x->st == 2) { acquire(x->c); return 0; } }
        x->st = 1; x->by = me; }
    try { f(); } catch(...) { x->st = 0; throw; }
    { enter e; x = &S->onces[o]; x->st = 2; x->c.join(S->ts[me]->c); tick(); *o = 2; }
    return 0;
}
int get_nprocs() { if(S && me >= 0) return S->o.processors; static auto f = real<int (*)()>("get_nprocs"); return f(); }
int sched_yield() { if(on()) { enter e; pt("yield"); } return 0; }

void *__cxa_allocate_exception(size_t n) noexcept
{
    static auto f = real<void *(*)(size_t)>("__cxa_allocate_exception"); void *p = f(n);
    if(S && me >= 0) { enter e; forget(p, n); thrown_objects.push_back({uintptr_t(p), uintptr_t(p) + n}); }
    return p;
}
// futexes used by libstdc++ (futures, static initialisation)
long syscall(long n, ...)
{
    va_list l; va_start(l, n); long a[6]; for(auto &x: a) x = va_arg(l, long); va_end(l);
    if(n == SYS_futex && on()) {
        enter e; int op = int(a[1]) & 127; int *w = (int *)a[0];
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            pt("futex wait"); if(*(volatile int *)w != int(a[2])) { errno = EAGAIN; return -1; }
            S->waiting[w].push_back(me); block(FUTEX, w); acquire(S->atoms[w].c); return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            pt("futex wake"); auto &q = S->waiting[w]; int k = 0; while(!q.empty() && k < int(a[2])) { S->ts[q[0]]->st = RUN; q.erase(q.begin()); ++k; } return k;
        }
    }
    register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5]; long r;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if(r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

// ---- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { access(uintptr_t(a), n, false, PC); } void __tsan_write##n(void *a) { access(uintptr_t(a), n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { access(uintptr_t(a), n, false, PC); } void __tsan_unaligned_write##n(void *a) { access(uintptr_t(a), n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { access(uintptr_t(a), n, false, PC); } void __tsan_volatile_write##n(void *a) { access(uintptr_t(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { access(uintptr_t(a), n, false, PC); }
void __tsan_write_range(void *a, long n) { access(uintptr_t(a), n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { if(*a != v) access(uintptr_t(a), 8, true, PC); }
void __tsan_vptr_read(void **a) { access(uintptr_t(a), 8, false, PC); }

#define ACQ(o) ((o) == __ATOMIC_ACQUIRE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST || (o) == __ATOMIC_CONSUME)
#define REL(o) ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)
static void before(const char *what, bool visible) { if(visible) { enter e; pt(what); } }
static void effect(void *a, int o, bool load, bool store, bool keep)
{
    enter e; auto &x = S->atoms[a];
    if(load && ACQ(o)) acquire(x.c);
    if(store) { if(REL(o)) { if(keep) x.c.join(S->ts[me]->c); else x.c = S->ts[me]->c; tick(); } else if(!keep) x.c = vc(); }
}
// reference counts (acquire-release or relaxed additions) commute, so their order is not explored
#define COUNTS(o) ((o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_RELAXED)
#define ATOMICS(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int o) { bool k = on() && !ignore; if(k) before("load", true); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, false, true); return r; } \
void __tsan_atomic##b##_store(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("store", true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, false, true, false); } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("exchange", true); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("fetch_add", !COUNTS(o)); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("fetch_sub", !COUNTS(o)); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("fetch_and", true); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("fetch_or", true); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("fetch_xor", true); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int o) { bool k = on() && !ignore; if(k) before("fetch_nand", true); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); if(k) effect((void *)a, o, true, true, true); return r; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int fo) { bool k = on() && !ignore; if(k) before("compare_exchange", true); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if(k) effect((void *)a, r ? o : fo, true, r, true); return r; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int fo) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, o, fo); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int o, int fo) { T x = e; __tsan_atomic##b##_compare_exchange_strong(a, &x, v, o, fo); return x; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if(on() && !ignore) { enter e; pt("fence"); } }
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(uintptr_t(s), n, false, PC); access(uintptr_t(d), n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(uintptr_t(s), n, false, PC); access(uintptr_t(d), n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { access(uintptr_t(d), n, true, PC); return __real_memset(d, v, n); }
}

// memory that is given back and reused carries no history; giving it back counts as writing it
static void *take(size_t n) { void *p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); if(S && me >= 0 && !ignore) { ++ignore; forget(p, malloc_usable_size(p)); --ignore; } return p; }
static void give(void *p, void *pc) { if(p && S && me >= 0 && !ignore) { size_t n = malloc_usable_size(p); access(uintptr_t(p), std::min<size_t>(n, 1024), true, pc); ++ignore; forget(p, n); --ignore; } free(p); }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void operator delete(void *p) noexcept { give(p, PC); }
void operator delete[](void *p) noexcept { give(p, PC); }
void operator delete(void *p, size_t) noexcept { give(p, PC); }
void operator delete[](void *p, size_t) noexcept { give(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p, PC); }
