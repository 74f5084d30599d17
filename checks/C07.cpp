// mc-sources:
// mc-instrument: thread
// mc-extra: mc/sched.cpp
// mc-libs: -ldl -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset
// C07: every interleaving (up to the preemption bound) of threads using one real blocking_queue; every history is checked
// against a sequential FIFO with a closed flag by trying all linearisations.
#include <esl/computation/blocking_queue.hpp>
#include <sched.hpp>
#include <deque>
#include <memory>
#include <thread>

enum kind { PUSH, PUSHM, TRYPUSH, TRYPUSHM, POP, TRYPOP, SIZE, EMPTY, CLOSE, OFFER /* try_push, and push when that fails */ };
static const char *kinds[] = {"push(copy)", "push(move)", "try_push(copy)", "try_push(move)", "pop", "try_pop", "size", "empty", "close"};
struct event { kind k; int thread, from, to, arg; bool ok; int value; };

// an element whose copies are counted and whose moved-from state is visible
struct element
{
    int v = -1;
    element() = default;
    explicit element(int v): v(v) {}
    element(const element &o) = default; element(element &&o) noexcept: v(o.v) { o.v = -2; }
    element &operator=(const element &o) = default; element &operator=(element &&o) noexcept { v = o.v; o.v = -2; return *this; }
};

struct history
{
    std::vector<event> h; int now = 0;
    static bool overlaps(const event &a, const event &b) { return a.from < b.to && b.from < a.to; }
    bool busy(size_t i) const { for(size_t j = 0; j < h.size(); ++j) if(j != i && overlaps(h[i], h[j])) return true; return false; }

    bool linearise(std::vector<char> &used, size_t n, std::vector<int> &q, bool closed) const
    {
        if(n == h.size()) return true;
        int first = 1 << 30;
        for(size_t i = 0; i < h.size(); ++i) if(!used[i]) first = std::min(first, h[i].to);
        for(size_t i = 0; i < h.size(); ++i) {
            const event &e = h[i];
            if(used[i] || e.from > first) continue;
            bool can = false; std::vector<int> q2 = q; bool c2 = closed;
            switch(e.k) {
            case PUSH: case PUSHM: q2.push_back(e.arg); can = true; break;
            case TRYPUSH: case TRYPUSHM: if(e.ok) { q2.push_back(e.arg); can = true; } else can = busy(i); break;
            case POP: if(e.ok) { can = !q.empty() && q[0] == e.value; if(can) q2.erase(q2.begin()); } else can = q.empty() && closed; break;
            case TRYPOP: if(e.ok) { can = !q.empty() && q[0] == e.value; if(can) q2.erase(q2.begin()); } else can = q.empty() || busy(i); break;
            case SIZE: can = int(q.size()) == e.value; break;
            case EMPTY: can = q.empty() == e.ok; break;
            case CLOSE: c2 = true; can = true; break;
            }
            if(!can) continue;
            used[i] = 1; bool r = linearise(used, n + 1, q2, c2); used[i] = 0;
            if(r) return true;
        }
        return false;
    }
    bool fifo() const { std::vector<char> u(h.size(), 0); std::vector<int> q; return linearise(u, 0, q, false); }
    std::string text() const
    {
        std::ostringstream s;
        for(auto &e: h) {
            s << " [" << e.thread << " " << e.from << "-" << e.to << " " << kinds[e.k];
            if(e.k < POP) s << " " << e.arg; if(e.k == SIZE) s << " = " << e.value; else s << " -> " << (e.ok ? "true" : "false");
            if((e.k == POP || e.k == TRYPOP) && e.ok) s << " " << e.value;
            s << "]";
        }
        return s.str();
    }
};

struct plan { std::vector<std::vector<kind>> scripts; std::vector<kind> before, after; bool close = false; };

static bool perform(mc::ctx &c, esl::computation::blocking_queue<element> &q, history &h, kind k, int arg)
{
    if(k == OFFER) { if(perform(c, q, h, arg & 1 ? TRYPUSH : TRYPUSHM, arg)) return true; k = PUSHM; }
    event e; e.k = k; e.thread = sched::self(); e.arg = arg; e.ok = false; e.value = -1;
    { sched::quiet s; e.from = h.now++; if(c.verbose) c.log_ << "[" << sched::self() << "] " << kinds[k] << " begins\n"; }
    element in(arg), out; 
    switch(k) {
    case PUSH: q.push(const_cast<const element &>(in)); e.ok = true; break;
    case PUSHM: q.push(std::move(in)); e.ok = true; break;
    case TRYPUSH: e.ok = q.try_push(const_cast<const element &>(in)); break;
    case TRYPUSHM: e.ok = q.try_push(std::move(in)); SCHED_CHECK(c, e.ok || in.v == arg, "side-effect", "a failed try_push took its argument"); break;
    case POP: e.ok = q.pop(out); e.value = out.v; break;
    case TRYPOP: e.ok = q.try_pop(out); e.value = out.v; break;
    case SIZE: e.value = q.size(); e.ok = true; break;
    case EMPTY: e.ok = q.empty(); break;
    case CLOSE: q.close(); e.ok = true; break;
    }
    sched::quiet s; e.to = h.now++;
    if(k == POP || k == TRYPOP) { ++c.checks; if(!e.ok && out.v != -1) sched::fail("side-effect", MC_STR("a failed " << kinds[k] << " changed the variable it was given")); }
    h.h.push_back(e);
    if(c.verbose) c.log_ << "[" << sched::self() << "] " << kinds[k] << " " << arg << " -> " << e.ok << " " << e.value << "\n";
    return e.ok;
}

static void drive(mc::ctx &c, const plan &p, sched::options o)
{
    history h; int left = 0;
    sched::run(c, o, [&] {
        auto q = std::make_unique<esl::computation::blocking_queue<element>>();
        int id = 1;
        for(kind k: p.before) perform(c, *q, h, k, id++);
        std::vector<std::thread> ts;
        for(size_t t = 0; t < p.scripts.size(); ++t) {
            ts.emplace_back([&, t] { int n = 0; for(kind k: p.scripts[t]) perform(c, *q, h, k, 100 * (t + 1) + n++); });
        }
        for(kind k: p.after) perform(c, *q, h, k, id++);
        for(auto &t: ts) t.join();
        while(perform(c, *q, h, TRYPOP, 0)) ++left;
        perform(c, *q, h, EMPTY, 0); perform(c, *q, h, SIZE, 0);
    });
    ++c.checks;
    if(!h.fifo()) c.fail("not-linearizable", "no order of the operations explains their results:" + h.text());
    std::ostringstream s; for(auto &e: h.h) s << e.thread << e.k << e.ok << e.value << ';'; c.state(s.str());
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C07"); r.warmup = true; r.pin = true;
    typedef std::vector<kind> ks;
    const ks all = {PUSH, PUSHM, TRYPUSH, TRYPUSHM, POP, TRYPOP, SIZE, EMPTY}, producing = {PUSH, OFFER}, consuming = {POP, TRYPOP};

    // any operations in two threads while the queue is closed at any moment: everything returns
    const ks some = r.thorough() ? all : ks{PUSHM, TRYPUSH, POP, TRYPOP, EMPTY};
    int ops = 2;
    r.scope("two threads, closed at any time", [=](mc::ctx &c) {
        plan p; p.scripts.resize(2);
        for(int k = c.choose(2); k; --k) p.before.push_back(PUSH);
        for(auto &s: p.scripts) for(int i = 0; i < ops; ++i) s.push_back(c.pick(some));
        if(p.scripts[1] < p.scripts[0]) return;        // the threads are interchangeable
        p.after.push_back(CLOSE);
        sched::options o; o.preemptions = r.bound(1, 2); drive(c, p, o);
    });
    r.scope("pop and close", [=](mc::ctx &c) {
        plan p; p.scripts.resize(2); for(int k = c.choose(2); k; --k) p.before.push_back(PUSH);
        for(auto &s: p.scripts) for(int i = 0; i < r.bound(1, 2); ++i) s.push_back(c.pick(ks{POP, TRYPOP, PUSH, OFFER}));
        if(p.scripts[1] < p.scripts[0]) return;
        p.after = {CLOSE};
        sched::options o; o.preemptions = 3; drive(c, p, o);
    });
    // three threads, one operation each, with more context switches
    r.scope("three threads, closed at any time", [=](mc::ctx &c) {
        plan p; p.scripts.resize(3);
        for(int k = c.choose(2); k; --k) p.before.push_back(PUSHM);
        for(auto &s: p.scripts) s.push_back(c.pick(r.thorough() ? all : ks{PUSH, OFFER, POP, TRYPOP, SIZE}));
        if(p.scripts[1] < p.scripts[0] || p.scripts[2] < p.scripts[1]) return;
        p.after.push_back(CLOSE);
        sched::options o; o.preemptions = r.bound(1, 2); drive(c, p, o);
    });
    // nobody closes: enough items are pushed for everyone, so nobody may be left waiting
    auto enough = [=](mc::ctx &c, size_t producers, size_t consumers, int n, sched::options o) {
        plan p; p.scripts.resize(producers + consumers); int need = 0;
        for(size_t t = 0; t < p.scripts.size(); ++t) for(int i = 0; i < n; ++i) {
            kind k = c.pick(t < producers ? producing : consuming); p.scripts[t].push_back(k);
            need += t < producers ? -1 : 1;
        }
        for(; need > 0; --need) p.after.push_back(need & 1 ? PUSH : PUSHM);
        drive(c, p, o);
    };
    r.scope("one producer, one consumer", [=](mc::ctx &c) { sched::options o; o.preemptions = r.bound(2, 4); enough(c, 1, 1, r.bound(2, 3), o); });
    r.scope("one producer, two consumers", [=](mc::ctx &c) { sched::options o; o.preemptions = r.bound(2, 2); enough(c, 1, 2, r.bound(1, 2), o); });
    r.scope("two consumers, pushed by the main thread", [=](mc::ctx &c) { sched::options o; o.preemptions = r.bound(2, 3); enough(c, 0, 2, 2, o); });
    r.scope("three consumers, pushed by the main thread", [=](mc::ctx &c) { sched::options o; o.preemptions = r.bound(1, 2); enough(c, 0, 3, 1, o); });
    r.scope("two producers, one consumer", [=](mc::ctx &c) { sched::options o; o.preemptions = r.bound(2, 3); enough(c, 2, 1, 1, o); });
    // condition variables may wake up for no reason
    r.scope("spurious wake-ups", [=](mc::ctx &c) {
        plan p; p.scripts = {{POP}, {c.pick(ks{POP, TRYPOP, PUSH})}};
        p.after = c.flip() ? ks{PUSH, CLOSE} : ks{CLOSE};
        sched::options o; o.preemptions = r.bound(2, 3); o.spurious = r.bound(1, 2); drive(c, p, o);
    });
    // closed first, then used
    r.scope("after closing", [=](mc::ctx &c) {
        plan p; p.scripts.resize(2); for(int k = c.choose(3); k; --k) p.before.push_back(PUSH);
        p.before.push_back(CLOSE);
        for(auto &s: p.scripts) for(int i = 0; i < 2; ++i) s.push_back(c.pick(consuming));
        sched::options o; o.preemptions = r.bound(2, 4); drive(c, p, o);
    });
    // one thread: every sequence of operations, and long ones
    auto alone = [](mc::ctx &c, int n, const std::function<kind(int, size_t, bool)> &next) {
        sched::options o; o.preemptions = 0; std::ostringstream st;
        sched::run(c, o, [&] {
            esl::computation::blocking_queue<element> q; std::deque<int> m; bool closed = false;
            for(int i = 1; i <= n; ++i) {
                kind k; { sched::quiet s; k = next(i, m.size(), closed); ++c.checks; if(c.verbose) c.log_ << kinds[k] << " " << i << "\n"; } element in(i), out; bool ok = true; size_t size = 0;
                switch(k) {
                case PUSH: q.push(const_cast<const element &>(in)); break; case PUSHM: q.push(std::move(in)); break;
                case TRYPUSH: ok = q.try_push(const_cast<const element &>(in)); break; case TRYPUSHM: ok = q.try_push(std::move(in)); break;
                case POP: ok = q.pop(out); break; case TRYPOP: ok = q.try_pop(out); break; case CLOSE: q.close(); break; default: break; }
                size = q.size(); bool empty = q.empty(); sched::quiet s;
                if(k <= TRYPUSHM) { if(ok) m.push_back(i); else sched::fail("push", "an element is refused"); }
                if(k == POP || k == TRYPOP) { if(ok != !m.empty()) sched::fail("pop", MC_STR(kinds[k] << (ok ? " succeeds" : " fails") << " with " << m.size() << " elements")); if(ok) { if(out.v != m.front()) sched::fail("order", MC_STR("got " << out.v << " instead of " << m.front())); m.pop_front(); } }
                if(k == CLOSE) closed = true;
                if(size != m.size() || empty != m.empty()) sched::fail("size", MC_STR("the size is " << size << " instead of " << m.size())); st << k << ok;
            }
        });
        c.state(st.str());
    };
    int len = r.bound(6, 7);
    r.scope(MC_STR("one thread: every sequence of " << len << " operations"), [=](mc::ctx &c) {
        alone(c, len, [&](int, size_t have, bool closed) { ks a{PUSH, TRYPOP, TRYPUSHM}; if(!closed) { a.push_back(PUSHM); a.push_back(CLOSE); a.push_back(TRYPUSH); } else a.push_back(CLOSE); if(have || closed) a.push_back(POP); return a[c.choose(a.size())]; });
    });
    r.scope("one thread: long histories in regular patterns", [=](mc::ctx &c) {
        int n = c.pick(std::vector<int>{10, 40, 70, 140, 300, 700}), p = 1 + c.choose(6), s = c.choose(3);
        alone(c, n, [&](int i, size_t have, bool) { if(i > n - 10 && have) return i % 2 ? POP : TRYPOP; if(p < 5) return i % (p + 1) == p && have ? (s ? POP : TRYPOP) : i % 3 == s ? PUSH : TRYPUSHM; return i / (p == 5 ? 9 : 33) % 2 ? (have ? POP : TRYPOP) : PUSHM; });
    });
    return r.finish();
}
