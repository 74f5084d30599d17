// mc-sources:
// mc-instrument: thread
// mc-extra: mc/sched.cpp
// mc-libs: -ldl -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset
// C06: every interleaving (up to the preemption bound) of the submitters, the workers and the destructor of one real
// thread_pool, for all short sequences of submissions.
#include <thread>
#include <esl/computation/thread_pool.hpp>
#include <sched.hpp>
#include <memory>

enum kind { WORK, TASK, THROWING, VOID_TASK, NESTED, NESTED_TASK };
static const char *kinds[] = {"work", "task", "throwing task", "task without result", "work that submits work", "task that submits a task"};
struct problem: std::runtime_error { int id; problem(int id): std::runtime_error("task"), id(id) {} };

struct item
{
    kind k; int id; int runs = 0; int arg = -1; int by = -1; bool after_destruction = false;
    int input = 0, output = 0;          // ordinary memory shared by the submitter and the task, not hidden from the race check
    std::future<int> f; std::future<void> fv; std::unique_ptr<item> inner;
};

struct world
{
    mc::ctx &c; std::vector<std::unique_ptr<item>> items; bool alive = true; int workers = 0;
    explicit world(mc::ctx &c): c(c) {}

    void ran(item *i, int arg)
    {
        SCHED_CHECK(c, i->input == 1000 + i->id, "lost-write", "a task does not see what was written before it was submitted");
        i->output = 2000 + i->id;
        sched::quiet q; ++i->runs; i->arg = arg; i->by = sched::self(); if(!alive) i->after_destruction = true;
        if(c.verbose) c.log_ << "[" << sched::self() << "] runs " << i->id << "\n";
    }
    void submit(esl::computation::thread_pool &p, item *i)
    {
        SCHED_LOG(c, "submits " << kinds[i->k] << " " << i->id);
        i->input = 1000 + i->id; int id = i->id; world *w = this;
        switch(i->k) {
        case WORK: p.enqueue_work([w, i](int a, const std::string &s) { w->ran(i, s == "text" ? a : -5); }, id, std::string("text")); break;
        case TASK: i->f = p.enqueue_task([w, i](int a, std::string s) { w->ran(i, s == "text" ? a : -5); return a * 3; }, id, std::string("text")); break;
        case THROWING: i->f = p.enqueue_task([w, i](int a) -> int { w->ran(i, a); throw problem(a); }, id); break;
        case VOID_TASK: i->fv = p.enqueue_task([w, i] { w->ran(i, i->id); }); break;
        case NESTED: p.enqueue_work([w, i, &p](int a) { w->ran(i, a); w->submit(p, i->inner.get()); }, id); break;
        case NESTED_TASK: i->f = p.enqueue_task([w, i, &p](int a) { w->ran(i, a); w->submit(p, i->inner.get()); return a * 3; }, id); break;
        }
    }
    item *make(kind k)
    {
        items.emplace_back(new item); item *i = items.back().get(); i->k = k; i->id = items.size();
        if(k == NESTED || k == NESTED_TASK) { i->inner.reset(new item); i->inner->k = k == NESTED ? WORK : TASK; i->inner->id = 100 + i->id; }
        return i;
    }
    // wait for the result
    void result(item *i)
    {
        std::string got;
        if(i->k == TASK || i->k == THROWING || i->k == NESTED_TASK) {
            SCHED_CHECK(c, i->f.valid(), "future", "no future");
            try { int v = i->f.get(); got = std::to_string(v); } catch(const problem &p) { got = "problem " + std::to_string(p.id); } catch(const std::future_error &e) { got = e.what(); }
            std::string want = i->k == THROWING ? "problem " + std::to_string(i->id) : std::to_string(3 * i->id);
            SCHED_CHECK(c, got == want, "result", kinds[i->k] << " " << i->id << " gives " << got << " instead of " << want);
        } else if(i->k == VOID_TASK) {
            try { i->fv.get(); got = "done"; } catch(const std::future_error &e) { got = e.what(); }
            SCHED_CHECK(c, got == "done", "result", "a task without a result gives " << got);
        } else return;
        SCHED_CHECK(c, i->output == 2000 + i->id, "lost-write", "what a task wrote is not seen by whoever has its result");
    }
    void final(item *i)
    {
        SCHED_CHECK(c, i->runs == 1, i->runs ? "ran-twice" : "lost", kinds[i->k] << " " << i->id << " ran " << i->runs << " times");
        SCHED_CHECK(c, i->arg == i->id, "arguments", kinds[i->k] << " " << i->id << " was given " << i->arg);
        SCHED_CHECK(c, !i->after_destruction, "after-destruction", kinds[i->k] << " " << i->id << " ran after the pool was gone");
        SCHED_CHECK(c, i->by > 0, "not-a-worker", kinds[i->k] << " " << i->id << " ran on thread " << i->by);
        SCHED_CHECK(c, i->output == 2000 + i->id, "lost-write", "what a task wrote is not seen once the pool is gone");
        if(i->inner) final(i->inner.get());
    }
};

static void drive(mc::ctx &c, unsigned size, const std::vector<std::vector<kind>> &scripts, int wait, sched::options o)
{
    world w(c); std::vector<std::vector<item *>> mine;
    for(auto &s: scripts) { mine.emplace_back(); for(kind k: s) mine.back().push_back(w.make(k)); }
    sched::run(c, o, [&] {
        {
            esl::computation::thread_pool p(size);
            unsigned want = size ? size : std::max(1, o.processors);
            SCHED_CHECK(c, p.threads == want, "threads", "a pool of " << size << " on " << o.processors << " processors has " << p.threads << " threads");
            SCHED_LOG(c, "the pool is there");
            std::vector<std::thread> others;
            for(size_t t = 1; t < mine.size(); ++t) others.emplace_back([&, t] { for(auto *i: mine[t]) { w.submit(p, i); if(wait == 2) w.result(i); } });
            for(auto *i: mine[0]) { w.submit(p, i); if(wait == 2) w.result(i); }
            for(auto &t: others) t.join();
            if(wait == 1) for(auto &v: mine) for(auto *i: v) w.result(i);
            SCHED_LOG(c, "the pool is destroyed");
        }
        w.alive = false;
        SCHED_LOG(c, "the pool is gone");
        for(auto &i: w.items) w.final(i.get());
        if(wait == 0) for(auto &v: mine) for(auto *i: v) w.result(i);
        for(auto &i: w.items) if(i->inner && i->inner->k == TASK) w.result(i->inner.get());
    });
    std::ostringstream s; s << size << wait; for(auto &i: w.items) { s << i->k << i->by; if(i->inner) s << i->inner->by; } c.state(s.str());
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C06"); r.warmup = true; r.pin = true;
    typedef std::vector<kind> ks;
    const ks all = {WORK, TASK, THROWING, VOID_TASK, NESTED, NESTED_TASK};
    auto opt = [](int p) { sched::options o; o.preemptions = p; return o; };

    r.scope("sizes", [=](mc::ctx &c) {
        sched::options o = opt(0); o.processors = c.choose(4); unsigned size = c.choose(4); ks s;
        for(int n = c.choose(4); n; --n) s.push_back(TASK);
        drive(c, size, {s}, 0, o);
    });
    r.scope("one worker, one item", [=](mc::ctx &c) {
        kind k = c.pick(all); drive(c, 1, {{k}}, c.choose(2), opt(r.bound(3, 5)));
    });
    r.scope("one worker, two items", [=](mc::ctx &c) {
        kind a = c.pick(all), b = c.pick(all); drive(c, 1, {{a, b}}, c.choose(3), opt(r.bound(1, 2)));
    });
    r.scope("two workers, one item", [=](mc::ctx &c) {
        kind a = c.pick(all); drive(c, 2, {{a}}, c.choose(2), opt(r.bound(1, 2)));
    });
    r.scope("two workers, two items", [=](mc::ctx &c) {
        ks a = {c.pick(r.thorough() ? all : ks{WORK, TASK, NESTED}), c.pick(r.thorough() ? all : ks{WORK, TASK})}; drive(c, 2, {a}, c.choose(2), opt(r.bound(1, 2)));
    });
    r.scope("two workers, three items", [=](mc::ctx &c) {
        ks a = {c.pick(ks{WORK, NESTED}), c.pick(ks{WORK, TASK}), WORK}; drive(c, 2, {a}, 0, opt(r.bound(1, 2)));
    });
    r.scope("three workers, two items", [=](mc::ctx &c) {
        ks a = {c.pick(ks{WORK, NESTED}), c.pick(ks{WORK, TASK})}; drive(c, 3, {a}, c.choose(2), opt(r.bound(0, 1)));
    });
    r.scope("three workers, three items", [=](mc::ctx &c) {
        sched::options o = opt(r.bound(1, 2)); o.any_start = false;
        drive(c, 3, {{WORK, WORK, c.pick(ks{WORK, NESTED})}}, 0, o);
    });
    r.scope("two submitters", [=](mc::ctx &c) {
        unsigned size = 1 + c.choose(2); ks a = {c.pick(ks{WORK, TASK})}, b = {c.pick(ks{WORK, TASK})};
        drive(c, size, {a, b}, c.choose(2), opt(r.bound(1, size == 1 ? 3 : 1)));
    });
    r.scope("many items in regular patterns", [=](mc::ctx &c) {
        int n = c.pick(r.thorough() ? std::vector<int>{4, 5, 8, 9, 16, 17, 33, 65, 130, 260} : std::vector<int>{4, 5, 9, 17, 33, 65}); int p = c.choose(4); ks a; for(int i = 0; i < n; ++i) a.push_back(p == 0 ? WORK : p == 1 ? all[i % 4] : p == 2 ? all[i % 6] : TASK);
        sched::options o = opt(0); o.any_start = false; drive(c, 1, {a}, c.choose(3), o);
    });
    r.scope("no items", [=](mc::ctx &c) { unsigned size = 1 + c.choose(3); drive(c, size, {{}}, 0, opt(size < 3 ? r.bound(2, 4) : r.bound(0, 2))); });
    return r.finish();
}
