// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/simulation/model.hpp>
using esl::simulation::time_point; using esl::simulation::time_interval; using esl::simulation::parameter::parametrization; using esl::identity;

struct counting : public esl::computation::environment
{
    size_t activated = 0, deactivated = 0, calls = 0, before = 0, after = 0, after_runs = 0;
    size_t activate() override { size_t n = environment::activate(); activated += n; ++calls; return n; }
    size_t deactivate() override { size_t n = environment::deactivate(); deactivated += n; return n; }
    void before_step() override { ++before; environment::before_step(); }
    void after_step(esl::simulation::model &m) override { ++after; environment::after_step(m); }
    void after_run(esl::simulation::model &m) override { ++after_runs; environment::after_run(m); }
};
struct plan { int wake; int create; bool leave; };   // wake 0: the end, 1: next instant, 2: in two, 3: now
struct world;
struct actor : public esl::agent { world *w; actor(const identity<actor> &i, world *w) : agent(i), w(w) {} time_point act(time_interval step, std::seed_seq &seed) override; };
struct world : public esl::simulation::model
{
    mc::ctx &c; std::vector<std::string> log; int budget, initial; bool removal; int pattern = -1; std::map<identity<esl::agent>, int> turns; size_t most = 50; size_t created = 0, removed = 0, steps = 0, starts = 0, ends = 0; time_point last = 0; std::set<identity<esl::agent>> acted;
    counting &e;
    world(mc::ctx &c, counting &e, const parametrization &p, int budget, int initial, bool removal) : model(e, p), c(c), budget(budget), initial(initial), removal(removal), e(e) {}
    void spawn() { this->template create<actor>(this); ++created; }
    void initialize() override { MC_CHECK(c, starts == 0 && steps == 0 && ends == 0, "initialise", "initialised after " << steps << " steps"); ++starts; MC_LOG(c, "initialise"); for(int i = 0; i < initial; ++i) spawn(); }
    time_point step(time_interval s) override
    {
        MC_CHECK(c, starts == 1 && ends == 0, "initialise", "a step outside of the run"); MC_LOG(c, "step " << s);
        MC_CHECK(c, s.lower >= start && s.lower < end && s.upper == end, "interval", "step over " << s);
        MC_CHECK(c, steps == 0 ? s.lower == start : s.lower > last, "time", "step at " << s.lower << " after " << last);
        MC_CHECK(c, steps < most, "endless", "the run does not end");
        ++steps; last = s.lower; acted.clear(); time_point t = model::step(s); MC_LOG(c, "  next " << t);
        MC_CHECK(c, t <= end && t > s.lower, "time", "next event at " << t); MC_CHECK(c, time == s.lower, "current time", "the current time is " << time << " in the step at " << s.lower);
        return t;
    }
    void terminate() override { MC_CHECK(c, starts == 1 && ends == 0 && steps > 0, "terminate", "terminated twice or too early"); ++ends; MC_LOG(c, "terminate"); }
};
time_point actor::act(time_interval s, std::seed_seq &)
{
    auto &c = w->c; c.op();
    if(w->pattern >= 0) { uint64_t own = identifier.digits.back(); int k = w->turns[identifier]++; if(w->pattern == 2 && k == 1 && own % 3 == 0) { auto me = w->agents[identifier]; w->agents.deactivate(me); ++w->removed; return s.upper; } if(w->pattern == 3 && k % 4 == 0 && own % 5 == 0 && w->created < 300) w->spawn();
        return std::min<time_point>(s.upper, s.lower + (w->pattern == 0 ? 1 : 1 + (own * 3 + k) % 7)); }
    if(w->budget-- <= 0) return s.upper;
    int wake = c.choose(4), n = c.choose(w->removal ? 4 : 2);
    MC_LOG(c, "  " << identifier << " acts at " << s.lower << ": " << wake << ' ' << n);
    if(n & 1) { if(w->agents.local_agents_.size() < 4) w->spawn(); }
    if(n & 2) { auto me = w->agents[identifier]; if(me) { w->agents.deactivate(me); ++w->removed; } }
    return wake == 0 ? s.upper : wake == 3 ? s.lower : s.lower + wake;
}
struct quiet { std::ostringstream sink; std::streambuf *a; quiet() : a(std::cout.rdbuf(sink.rdbuf())) {} ~quiet() { std::cout.rdbuf(a); } };

static void check_lists(mc::ctx &c, counting &e, world &w)
{
    MC_CHECK(c, e.activated == w.created, "activation", e.activated << " activations for " << w.created << " agents");
    MC_CHECK(c, e.deactivated == w.removed, "deactivation", e.deactivated << " deactivations for " << w.removed << " removed agents");
    size_t a = e.activated, d = e.deactivated;
    MC_CHECK(c, e.activate() == 0 && e.deactivate() == 0 && a == e.activated && d == e.deactivated, "pending", "agents are accounted for again");
}
static void run(mc::ctx &c, int budget, int initial, bool removal, int horizon, unsigned threads)
{
    time_point start = c.choose(2) * 9; counting e; world w(c, e, parametrization(0, start, start + horizon, c.choose(2), threads), budget, initial, removal);
    { quiet q; e.run(w); }
    MC_CHECK(c, w.starts == 1 && w.ends == 1 && w.steps > 0, "once", w.starts << " initialisations and " << w.ends << " terminations");
    MC_CHECK(c, e.before == w.steps && e.after == w.steps && e.after_runs == 1, "hooks", e.before << " and " << e.after << " calls around " << w.steps << " steps");
    MC_CHECK(c, w.time == w.end, "current time", "the run ends at " << w.time);
    check_lists(c, e, w); c.state(MC_STR(w.steps << ' ' << w.created << ' ' << w.removed << ' ' << w.last));
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C05");
    r.scope("runs without agents", [=](mc::ctx &c) { run(c, 0, 0, false, 1 + c.choose(5), 1); });
    r.scope("runs of one agent", [=](mc::ctx &c) { run(c, r.bound(6, 8), 1, false, 5, 1); });
    r.scope("runs of two agents", [=](mc::ctx &c) { run(c, r.bound(6, 8), 2, false, 4, 1); });
    r.scope("runs in which agents come and go", [=](mc::ctx &c) { run(c, r.bound(4, 5), 2, true, 4, 1); });
    r.scope("long runs of many agents", [=](mc::ctx &c) {
        int n = c.pick(std::vector<int>{1, 3, 4, 5, 9, 17, 33, 65}), h = c.pick(std::vector<int>{10, 60, 130, 300}); counting e; time_point start = c.choose(2) * ((1ull << 40) + 1); world w(c, e, parametrization(0, start, start + h, 0, 1), 0, n, false); w.pattern = c.choose(4); w.most = 100000; if(n * h > 6000) return;
        { quiet q; e.run(w); } MC_CHECK(c, w.starts == 1 && w.ends == 1 && e.before == w.steps && e.after == w.steps && e.after_runs == 1 && w.time == w.end, "once", w.starts << " initialisations and " << w.ends << " terminations, " << w.steps << " steps to " << w.time);
        if(w.pattern == 0) MC_CHECK(c, int(w.steps) == h, "steps", w.steps << " steps"); check_lists(c, e, w); c.state(MC_STR(n << ' ' << h << ' ' << w.pattern << ' ' << w.steps << ' ' << w.created << ' ' << w.removed));
    });
    r.scope("stepping by hand", [=](mc::ctx &c) {
        counting e; world w(c, e, parametrization(0, 3, 3 + 4), r.bound(4, 5), 2, true); w.initialize(); MC_CHECK(c, w.time == 3, "current time", "before the run");
        size_t activated = 0; (void)activated; bool own = c.flip();
        for(int k = 0; k < 20 && w.time < w.end; ++k) {
            time_point before = w.time;
            if(own) { w.time = w.model::step(); MC_CHECK(c, w.time > before && w.time <= w.end, "time", "from " << before << " to " << w.time); continue; }
            e.step(w); check_lists(c, e, w); MC_CHECK(c, w.time > before && w.time <= w.end, "time", "from " << before << " to " << w.time); }
        MC_CHECK(c, w.time == w.end, "time", "the run stops at " << w.time);
        if(!own) { size_t s = w.steps; e.step(w); MC_CHECK(c, w.steps == s && w.time == w.end, "time", "a step after the end"); }
        c.state(MC_STR("by hand " << w.steps << ' ' << w.created << ' ' << w.removed));
    });
    r.scope("parameters", [=](mc::ctx &c) {
        std::vector<uint64_t> v{0, 1, 2, 7, 1ull << 33, ~0ull}; uint64_t sample = c.pick(v), start = c.pick(v), end = c.pick(v), verbosity = c.pick(v); unsigned threads = c.choose(6) * 3; c.op();
        parametrization p(sample, start, end, verbosity, threads); c.state(MC_STR(sample << ' ' << start << ' ' << end << ' ' << verbosity << ' ' << threads));
        MC_CHECK(c, p.get<uint64_t>("sample") == sample && p.get<time_point>("start") == start && p.get<time_point>("end") == end && p.get<uint64_t>("verbosity") == verbosity && p.get<uint64_t>("threads") == threads, "parameters", sample << ' ' << start << ' ' << end << ' ' << verbosity << ' ' << threads);
        bool missing = false, mistyped = false; try { p.get<uint64_t>("none"); } catch(const std::out_of_range &) { missing = true; } try { p.get<double>("start"); } catch(const std::out_of_range &) { mistyped = true; }
        MC_CHECK(c, missing && mistyped, "parameters", "a parameter that does not exist, or of another type, is returned");
        esl::computation::environment e; esl::simulation::model m(e, p);
        MC_CHECK(c, m.sample == sample && m.start == start && m.end == end && m.time == start && m.verbosity == verbosity && m.threads == std::max(1u, threads), "parameters", "model with " << m.sample << ' ' << m.start << ' ' << m.end << ' ' << m.verbosity << ' ' << m.threads);
        parametrization q(p); MC_CHECK(c, q.get<uint64_t>("sample") == sample && q.get<uint64_t>("threads") == threads, "parameters", "copy");
    });
    return r.finish();
}
