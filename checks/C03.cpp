// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
// mc-instrument: thread
// mc-extra: mc/sched.cpp
// mc-flags: -DSCHED_THREADS=12
// mc-libs: -ldl -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset
// C03: model::step on several threads: every interleaving (up to the preemption bound) of the threads of a round, for all
// small scripts of the agents, next to the run of the same model on one thread.
#include <thread>
#include "mc.hpp"
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/simulation/model.hpp>
#include <esl/interaction/message.hpp>
#include <sched.hpp>
#include <algorithm>
#include <memory>
using esl::identity; using esl::simulation::time_point; using esl::simulation::time_interval; using esl::simulation::parameter::parametrization;

struct note : public esl::interaction::message<note, (std::uint64_t(1) << 62) | 21> { int number; explicit note(int n = 0) : number(n) {} };
enum wakes { LATER, AGAIN, NEXT, AFTER, PAST, THROW };
static const char *wake_names[] = {"the end", "now", "the next time", "the time after", "the past", "never, it throws"};
struct move { int wake = LATER; std::vector<std::pair<int, int>> send; int population = 0; };     // recipients and delays; creates an agent, or leaves
typedef std::vector<std::vector<move>> script_t;                              // by agent and activation
struct problem : std::runtime_error { using std::runtime_error::runtime_error; };

struct actor : public esl::agent, public esl::identifiable_as<actor>
{
    int index = 0; const script_t *script = nullptr; const std::vector<identity<esl::agent>> *others = nullptr; size_t acts = 0; std::vector<std::string> *record = nullptr; bool eager = false; std::string heard; esl::simulation::model *model = nullptr; std::vector<std::shared_ptr<actor>> children; std::vector<std::string> own;
    explicit actor(const identity<actor> &i) : agent(i)
    {
        auto f = [this](std::shared_ptr<note> n, time_interval s, std::seed_seq &seed) { heard += " hears " + std::to_string(n->number) + " due " + std::to_string(n->received) + draws(seed); return eager ? std::min<time_point>(s.upper, s.lower + 1) : s.upper; };
        ESL_REGISTER_CALLBACK(note, 0, f, "note");
    }
    static std::string draws(std::seed_seq &s) { uint32_t x[2]; s.generate(x, x + 2); return " seed " + std::to_string(x[0]) + '.' + std::to_string(x[1]); }
    time_point act(time_interval s, std::seed_seq &seed) override
    {
        record->push_back(std::to_string(s.lower) + '-' + std::to_string(s.upper) + draws(seed) + heard); heard.clear();
        size_t k = acts++; auto &mine = (*script)[index]; if(k >= mine.size()) return s.upper;
        const move &m = mine[k]; int number = 100 * index + 10 * int(k);
        for(auto &[to, delay]: m.send) { auto x = create_message<note>((*others)[to], s.lower + delay, number++); x->sender = identifier; }
        if(m.population == 1) { auto x = model->agents.template create<actor>(*this); x->index = index; x->script = script; x->others = others; x->record = &x->own; x->acts = 99; x->model = model; children.push_back(x); }
        if(m.population == 2) model->agents.deactivate(model->agents[identifier]);
        switch(m.wake) { case AGAIN: return s.lower; case NEXT: return s.lower + 1; case AFTER: return s.lower + 2; case PAST: return s.lower - 1; case THROW: throw problem("agent " + std::to_string(index)); default: return s.upper; }
    }
};
// counts the rounds; switches between threads are explored within one round, or within all when there is none in particular
struct rounds : public esl::computation::environment
{
    int done = 0, window = -1; void open() { if(window >= 0) sched::order(done == window ? 0 : 1); }
    size_t send_messages(esl::simulation::model &m) override { size_t n = environment::send_messages(m); ++done; open(); return n; }
};
struct setting { uint64_t threads = 1, sample = 5; time_point start = 3, end = 7; bool partial = false, eager = false; };

// everything that can be observed of a run
static std::string play(const script_t &script, const setting &s, int *count = nullptr, int window = -1)
{
    std::string result; size_t n = script.size(); std::vector<std::vector<std::string>> records(n);
    rounds e; e.window = window; if(!count) e.open(); esl::simulation::model m(e, parametrization(s.sample, s.start, s.end, 0, s.threads)); std::vector<identity<esl::agent>> ids; std::vector<std::shared_ptr<actor>> actors;
    for(size_t i = 0; i < n; ++i) { auto a = m.template create<actor>(); a->index = i; a->script = &script; a->others = &ids; a->record = &records[i]; a->eager = s.eager; a->model = &m; actors.push_back(a); ids.push_back(a->identifier); }
    time_point t = s.start; std::string error;
    while(t < s.end && error.empty()) {
        try { time_point u = s.partial ? std::min(s.end, t + 2) : s.end; time_point r = m.step({t, u}); result += "step " + std::to_string(t) + ' ' + std::to_string(u) + " returns " + std::to_string(r) + ", " + std::to_string(m.messages_sent) + " messages\n"; if(r <= t) error = "no progress"; t = r; }
        catch(const mc::violation &) { throw; } catch(const std::exception &x) { ++e.done; error = x.what(); if(error.empty()) error = "?"; result += "error: " + error + '\n'; }
    }
    if(count) *count = e.done;
    if(!error.empty()) return result;    // which of the other agents got to act before the error is not specified
    for(size_t i = 0; i < n; ++i) { result += std::to_string(i) + ":\n"; for(auto &x: actors[i]->children) { result += "  child " + x->identifier.representation() + '\n'; for(auto &y: x->own) result += "    " + y + '\n'; } for(auto &x: records[i]) result += "  " + x + '\n'; result += "  remaining:"; for(auto &[k, x]: actors[i]->inbox) result += ' ' + std::to_string(k) + '#' + std::to_string(std::dynamic_pointer_cast<note>(x)->number); for(auto &x: actors[i]->outbox) result += " unsent " + std::to_string(std::dynamic_pointer_cast<note>(x)->number); auto w = m.wake_up_times.find(ids[i]); result += w == m.wake_up_times.end() ? "\n" : " wakes " + std::to_string(w->second) + '\n'; }
    return result;
}
static void compare(mc::ctx &c, const script_t &script, setting s, const sched::options &o, bool by_round = true)
{
    setting one = s; one.threads = 1; int n = 0; std::string want = play(script, one, &n), got; int window = by_round ? c.choose(n) : -1;
    if(c.verbose) { for(size_t i = 0; i < script.size(); ++i) for(auto &m: script[i]) { std::string t; for(auto &[to, d]: m.send) t += ", message to " + std::to_string(to) + " in " + std::to_string(d); MC_LOG(c, "agent " << i << " wakes at " << wake_names[m.wake] << t); } MC_LOG(c, s.threads << " threads, switches in round " << window << " of " << n << "\n" << want); }
    sched::run(c, o, [&] { std::string r = play(script, s, nullptr, window); sched::quiet q; got = r; });
    if(c.verbose) MC_LOG(c, got);
    size_t at = 0; if(want != got) while(at < want.size() && at < got.size() && want[at] == got[at]) ++at;
    MC_CHECK(c, want == got, "differs", script.size() << " agents on " << s.threads << " threads, unlike on one: \"" << got.substr(at > 80 ? at - 80 : 0, 200) << "\" instead of \"" << want.substr(at > 80 ? at - 80 : 0, 200) << '"');
    c.state(MC_STR(s.threads << want));
}

struct choices { int wakes = 3, sends = 3; bool errors = false; };
static script_t any(mc::ctx &c, int agents, int acts, choices o)
{
    script_t s(agents);
    for(int i = 0; i < agents; ++i) for(int k = 0; k < acts; ++k) {
        move m; m.wake = o.errors ? (int[]){LATER, AGAIN, PAST, THROW}[c.choose(4)] : c.choose(o.wakes);
        if(o.sends && agents > 1) switch(c.choose(o.sends)) { case 0: break; case 1: m.send = {{(i + 1) % agents, 0}}; break; case 2: m.send = {{(i + 1) % agents, 1}, {i, 1}}; break; case 3: for(int j = 0; j < agents; ++j) m.send.push_back({j, j == 0}); break; }
        s[i].push_back(m);
    }
    return s;
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C03"); r.warmup = true; r.pin = true;
    auto opt = [](int p, bool any_start = true) { sched::options o; o.preemptions = p; o.any_start = any_start; return o; };

    r.scope("numbers of threads and agents", [=](mc::ctx &c) {
        setting s; s.threads = c.choose(10); int n = c.choose(r.bound(8, 13)); s.partial = c.flip(); s.eager = c.flip(); script_t x(n);
        int kind = c.choose(4); for(int i = 0; i < n; ++i) for(int k = 0; k < 3; ++k) { move m; m.wake = (i + k + kind) % 4; if(n && kind) m.send = {{(i + kind) % n, k % 2}, {(i * 2 + k) % n, 1}}; x[i].push_back(m); }
        auto o = opt(0); o.order = 1 + c.choose(2); compare(c, x, s, o, false);
    });
    r.scope("two agents on two threads", [=](mc::ctx &c) { setting s; s.threads = 2; auto x = any(c, 2, 1, {}); compare(c, x, s, opt(r.bound(1, 2))); });
    r.scope("two agents on two threads, one time", [=](mc::ctx &c) { setting s; s.threads = 2; s.end = 4; auto x = any(c, 2, 1, {2, 3}); compare(c, x, s, opt(r.bound(2, 3))); });
    r.scope("two agents on two threads, all rounds together", [=](mc::ctx &c) { setting s; s.threads = 2; s.end = 4; auto x = any(c, 2, 1, {2, 2}); compare(c, x, s, opt(r.bound(0, 1)), false); });
    r.scope("two agents on two threads, acting twice", [=](mc::ctx &c) { setting s; s.threads = 2; s.end = 6; s.eager = c.flip(); auto x = any(c, 2, 2, {r.bound(2, 3), 3}); compare(c, x, s, opt(r.bound(0, 1))); });
    r.scope("three agents on two threads", [=](mc::ctx &c) { setting s; s.threads = 2; s.end = 5; auto x = any(c, 3, 1, {2, r.bound(3, 4)}); compare(c, x, s, opt(r.bound(1, 2))); });
    r.scope("three agents on three threads", [=](mc::ctx &c) { setting s; s.threads = 3; s.end = 5; auto x = any(c, 3, 1, {2, 2}); compare(c, x, s, opt(r.bound(0, 1))); });
    r.scope("four agents on three threads", [=](mc::ctx &c) { setting s; s.threads = 3; s.end = 5; auto x = any(c, 4, 1, {2, 2}); compare(c, x, s, opt(0)); });
    r.scope("errors", [=](mc::ctx &c) { setting s; s.threads = 2 + c.choose(2); s.end = 5; auto x = any(c, 2 + c.choose(2), 1, {0, 0, true}); compare(c, x, s, opt(r.bound(0, 1))); });

    r.scope("agents come and go", [=](mc::ctx &c) { setting s; s.threads = 2; s.end = 5; auto x = any(c, 2, 1, {2, 2}); for(auto &v: x) { v[0].population = c.choose(3); if(v[0].population == 2) for(auto &u: x) for(auto &m: u) m.send.clear(); } compare(c, x, s, opt(1)); });

    // the same parameters reproduce a run, and each parameter of the seeds matters
    r.scope("repeated runs", [=](mc::ctx &c) {
        setting s; s.sample = c.pick(std::vector<uint64_t>{0, 5, ~0ull}); s.start = c.choose(2) * 4; s.end = s.start + 4; s.partial = c.flip(); s.eager = c.flip(); auto x = any(c, 2, 2, {3, 4}); c.op();
        auto a = play(x, s), b = play(x, s); MC_CHECK(c, a == b, "reproduction", "a repeated run differs"); c.state(a);
    });
    r.scope("seeds", [=](mc::ctx &c) {
        const std::vector<uint64_t> samples{0, 1, 2, 3, 1000, 0x7fffffff, 0x80000000, 0xffffffff, 1ull << 32, (1ull << 32) + 1, 3ull << 40, 1ull << 63, ~0ull}, starts{0, 4, 1000, 0xfffffff0, 1ull << 32, 1ull << 40, ~0ull - 8};
        std::map<std::string, std::string> seen; int n = c.choose(5) + 1, rounds = 4; bool share = c.flip();
        for(auto sample: samples) for(auto start: starts) {
            script_t x(n); for(int i = 0; i < n; ++i) { for(int t = 0; t < 3; ++t) { for(int k = 1; k < rounds; ++k) { move m; m.wake = AGAIN; x[i].push_back(m); } move m; m.wake = NEXT; x[i].push_back(m); } }
            setting s; s.sample = sample; s.start = start; s.end = start + 3; s.partial = share; s.threads = 1; c.op();
            std::string log = play(x, s), line, agent = "?"; std::istringstream in(log); int at = 0;
            while(std::getline(in, line)) if(line.size() && line.back() == ':') { agent = line; at = 0; } else if(auto p = line.find(" seed "); p != line.npos) {
                std::string what = MC_STR("sample " << sample << " agent " << agent << " time " << line.substr(0, line.find('-')) << " round " << at++ % rounds), seed = line.substr(p); auto [i, fresh] = seen.emplace(seed, what);
                MC_CHECK(c, fresh, "seed", what << " has the same random seed as " << i->second); c.state(seed);
            }
        }
        MC_CHECK(c, seen.size() == samples.size() * starts.size() * n * 3 * rounds, "seed", "seeds are missing: " << seen.size());
    });
    return r.finish();
}
