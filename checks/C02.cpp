// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "sim.hpp"
using namespace simcheck;

struct options { bool wakes = true, past = false, population = false, partial = false, messages = false, answers = false; };

static void script(mc::ctx &c, int agents, int budget, int horizon, options o)
{
    esl::computation::environment e; const time_point start = 7, end = start + horizon;
    world w(c, e, parametrization(3, start, end));
    for(int i = 0; i < agents; ++i) w.spawn();
    w.decide = [&](world &w, int i) {
        decision d; d.wake = w.upper; if(budget-- <= 0) return d;
        switch(c.choose(o.past ? 6 : 5)) { case 0: break; case 1: d.wake = w.now; break; case 2: d.wake = w.now + 1; break; case 3: d.wake = w.now + 2; break; case 4: d.wake = w.upper + 3; break; case 5: d.wake = w.now - 1; break; }
        if(o.messages) { int n = c.choose(3); if(n) d.send.push_back({(i + 1) % int(w.m.size()), n - 1}); if(n && !w.m[d.send[0].first].alive) d.send.clear(); }
        if(o.population) { int n = c.choose(3); if(n == 1 && w.m.size() < 5) d.create = true; if(n == 2 && d.send.empty()) d.leave = true;
            if(d.create && o.messages && c.flip()) d.send.push_back({int(w.m.size()), 1}); }   // a message to the agent about to be created
        return d;
    };
    if(o.answers) w.answer = [&](world &w, int) { switch(c.choose(3)) { case 0: return w.upper; case 1: return std::min<time_point>(w.upper, w.now + 1); default: return std::min<time_point>(w.upper, w.now + 2); } };
    time_point t = start;
    while(t < end) {
        time_point u = end; if(o.partial) { u = t + 1 + c.choose(3); if(u > end) u = end; }
        time_point next; if(!w.stepped(t, u, next)) return;
        w.check(next > t, "time", "time does not advance"); w.check(next <= end, "time", "time goes beyond the end");
        c.state(w.key());
        if(o.population && w.m.size() < 5) switch(c.choose(3)) {   // between steps
            case 1: w.spawn(); break;
            case 2: for(size_t k = 0; k < w.m.size(); ++k) if(w.m[k].alive) { w.remove(k); break; } break;
        }
        t = next;
    }
}

// many agents, each of which wakes up in a regular pattern of its own
static void patterns(mc::ctx &c, const std::vector<int> &agents)
{
    int n = c.pick(agents), p = c.choose(6), kept = c.choose(3); esl::computation::environment e; const time_point start = 7, end = start + 24; world w(c, e, parametrization(3, start, end)); w.limit = 1 << 30;
    for(int i = 0; i < n; ++i) w.spawn(); std::map<int, int> acted;
    w.decide = [&](world &w, int i) {
        decision d; int k = acted[i]++;
        switch(p) { case 0: d.wake = w.now + 1 + i % 7; break; case 1: d.wake = w.now + 1 + (n - i) % 11; break; case 2: d.wake = k ? w.upper : start + i % 24; break;
                    case 3: d.wake = k % 4 == 3 ? w.now + 3 : w.now; if(k > 30) d.wake = w.upper; break; case 4: d.wake = i % 5 ? w.upper : w.now + 2; break; case 5: d.wake = w.now + 1 + k; break; }
        if(kept && k == 1 && i % 3 == kept) d.leave = true;
        return d;
    };
    time_point t = start; while(t < end) { time_point next; if(!w.stepped(t, end, next)) return; w.check(next > t && next <= end, "time", "time does not advance, or goes beyond the end"); t = next; }
    c.state(MC_STR(n << ' ' << p << ' ' << kept));
}
// periods that start at and last for times of every magnitude
static void spans(mc::ctx &c, int agents, int budget)
{
    static const std::vector<uint64_t> bases{0, 1, (1ull << 16) - 2, (1ull << 31) - 2, (1ull << 32) - 2, (1ull << 32) + 1, 1ull << 53, 1ull << 62, (1ull << 63) - 3, 1ull << 63};
    static const std::vector<uint64_t> spans{0, 1, 255, 1ull << 16, (1ull << 31) + 1, 1ull << 32, (1ull << 40) + 3};
    time_point start = c.pick(bases), end = start + (1ull << 43); esl::computation::environment e; world w(c, e, parametrization(0, start, end));
    for(int i = 0; i < agents; ++i) w.spawn();
    w.decide = [&](world &w, int i) { decision d; d.wake = w.upper; if(budget-- > 0) { int a = c.choose(spans.size() + 1); if(a) d.wake = w.now + spans[a - 1]; } return d; };
    time_point t = start; while(t < end) { time_point next; if(!w.stepped(t, end, next)) return; c.state(w.key()); t = next; }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C02");
    { options o; r.scope("one agent", [=](mc::ctx &c) { script(c, 1, r.bound(9, 12), 8, o); });
      r.scope("two agents", [=](mc::ctx &c) { script(c, 2, r.bound(8, 11), 6, o); });
      r.scope("three agents", [=](mc::ctx &c) { script(c, 3, r.bound(8, 10), 5, o); }); }
    { options o; o.past = true; r.scope("requests to wake up in the past", [=](mc::ctx &c) { script(c, 2, r.bound(5, 6), 4, o); }); }
    { options o; o.partial = true; r.scope("steps over parts of the period", [=](mc::ctx &c) { script(c, 2, r.bound(5, 6), 6, o); }); }
    { options o; o.messages = true; r.scope("wake-ups and messages", [=](mc::ctx &c) { script(c, 2, r.bound(4, 6), 5, o); }); }
    { options o; o.messages = o.answers = true; r.scope("wake-ups requested by message handlers", [=](mc::ctx &c) { script(c, 2, r.bound(3, 4), 4, o); }); }
    { options o; o.population = true; r.scope("agents come and go", [=](mc::ctx &c) { script(c, 2, r.bound(4, 5), 4, o); });
      o.messages = true; r.scope("agents come and go, with messages", [=](mc::ctx &c) { script(c, 2, r.bound(2, 3), 3, o); }); }
    r.scope("many agents in regular patterns", [=](mc::ctx &c) { patterns(c, r.thorough() ? std::vector<int>{4, 5, 8, 9, 16, 17, 31, 33, 64, 65, 100, 129, 257, 513} : std::vector<int>{4, 5, 9, 17, 33, 65, 129}); });
    r.scope("times of every magnitude", [=](mc::ctx &c) { spans(c, 2, r.bound(5, 6)); });
    r.scope("empty steps", [=](mc::ctx &c) {
        esl::computation::environment e; world w(c, e, parametrization(0, 5, 10)); int n = c.choose(3); for(int i = 0; i < n; ++i) w.spawn();
        time_point a = 5 + c.choose(6), b = 5 + c.choose(6); c.op(); c.state(MC_STR(n << a << b));
        bool error = false; w.decide = [](world &w, int) { decision d; d.wake = w.upper; return d; };
        if(b > a) { time_point next; w.stepped(a, b, next); return; }
        try { w.step(time_interval{a, b}); } catch(const mc::violation &) { throw; } catch(const std::exception &) { error = true; }
        MC_CHECK(c, error, "empty", "a step over nothing is accepted");
    });
    return r.finish();
}
