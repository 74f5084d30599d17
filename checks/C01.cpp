// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "sim.hpp"
using namespace simcheck;

// programs of `agents` agents with `budget` free activations: each asks for any wake-up and sends up to `most` messages
static void program(mc::ctx &c, int agents, int budget, int most, int horizon, bool late, int outside, bool quiet = false)
{
    esl::computation::environment e; const time_point start = 5, end = start + horizon;
    world w(c, e, parametrization(0, start, end));
    for(int i = 0; i < agents; ++i) w.spawn();
    w.decide = [&](world &w, int i) {
        decision d; d.wake = w.upper; if(budget-- <= 0) return d;
        switch(c.choose(3)) { case 1: d.wake = w.now + 1; break; case 2: d.wake = w.now + 2; break; }
        for(int k = 0; k < most; ++k) {
            int n = c.choose(1 + agents * 4); if(n == 0) break; --n;
            static const int64_t offsets[] = {0, 1, 3, -2}; d.send.push_back({n / 4, offsets[n % 4], quiet && c.flip()});
        }
        if(outside && c.choose(outside + 1) == outside) d.stranger = 1;
        return d;
    };
    time_point t = start; bool first = true;
    while(t < end) {
        if(late && !first) { t += c.choose(2); if(t >= end) break; }
        first = false; time_point next; if(!w.stepped(t, end, next)) return; c.state(w.key()); t = next;
    }
}

// every agent sends a burst of messages when it first acts, `count` in all, in one of several patterns of recipients and delivery times
static void bursts(mc::ctx &c, const std::vector<int> &agents, const std::vector<int> &counts)
{
    int n = c.pick(agents), k = c.pick(counts), when = c.choose(5), whom = c.choose(3); bool again = c.flip();
    esl::computation::environment e; const time_point start = 5, end = start + k + 8; world w(c, e, parametrization(0, start, end)); w.limit = 1 << 30;
    for(int i = 0; i < n; ++i) w.spawn();
    std::map<int, int> acted;
    w.decide = [&](world &w, int i) {
        decision d; d.wake = w.upper; if(acted[i]++ > (again ? 1 : 0)) return d; if(again) d.wake = w.now + 1;
        for(int j = 0; j < k; ++j) {
            int64_t at = when == 0 ? 0 : when == 1 ? j % 3 : when == 2 ? k - j : when == 3 ? j + 1 : 2;
            d.send.push_back({whom == 0 ? 0 : whom == 1 ? (i + 1) % n : j % n, at, false});
        }
        return d;
    };
    time_point t = start; while(t < end) { time_point next; if(!w.stepped(t, end, next)) return; t = next; } c.state(MC_STR(n << ' ' << k << ' ' << when << ' ' << whom << ' ' << again));
}
// periods that start at and last for times of every magnitude
static void spans(mc::ctx &c, int agents, int budget)
{
    static const std::vector<uint64_t> bases{0, 1, (1ull << 15) - 1, (1ull << 16) - 2, (1ull << 31) - 2, (1ull << 32) - 2, (1ull << 32) + 1, 1ull << 53, 1ull << 62, (1ull << 63) - 3, 1ull << 63};
    static const std::vector<uint64_t> spans{0, 1, 255, 1ull << 16, (1ull << 31) + 1, 1ull << 32, (1ull << 40) + 3};
    time_point start = c.pick(bases), end = start + (1ull << 43); esl::computation::environment e; world w(c, e, parametrization(0, start, end));
    for(int i = 0; i < agents; ++i) w.spawn();
    w.decide = [&](world &w, int i) {
        decision d; d.wake = w.upper; if(budget-- <= 0) return d;
        int a = c.choose(spans.size()); if(a) d.wake = w.now + spans[a]; int b = c.choose(spans.size() + 1); if(b) d.send.push_back({(i + 1) % agents, int64_t(spans[b - 1]), false}); return d;
    };
    time_point t = start; while(t < end) { time_point next; if(!w.stepped(t, end, next)) return; c.state(w.key()); t = next; }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C01");
    r.scope("two agents, one message per activation", [=](mc::ctx &c) { program(c, 2, r.bound(4, 5), 1, 5, false, 0); });
    r.scope("two agents, two messages per activation", [=](mc::ctx &c) { program(c, 2, r.bound(2, 3), 2, 5, false, 0); });
    r.scope("three agents", [=](mc::ctx &c) { program(c, 3, r.bound(3, 4), 1, 5, false, 0); });
    r.scope("a single agent writing to itself", [=](mc::ctx &c) { program(c, 1, r.bound(5, 6), 1, 6, false, 0); });
    r.scope("messages of a type nobody handles among the others", [=](mc::ctx &c) { program(c, 2, r.bound(2, 3), 2, 4, false, 0, true); });
    r.scope("steps taken later than the next event", [=](mc::ctx &c) { program(c, 2, r.bound(3, 4), 1, 4, true, 0); });
    r.scope("messages to nobody", [=](mc::ctx &c) { program(c, 2, 3, 1, 3, false, 1); });
    r.scope("bursts of messages", [=](mc::ctx &c) { bursts(c, {1, 2, 3, 9}, !r.thorough() ? std::vector<int>{1, 2, 5, 17, 33, 65, 129} : std::vector<int>{1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 129, 257, 513}); });
    r.scope("bursts between many agents", [=](mc::ctx &c) { bursts(c, !r.thorough() ? std::vector<int>{17, 65} : std::vector<int>{16, 17, 33, 65, 129, 257}, {1, 3}); });
    r.scope("times of every magnitude", [=](mc::ctx &c) { spans(c, 2, r.bound(2, 3)); });
    return r.finish();
}
