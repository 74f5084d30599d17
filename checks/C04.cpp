// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/simulation/model.hpp>
#include <esl/interaction/communicator.hpp>
#include <esl/interaction/message.hpp>
using esl::interaction::communicator; using esl::simulation::time_point; using esl::simulation::time_interval;

template<int k> struct letter : public esl::interaction::message<letter<k>, (std::uint64_t(1) << 62) | (20 + k)> { int number = 0; };
struct handled { int message, handler; bool operator==(const handled &o) const { return message == o.message && handler == o.handler; } };
struct handler { int type, priority; time_point next; };
struct mail { int type; time_point at; };

struct station : public communicator
{
    std::vector<handled> seen; std::vector<handler> hs; bool wrong = false; time_interval expected{0, 1};
    explicit station(scheduling s) : communicator(s) {}
    template<int k> void on(int id, int p)
    {
        this->template register_callback<letter<k>>([this, id](std::shared_ptr<letter<k>> m, time_interval s, std::seed_seq &) {
            if(!m || s.lower != expected.lower || s.upper != expected.upper) wrong = true; else seen.push_back({m->number, id});
            return hs[id].next; }, p, "handler");
    }
    void add(const handler &h) { int id = hs.size(); hs.push_back(h); if(h.type == 0) on<0>(id, h.priority); else if(h.type == 1) on<1>(id, h.priority); else on<2>(id, h.priority); }
    template<int k> std::shared_ptr<esl::interaction::header> make(int n) { auto l = std::make_shared<letter<k>>(); l->number = n; return l; }
    void post(const mail &m, int n) { inbox.insert({m.at, m.type == 0 ? make<0>(n) : m.type == 1 ? make<1>(n) : make<2>(n)}); }
    int best(int type) const { int b = -1000; for(auto &h: hs) if(h.type == type) b = std::max(b, h.priority); return b; }
};
static std::string show(const std::vector<handled> &v) { std::ostringstream s; for(auto &h: v) s << h.message << '/' << h.handler << ' '; return s.str(); }

// the order in which messages were handled; every message completely, its handlers by decreasing priority
static std::vector<int> order(mc::ctx &c, const station &s, const std::vector<mail> &ms, time_point now)
{
    std::vector<int> o; size_t k = 0;
    while(k < s.seen.size()) {
        int n = s.seen[k].message; o.push_back(n); std::set<int> ran; int last = 1000;
        MC_CHECK(c, n >= 0 && size_t(n) < ms.size() && ms[n].at <= now, "due", "message " << n << " is handled at " << now);
        for(; k < s.seen.size() && s.seen[k].message == n; ++k) {
            auto &h = s.hs[s.seen[k].handler]; MC_CHECK(c, h.type == ms[n].type, "handlers", "handler of another type");
            MC_CHECK(c, ran.insert(s.seen[k].handler).second, "handlers", "message " << n << " handled twice by one handler: " << show(s.seen));
            MC_CHECK(c, h.priority <= last, "handlers", "handlers out of order: " << show(s.seen)); last = h.priority;
        }
        size_t all = 0; for(auto &h: s.hs) all += h.type == ms[n].type;
        MC_CHECK(c, ran.size() == all, "handlers", "message " << n << " is handled by " << ran.size() << " of " << all << " handlers: " << show(s.seen));
    }
    std::set<int> due; for(size_t n = 0; n < ms.size(); ++n) if(ms[n].at <= now && s.best(ms[n].type) > -1000) due.insert(n);
    MC_CHECK(c, o.size() == due.size() && std::set<int>(o.begin(), o.end()) == due, "due", o.size() << " messages handled instead of " << due.size() << ": " << show(s.seen));
    for(size_t i = 1; i < o.size(); ++i) MC_CHECK(c, s.best(ms[o[i - 1]].type) >= s.best(ms[o[i]].type), "priority", "messages out of order of priority: " << show(s.seen));
    return o;
}
static time_point expected_next(const station &s, const std::vector<int> &o, const std::vector<mail> &ms, time_interval step)
{
    time_point t = step.upper; for(int n: o) for(auto &h: s.hs) if(h.type == ms[n].type) t = std::min(t, h.next);
    for(auto &m: ms) if(m.at > step.lower) t = std::min(t, m.at); return t;
}
static const int priorities[] = {-128, -1, 0, 7, 127};

static std::vector<int> run(mc::ctx &c, station &s, const std::vector<mail> &ms, time_interval step, uint32_t seed, time_point *next = nullptr)
{
    for(size_t n = 0; n < ms.size(); ++n) s.post(ms[n], n);
    std::seed_seq q{seed, uint32_t(3)}; s.expected = step; c.op(); time_point t = s.process_messages(step, q);
    MC_CHECK(c, !s.wrong, "arguments", "a handler is given other arguments");
    auto o = order(c, s, ms, step.lower); MC_LOG(c, show(s.seen) << " next " << t);
    MC_CHECK(c, t == expected_next(s, o, ms, step), "next event", "returns " << t << " instead of " << expected_next(s, o, ms, step));
    if(next) *next = t; return o;
}
static void in_order(mc::ctx &c, const std::vector<handler> &hs, const std::vector<mail> &ms, time_interval step)
{
    station s(communicator::in_order); for(auto &h: hs) s.add(h);
    auto o = run(c, s, ms, step, 1);
    for(size_t i = 1; i < o.size(); ++i) { auto &a = ms[o[i - 1]], &b = ms[o[i]];
        if(s.best(a.type) == s.best(b.type)) MC_CHECK(c, a.at < b.at || (a.at == b.at && o[i - 1] < o[i]), "order", "messages of equal priority out of order of delivery: " << show(s.seen)); }
    c.state(MC_STR(hs.size() << show(s.seen)));
}
static std::vector<mail> mails(mc::ctx &c, int count, int types, time_point now)
{
    std::vector<mail> ms; for(int i = 0; i < count; ++i) { int k = c.choose(types * 3); ms.push_back({k / 3, now - 1 + k % 3}); } return ms;
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C04");
    r.scope("handlers of one message type", [=](mc::ctx &c) {
        std::vector<handler> hs; int n = 1 + c.choose(r.bound(4, 5)); for(int i = 0; i < n; ++i) hs.push_back({0, priorities[c.choose(5)], time_point(10 + c.choose(4))});
        if(c.flip()) hs.push_back({1, 0, 13});
        in_order(c, hs, mails(c, 1 + c.choose(2), 2, 10), {10, 13});
    });
    r.scope("messages of several types in order", [=](mc::ctx &c) {
        std::vector<handler> hs{{0, priorities[c.choose(5)], 20}, {1, priorities[c.choose(5)], 20}}; if(c.flip()) hs.push_back({0, priorities[c.choose(5)], 11});
        in_order(c, hs, mails(c, r.bound(5, 6), 3, 10), {10, 20});
    });
    r.scope("three types with handlers", [=](mc::ctx &c) {
        std::vector<handler> hs; for(int k = 0; k < 3; ++k) hs.push_back({k, priorities[1 + c.choose(3)], 20});
        in_order(c, hs, mails(c, r.bound(5, 6), 3, 10), {10, 20});
    });
    r.scope("longer queues", [=](mc::ctx &c) {
        std::vector<handler> hs{{0, 0, 20}, {1, c.flip() ? 0 : 3, 20}};
        int n = r.bound(6, 7); std::vector<mail> ms; for(int i = 0; i < n; ++i) { int k = c.choose(4); ms.push_back({k / 2, time_point(9 + k % 2)}); }
        in_order(c, hs, ms, {10, 20});
    });
    r.scope("many messages and handlers in regular patterns", [=](mc::ctx &c) {
        static const std::vector<int> few{1, 2, 9, 17, 33, 65, 129}, many{1, 2, 3, 5, 8, 9, 16, 17, 31, 33, 64, 65, 127, 129, 257, 513, 1025};
        int n = c.pick(r.thorough() ? many : few), k = c.pick(std::vector<int>{1, 2, 5, 17, 40}), times = c.choose(4), types = c.choose(3), ps = c.choose(4);
        std::vector<handler> hs; for(int i = 0; i < k; ++i) hs.push_back({i % 3, ps == 0 ? 0 : ps == 1 ? i - 20 : ps == 2 ? 20 - i : priorities[(i * 3) % 5], time_point(11 + i % 9)});
        std::vector<mail> ms; for(int i = 0; i < n; ++i) ms.push_back({types == 0 ? 0 : types == 1 ? i % 3 : i / 2 % 2, time_point(times == 0 ? 10 : times == 1 ? i % 10 : times == 2 ? 10 - i % 10 : 9 + i % 3)});
        in_order(c, hs, ms, {10, 20});
    });
    r.scope("random order of many messages", [=](mc::ctx &c) {
        int n = c.pick(std::vector<int>{2, 9, 17, 65, 130, 300}); uint32_t seed = c.choose(r.bound(8, 64)); std::vector<mail> ms; int times = 1 + c.choose(3); for(int i = 0; i < n; ++i) ms.push_back({i % 2, time_point(10 - i % times)});
        station a(communicator::random), b(communicator::random); for(auto *s: {&a, &b}) { s->add({0, 0, 20}); s->add({1, 3, 15}); s->add({0, -4, 18}); }
        auto o = run(c, a, ms, {10, 20}, seed), p = run(c, b, ms, {10, 20}, seed); MC_CHECK(c, o == p, "reproducible", "the same " << n << " messages and seed are handled in two orders"); c.state(MC_STR(n << ' ' << seed << ' ' << times));
    });
    r.scope("random order is determined by the seed", [=](mc::ctx &c) {
        std::vector<handler> hs{{0, 0, 20}, {1, int(c.choose(2)) * 3, 20}}; if(c.flip()) hs.push_back({0, -1, 12});
        auto ms = mails(c, r.bound(4, 5), 2, 10); uint32_t seed = c.choose(4);
        station a(communicator::random), b(communicator::random); for(auto &h: hs) { a.add(h); b.add(h); }
        auto o = run(c, a, ms, {10, 20}, seed), p = run(c, b, ms, {10, 20}, seed);
        MC_CHECK(c, o == p, "reproducible", "the same messages and seed are handled as " << show(a.seen) << "and as " << show(b.seen));
        // the same again at later times
        station d(communicator::random); for(auto &h: hs) { auto x = h; x.next += 100; d.add(x); }
        auto ns = ms; for(auto &m: ns) m.at += 100; auto q = run(c, d, ns, {110, 120}, seed);
        MC_CHECK(c, o == q, "reproducible", "the order depends on more than the seed: " << show(a.seen) << "and " << show(d.seen));
        c.state(show(a.seen));
    });
    r.scope("random order differs between seeds", [=](mc::ctx &c) {
        int n = 2 + c.choose(3); std::set<std::vector<int>> seen; std::vector<mail> ms(n, mail{0, 10});
        for(uint32_t seed = 0; seed < 256; ++seed) { station s(communicator::random); s.add({0, 0, 20}); seen.insert(run(c, s, ms, {10, 20}, seed)); }
        size_t all = 1; for(int i = 2; i <= n; ++i) all *= i; for(auto &o: seen) c.state(MC_STR(n << o[0] << o[1]));
        MC_CHECK(c, seen.size() == all, "shuffle", "only " << seen.size() << " of " << all << " orders of " << n << " messages occur for 256 seeds");
    });
    r.scope("single messages", [=](mc::ctx &c) {
        station s(c.flip() ? communicator::random : communicator::in_order); int n = c.choose(4); for(int i = 0; i < n; ++i) s.add({int(c.choose(2)), priorities[c.choose(5)], time_point(10 + c.choose(3))});
        s.expected = {10, 12}; std::seed_seq q{1}; auto t = s.process_message(s.make<0>(0), {10, 12}, q); c.op();
        std::vector<mail> ms{{0, 10}}; auto o = order(c, s, ms, 10); MC_CHECK(c, t == expected_next(s, o, ms, {10, 12}), "next event", "returns " << t); c.state(show(s.seen) + MC_STR(t));
        MC_CHECK(c, s.inbox.empty(), "inbox", "");
    });
    r.scope("handlers are only added during construction", [=](mc::ctx &c) {
        struct listener : public esl::agent { int heard = 0; explicit listener(const esl::identity<listener> &i, int own) : agent(i) { for(int k = 0; k < own; ++k) add(); }
            void add() { this->template register_callback<letter<0>>([this](std::shared_ptr<letter<0>>, time_interval s, std::seed_seq &) { ++heard; return s.upper; }, 0, "later"); } };
        struct world : esl::simulation::model { using model::model; };
        esl::computation::environment e; world w(e, esl::simulation::parameter::parametrization(0, 0, 10)); int own = c.choose(3), steps = c.choose(2);
        auto a = w.template create<listener>(own + 0); c.op();
        if(steps) w.step({0, 10});
        bool error = false; try { a->add(); } catch(const std::logic_error &) { error = true; }
        MC_CHECK(c, error, "locked", "a handler was added after construction");
        a->inbox.insert({5, std::make_shared<letter<0>>()}); w.wake_up_times[a->identifier] = 5; w.step({5, 10});
        MC_CHECK(c, a->heard == own, "locked", a->heard << " handlers instead of " << own); c.state(MC_STR(own << steps));
    });
    return r.finish();
}
