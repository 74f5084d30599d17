// Lockstep exploration of model::step: scripted agents whose every decision is a choice of the explorer, next to a
// reference scheduler that predicts who may act, with which messages, and when time moves on.
#pragma once
#include "mc.hpp"
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/simulation/model.hpp>
#include <esl/interaction/message.hpp>
#include <deque>
#include <memory>
namespace simcheck {
using esl::identity; using esl::simulation::time_point; using esl::simulation::time_interval;
using esl::simulation::parameter::parametrization;
typedef identity<esl::agent> id_t;

struct note : public esl::interaction::message<note, (std::uint64_t(1) << 62) | 11> { int number; explicit note(int n = 0) : number(n) {} };
// a type of message that no agent has a handler for
struct silent : public esl::interaction::message<silent, (std::uint64_t(1) << 62) | 12> { int number; explicit silent(int n = 0) : number(n) {} };

struct world;
struct actor : public esl::agent, public esl::identifiable_as<actor>
{
    world *w; int index;
    actor(const identity<actor> &i, world *w, int index);
    time_point act(time_interval step, std::seed_seq &seed) override;
};

struct pending { time_point at; int number, sender; bool quiet = false; };
struct parcel { int first; int64_t second; bool quiet = false; };      // recipient, offset, of a type nobody handles
struct mirror          // what the reference knows about one agent
{
    std::shared_ptr<actor> a; id_t id; bool alive = true, acted = false, touched = false; time_point due = 0;
    std::vector<pending> inbox, outbox_; std::vector<int> to; // outbox_ and the recipients
    time_point asked = 0; bool asks = false; std::vector<int> handled;                             // since its last activation
};

struct decision { time_point wake; std::vector<parcel> send; bool create = false, leave = false; int stranger = -1; };

struct world : public esl::simulation::model
{
    mc::ctx &c; std::deque<mirror> m; time_point now = 0, upper = 0; std::set<int> round; bool in_step = false;
    int numbers = 0, activations = 0, rounds = 0; bool expect_error = false; int limit = 400;
    std::function<decision(world &, int)> decide; std::function<time_point(world &, int)> answer;
    world(mc::ctx &c, esl::computation::environment &e, const parametrization &p) : model(e, p), c(c) {}

    int spawn()
    {
        int i = m.size(); m.push_back(mirror{});
        auto a = this->template create<actor>(this, i);
        m[i].a = a; m[i].id = a->identifier; for(int j = 0; j < i; ++j) if(m[j].alive) check(m[j].id != m[i].id, "identity", "two agents share an identity");
        check(agents[a->identifier] == a && agents.local_agents_.count(a->identifier) == 1, "collection", "the new agent is not in the collection");
        return i;
    }
    void remove(int i)
    {
        m[i].alive = false; agents.deactivate(m[i].a); check(!agents[m[i].id], "collection", "a removed agent is still there");
    }
    void check(bool ok, const char *key, const std::string &msg) { ++c.checks; if(!ok) c.fail(key, msg); }
    std::set<int> due() const { std::set<int> s; for(size_t i = 0; i < m.size(); ++i) if(m[i].alive && (!m[i].touched || m[i].due <= now)) s.insert(i); return s; }
    void begin_round() { round = due(); ++rounds; for(int i: round) if(!m[i].touched) { m[i].touched = true; m[i].due = now; } MC_LOG(c, "  round with " << round.size() << " agents due"); }
    time_point first() const
    {
        time_point f = std::min(upper, end); for(auto &x: m) if(x.alive && x.touched) f = std::min(f, x.due);
        return f;
    }
    // all agents of the round have acted: deliver
    void end_round()
    {
        for(auto &x: m) if(x.alive) {
            for(size_t k = 0; k < x.outbox_.size(); ++k) {
                int to = x.to[k]; if(to < 0 || !m[to].alive) { expect_error = true; return; }
                auto &y = m[to]; auto &p = x.outbox_[k]; y.inbox.push_back(p);
                if(!y.touched) { y.touched = true; y.due = std::min(p.at, now); } else y.due = std::min(y.due, p.at);
            }
            x.outbox_.clear(); x.to.clear();
        }
    }
    void send(int from, int to, time_point at, bool quiet = false)
    {
        int n = numbers++; auto &x = m[from]; x.outbox_.push_back({at, n, from, quiet}); x.to.push_back(to);
        MC_LOG(c, "    " << from << " sends " << n << " to " << to << " for " << at);
        if(quiet) { auto s = x.a->create_message<silent>(m[to].id, at, n); s->sender = x.id; }
        else if(to >= 0) { auto s = x.a->create_message<note>(m[to].id, at, n); s->sender = x.id; }
        else { auto s = x.a->create_message<note>(id_t({77, 1}), at, n); s->sender = x.id; }
    }
    // moves on to the next round when one agent acts again or another than expected
    void enter(int i)
    {
        check(in_step, "activation", "an agent is active outside of a step");
        if(round.empty()) {
            end_round(); check(!expect_error, "recipient", "a message to nobody was accepted");
            check(first() <= now, "round", MC_STR("agent " << i << " acts at " << now << " although the next event is at " << first()));
            begin_round();
        }
        check(round.count(i), "activation", MC_STR("agent " << i << " acts at " << now << " in round " << rounds << (m[i].alive ? " although it is not due, or twice" : " although it was removed")));
    }
    time_point handle(int i, const note &n, time_interval s)
    {
        enter(i); auto &x = m[i]; int at = -1; for(size_t k = 0; k < x.inbox.size(); ++k) if(x.inbox[k].number == n.number) at = k;
        MC_LOG(c, "    " << i << " handles " << n.number);
        check(s.lower == now && s.upper == upper, "interval", "handler is given another time interval");
        check(at >= 0, "delivery", MC_STR("agent " << i << " gets message " << n.number << " which is not for it, or a second time"));
        check(x.inbox[at].at <= now, "early", MC_STR("agent " << i << " gets message " << n.number << " at " << now << ", before " << x.inbox[at].at));
        check(n.recipient == x.id && n.received == x.inbox[at].at && n.sender == m[x.inbox[at].sender].id, "header", "message header");
        x.inbox.erase(x.inbox.begin() + at); x.handled.push_back(n.number);
        time_point r = upper; if(answer) r = answer(*this, i); x.asked = x.asks ? std::min(x.asked, r) : r; x.asks = true; if(answer) MC_LOG(c, "    and wants to wake up at " << r); return r;
    }
    time_point activate(int i, time_interval s)
    {
        enter(i); auto &x = m[i]; round.erase(i); ++activations; c.op(); x.acted = true; x.touched = true;
        check(activations < limit, "endless", "a step does not end");
        check(s.lower == now && s.upper == upper, "interval", "act() is given another time interval");
        for(size_t k = 0; k < x.inbox.size();) if(x.inbox[k].quiet && x.inbox[k].at <= now) x.inbox.erase(x.inbox.begin() + k); else ++k;
        for(auto &p: x.inbox) check(p.at > now, "lost", MC_STR("agent " << i << " acts at " << now << " without message " << p.number << " due at " << p.at));
        x.handled.clear();
        decision d = decide(*this, i);
        if(d.create) spawn();
        for(auto &p: d.send) send(i, p.first, now + p.second, p.quiet);
        if(d.stranger >= 0) send(i, -1, now);
        x.due = std::min(d.wake, upper); if(x.asks) x.due = std::min(x.due, x.asked); x.asks = false; for(auto &p: x.inbox) x.due = std::min(x.due, p.at);
        MC_LOG(c, "    " << i << " acts at " << now << " and wants to wake up at " << d.wake << (d.create ? ", creates an agent" : "") << (d.leave ? ", leaves" : ""));
        if(d.wake < now) { expect_error = true; round.clear(); }
        if(d.leave) remove(i);
        return d.wake;
    }
    // a step of the real model; false when it ended in the error that was to be expected
    bool stepped(time_point t, time_point u, time_point &next)
    {
        now = t; upper = u; in_step = true; MC_LOG(c, "step [" << t << ", " << u << ")"); begin_round(); bool error = false; time_point r = 0;
        try { r = this->step(time_interval{t, u}); } catch(const mc::violation &) { throw; } catch(const std::exception &e) { error = true; MC_LOG(c, "  error: " << e.what()); }
        in_step = false;
        if(!expect_error) { check(round.empty() || error, "skipped", MC_STR("the step at " << t << " ends without agent " << *round.begin() << " having acted")); if(!error) end_round(); }
        if(error && !expect_error && round.empty()) end_round();
        check(error == expect_error, "error", error ? "unexpected error in a step" : "a message to nobody, or a wake-up time in the past, is accepted");
        if(error) return false;
        time_point f = first();
        check(f > now, "skipped", MC_STR("the step at " << t << " ends although an agent is due again"));
        check(r == f, "next event", MC_STR("the step at " << t << " returns " << r << " instead of " << f));
        for(auto &x: m) if(x.alive) { std::multiset<std::pair<time_point, int>> a, b; for(auto &p: x.inbox) a.insert({p.at, p.number});
            for(auto &[k, v]: x.a->inbox) { auto n = std::dynamic_pointer_cast<note>(v); auto q = std::dynamic_pointer_cast<silent>(v); check(n || q, "inbox", "foreign message"); b.insert({k, n ? n->number : q->number}); }
            check(a == b, "inbox", MC_STR("agent " << x.id << " has " << b.size() << " messages pending instead of " << a.size())); check(x.a->outbox.empty(), "outbox", "messages remain unsent"); }
        next = r; return true;
    }
    std::string key()
    {
        std::ostringstream s; s << now; for(auto &x: m) { s << '|' << x.alive << x.touched; if(x.alive && x.touched) s << int64_t(x.due - now); for(auto &p: x.inbox) s << ',' << int64_t(p.at - now) << (p.quiet ? '~' : '<') << p.sender; }
        return s.str();
    }
};

inline actor::actor(const identity<actor> &i, world *w, int index) : agent(i), w(w), index(index)
{
    auto f = [this](std::shared_ptr<note> n, time_interval s, std::seed_seq &) { this->w->check(bool(n), "delivery", "no message"); return this->w->handle(this->index, *n, s); };
    ESL_REGISTER_CALLBACK(note, 0, f, "note");
}
inline time_point actor::act(time_interval step, std::seed_seq &) { return w->activate(index, step); }
}
