// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <esl/economics/owner.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/computation/environment.hpp>
#include <esl/simulation/model.hpp>
using esl::quantity; using esl::identity; using esl::law::property; using esl::law::owner;
using namespace esl::economics::accounting;
namespace sim = esl::simulation;

struct grain : public virtual property, public esl::economics::fungible { explicit grain(identity<property> i) : property(i) {} };
struct house : public virtual property, public esl::economics::infungible { explicit house(identity<property> i) : property(i) {} };
struct person : public virtual owner<esl::economics::cash>, public virtual owner<grain>, public virtual owner<house>, public esl::identifiable_as<person>
{
    explicit person(const identity<person> &i = identity<person>())
    : agent(i), owner<property>(i), owner<esl::economics::cash>(i), owner<grain>(i), owner<house>(i) {}
    
};
struct world : public sim::model
{
    using sim::model::model;
};
// kinds of property: dollars, euros, grain, two houses
enum { USD, EUR, GRAIN, HOUSE, HUT, KINDS };
static std::shared_ptr<property> object(int k, int alias)
{
    static std::vector<std::shared_ptr<property>> o = [] { std::vector<std::shared_ptr<property>> r; for(int a = 0; a < 2; ++a) {
        r.push_back(std::make_shared<esl::economics::cash>(esl::economics::currencies::USD)); r.push_back(std::make_shared<esl::economics::cash>(esl::economics::currencies::EUR));
        r.push_back(std::make_shared<grain>(identity<property>({7}))); r.push_back(std::make_shared<house>(identity<property>({8}))); r.push_back(std::make_shared<house>(identity<property>({8, 1}))); } return r; }();
    return o[k + KINDS * (alias & 1)];
}
typedef std::array<uint64_t, KINDS> holding;
static std::string show(const holding &h) { std::ostringstream s; s << '['; for(auto q: h) s << q << ' '; s << ']'; return s.str(); }
static bool covers(const holding &h, const holding &w) { for(int k = 0; k < KINDS; ++k) if(w[k] > h[k]) return false; return true; }
static void give(person &p, int k, uint64_t q, int alias)
{
    auto o = object(k, alias);
    if(k <= EUR) p.owner<esl::economics::cash>::take(std::dynamic_pointer_cast<esl::economics::cash>(o), quantity(q));
    else if(k == GRAIN) p.owner<grain>::take(std::dynamic_pointer_cast<grain>(o), quantity(q));
    else p.owner<house>::take(std::dynamic_pointer_cast<house>(o), quantity(q));
}
static void agree(mc::ctx &c, person &p, const holding &h, const std::string &what)
{
    size_t n = 0, typed[3] = {0, 0, 0};
    for(int k = 0; k < KINDS; ++k) {
        n += h[k] > 0; typed[k <= EUR ? 0 : k == GRAIN ? 1 : 2] += h[k] > 0;
        auto i = p.inventory.find(object(k, 0)); uint64_t q = i == p.inventory.end() ? 0 : i->second.amount;
        MC_CHECK(c, q == h[k], "holdings", what << ": " << p.identifier << " holds " << q << " of " << k << " instead of " << show(h));
        uint64_t t = 0;
        if(k <= EUR) { auto &m = p.owner<esl::economics::cash>::properties.items; auto j = m.find(std::dynamic_pointer_cast<esl::economics::cash>(object(k, 1))); if(j != m.end()) t = j->second.amount; }
        else if(k == GRAIN) { auto &m = p.owner<grain>::properties.items; auto j = m.find(std::dynamic_pointer_cast<grain>(object(k, 1))); if(j != m.end()) t = j->second.amount; }
        else t = p.owner<house>::properties.items.count(std::dynamic_pointer_cast<house>(object(k, 1)));
        MC_CHECK(c, t == h[k], "holdings by type", what << ": " << p.identifier << " holds " << t << " of " << k << " by type, instead of " << show(h));
    }
    MC_CHECK(c, p.inventory.size() == n, "holdings", what << ": " << p.inventory.size() << " entries");
    MC_CHECK(c, p.owner<esl::economics::cash>::properties.items.size() == typed[0] && p.owner<grain>::properties.items.size() == typed[1] && p.owner<house>::properties.items.size() == typed[2], "holdings by type", what << ": number of entries");
}

struct setup
{
    esl::computation::environment e; std::unique_ptr<world> w; std::vector<std::shared_ptr<person>> p; std::vector<holding> h; int alias = 0;
    setup(mc::ctx &c, int people, const std::vector<holding> &start, uint64_t sample, bool in_order)
    {
        w.reset(new world(e, sim::parameter::parametrization(sample, 0, 1000)));
        for(int i = 0; i < people; ++i) {
            p.push_back(w->create<person>()); h.push_back(start[i]);
            if(in_order) p.back()->schedule = esl::interaction::communicator::in_order;
            for(int k = 0; k < KINDS; ++k) if(h[i][k]) { if(h[i][k] > 1) { give(*p[i], k, h[i][k] - 1, alias++); give(*p[i], k, 1, alias++); } else give(*p[i], k, 1, alias++); }
            agree(c, *p[i], h[i], "at the start");
        }
    }
    // a transfer is announced to both parties, here by a third agent
    void transfer(int from, int to, const holding &w, int sender, sim::time_point t)
    {
        inventory_filter<property> b; for(int k = 0; k < KINDS; ++k) if(w[k]) b.insert(object(k, alias++), quantity(w[k]));
        p[sender]->create_message<esl::interaction::transfer>(p[from]->identifier, t, *p[sender], *p[from], *p[from], *p[to], b);
        p[sender]->create_message<esl::interaction::transfer>(p[to]->identifier, t, *p[sender], *p[to], *p[from], *p[to], b);
    }
    std::string state() { std::string s; for(auto &x: h) s += show(x); return s; }
};

static holding basket(mc::ctx &c, int shape)
{
    static const std::vector<holding> small{{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {3, 0, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {2, 0, 1, 0, 0}, {1, 1, 0, 0, 0}, {0, 0, 1, 1, 0}, {1, 0, 2, 1, 1}};
    if(shape == 0) return c.pick(small);
    holding b{}; b[USD] = c.choose(4); b[EUR] = c.choose(2); b[GRAIN] = c.choose(3); b[HOUSE] = c.choose(2); b[HUT] = c.choose(2); return b;
}

static void one_by_one(mc::ctx &c, int depth, int people, int shape)
{
    setup s(c, people, {{3, 1, 2, 1, 0}, {1, 0, 1, 0, 1}, {0, 0, 0, 0, 0}}, 0, false);
    sim::time_point t = 0;
    for(int d = 0; d < depth; ++d) {
        int from = c.choose(people), to = c.choose(people); holding b = basket(c, shape); int sender = (from + 1) % people;
        bool refused = from != to && !covers(s.h[from], b), error = false;
        std::string what = MC_STR(s.state() << " transfer of " << show(b) << " from " << from << " to " << to);
        s.transfer(from, to, b, sender, t);
        auto before = s.h;
        if(!refused && from != to) for(int k = 0; k < KINDS; ++k) { s.h[from][k] -= b[k]; s.h[to][k] += b[k]; }
        try { t = s.w->step({t, t + 10}); } catch(const insufficent_inventory &) { error = true; }
        c.op(); MC_LOG(c, what << (error ? " refused" : ""));
        MC_CHECK(c, error == refused, "refusal", what << (error ? " was refused" : " was accepted"));
        for(int i = 0; i < people; ++i) if(!refused || i != to) agree(c, *s.p[i], s.h[i], what);
        c.state(s.state());
        if(refused) return;   // the run has stopped
    }
}

// several transfers at once: each agent handles its messages in any order
static void at_once(mc::ctx &c, int transfers, int people)
{
    bool in_order = c.flip(); uint64_t sample = in_order ? 0 : c.choose(3);
    setup s(c, people, {{6, 1, 2, 1, 0}, {3, 0, 2, 0, 1}, {1, 0, 0, 0, 0}}, sample, in_order);
    auto need = s.h; for(auto &x: need) x = holding{}; auto after = s.h; std::string what = s.state();
    static const std::vector<holding> small{{1, 0, 0, 0, 0}, {2, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {1, 1, 0, 0, 0}, {0, 0, 0, 0, 1}, {1, 0, 1, 1, 0}};
    for(int n = 0; n < transfers; ++n) {
        int from = c.choose(people), to = c.choose(people); const holding &b = c.pick(small);
        for(int k: {HOUSE, HUT}) if(b[k] && s.h[from][k] + b[k] < 2) return;   // what is unique cannot be in two places while messages are handled
        s.transfer(from, to, b, n % people, 0); what += MC_STR(" " << from << "->" << to << ' ' << show(b));
        if(from != to) for(int k = 0; k < KINDS; ++k) { need[from][k] += b[k]; after[from][k] -= b[k]; after[to][k] += b[k]; }
    }
    bool sure = true; for(int i = 0; i < people; ++i) sure = sure && covers(s.h[i], need[i]);   // everybody has enough whatever the order
    bool error = false; try { s.w->step({0, 10}); } catch(const insufficent_inventory &) { error = true; }
    c.op(); MC_LOG(c, what << (error ? " refused" : ""));
    if(sure) MC_CHECK(c, !error, "refusal", what << " was refused");
    bool possible = true; for(auto &x: after) for(auto q: x) possible = possible && int64_t(q) >= 0;
    if(!possible) MC_CHECK(c, error, "refusal", what << " was accepted");
    if(error) return;
    for(int i = 0; i < people; ++i) agree(c, *s.p[i], after[i], what);
    s.h = after; c.state(s.state());
}

// amounts of every magnitude
static void magnitudes(mc::ctx &c)
{
    static const std::vector<uint64_t> sizes{0, 1, 255, 65536, 1ull << 31, (1ull << 32) - 1, (1ull << 32) + 1, (1ull << 53) + 1, 1ull << 63, UINT64_MAX - 1, UINT64_MAX};
    int k = c.flip() ? GRAIN : USD; uint64_t a = c.pick(sizes), b = c.pick(sizes), q = c.pick(sizes); if(q == 0) return; if(q <= a && b > UINT64_MAX - q) return;
    holding x{}, y{}, z{}; x[k] = a; y[k] = b; z[k] = q; setup s(c, 2, {x, y}, 0, false); s.transfer(0, 1, z, c.choose(2), 0);
    std::string what = MC_STR("transfer of " << q << " to an owner of " << b << " from an owner of " << a); bool error = false, refused = q > a;
    try { s.w->step({0, 10}); } catch(const insufficent_inventory &) { error = true; }
    c.op(); MC_LOG(c, what << (error ? " refused" : "")); c.state(what); MC_CHECK(c, error == refused, "refusal", what << (error ? " was refused" : " was accepted"));
    if(!refused) { s.h[0][k] -= q; s.h[1][k] += q; agree(c, *s.p[1], s.h[1], what); } agree(c, *s.p[0], s.h[0], what);
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C21");
    r.scope("transfers one by one", [=](mc::ctx &c) { one_by_one(c, r.bound(2, 3), 3, 0); });
    r.scope("transfers of every basket", [=](mc::ctx &c) { one_by_one(c, r.bound(1, 2), 2, 1); });
    r.scope("longer histories", [=](mc::ctx &c) { one_by_one(c, r.bound(3, 4), 2, 0); });
    r.scope("transfers at once", [=](mc::ctx &c) { at_once(c, 2, 3); });
    r.scope("more transfers at once", [=](mc::ctx &c) { at_once(c, 3, 2); });
    r.scope("amounts of every magnitude", [=](mc::ctx &c) { magnitudes(c); });
    return r.finish();
}
