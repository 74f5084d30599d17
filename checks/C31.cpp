// mc-sources: esl/economics/markets/walras/price_setter.cpp esl/economics/markets/walras/tatonnement.cpp esl/law/property.cpp esl/economics/asset.cpp esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
// mc-flags: -I@/mc/stubs
// mc-libs: -lgsl -lgslcblas
#include "mc.hpp"
#include <esl/economics/markets/walras/price_setter.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/interaction/transfer.hpp>
#include <cmath>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
typedef identity<law::property> pid;
typedef identity<agent> aid;

struct item: law::property, fungible { item(pid i): law::property(i) {} std::string name() const override { return "item"; } };

// a schedule with a stated root, and stated demands at whatever prices are found
struct order: walras::differentiable_order_message
{
    std::map<pid, double> aim, demanded;                            // multipliers; units
    mutable std::map<pid, std::tuple<quote, double>> solution;
    using differentiable_order_message::differentiable_order_message;
    std::map<pid, variable> excess_demand(const std::map<pid, std::tuple<quote, variable>> &q) const override
    {
        std::map<pid, variable> r;
        for(auto &[k, v]: q) r.emplace(k, variable(aim.find(k)->second) - std::get<1>(v));
        return r;
    }
    std::map<pid, double> excess_demand(const std::map<pid, std::tuple<quote, double>> &q) const override
    {
        solution = q;
        std::map<pid, double> r;
        for(auto &[k, d]: demanded) { auto &s = q.find(k)->second; r.emplace(k, d * (double(std::get<0>(s)) * std::get<1>(s))); }
        return r;
    }
};

struct market_under_test: walras::price_setter
{
    market_under_test(law::property_map<quote> t): agent(identity<agent>({1})), walras::price_setter(identity<walras::price_setter>({1}), t) {}
};

struct participant { std::vector<std::pair<uint64_t, uint64_t>> supply; std::vector<double> demand; std::vector<bool> interested; };

static std::string key(const pid &i) { return i.representation(); }

// the net flow of a participant: what it receives less what it gives
struct flow { std::map<std::string, int64_t> bought, contracts; int64_t cash = 0; };

struct world
{
    mc::ctx &c; size_t properties; std::vector<uint32_t> lots;
    std::vector<std::shared_ptr<item>> items; std::vector<int64_t> prices;
    std::shared_ptr<market_under_test> m; std::vector<aid> agents; uint64_t time = 5;
    std::map<std::string, size_t> index; std::map<std::string, size_t> lending;
    std::string money = key(cash(currencies::USD).identifier);

    world(mc::ctx &c, size_t agents_, std::vector<int64_t> p, std::vector<uint32_t> l): c(c), properties(p.size()), lots(l), prices(p)
    {
        law::property_map<quote> t;
        for(size_t i = 0; i < properties; ++i) {
            items.push_back(std::make_shared<item>(pid({7, i})));
            t.insert({items[i], quote(price(p[i], currencies::USD), lots[i])});
            index[key(items[i]->identifier)] = i;
            lending[key(finance::securities_lending_contract(aid({1}), aid({2}), items[i]->identifier, quantity(1)).identifier)] = i;
        }
        m = std::make_shared<market_under_test>(t);
        for(size_t i = 0; i < agents_; ++i) { agents.push_back(aid({2, i})); m->participants.insert(reinterpret_identity_cast<law::owner<law::property>>(agents[i])); }
    }

    void quotes(uint64_t at)
    {
        std::map<std::string, int> seen;
        for(auto &x: m->outbox) if(auto q = std::dynamic_pointer_cast<walras::quote_message>(x)) {
            ++seen[q->recipient.representation()];
            MC_CHECK(c, q->proposed.size() == properties && q->sender == m->identifier && q->received == at, "quote message", "with " << q->proposed.size() << " quotes at " << q->received);
            for(size_t i = 0; i < properties; ++i) {
                auto k = q->proposed.find(items[i]);
                MC_CHECK(c, k != q->proposed.end() && std::get<price>(k->second.type).value == prices[i] && k->second.lot == lots[i], "quoted price", "of property " << i << " should be " << prices[i]);
            }
        }
        for(auto &a: agents) MC_CHECK(c, seen[a.representation()] == 1, "quote to every participant", seen[a.representation()] << " for " << a);
        MC_CHECK(c, seen.size() == agents.size(), "quote to others", "");
    }

    // without orders the market sends its quotes, and nothing moves
    void open()
    {
        std::seed_seq seed{1};
        m->inbox.clear(); m->outbox.clear();
        m->act({time, time + 10}, seed);
        for(auto &x: m->outbox) MC_CHECK(c, !std::dynamic_pointer_cast<interaction::transfer>(x), "transfer without orders", "");
        quotes(time);
    }

    void clear(const std::vector<participant> &who, const std::vector<double> &aim)
    {
        ++time;
        std::seed_seq seed{1};
        m->inbox.clear(); m->outbox.clear();
        std::vector<std::shared_ptr<order>> orders;
        for(size_t i = 0; i < who.size(); ++i) {
            auto o = std::make_shared<order>(agents[i], m->identifier);
            o->sent = time; o->received = time;
            bool any = false;
            for(size_t p = 0; p < properties; ++p) {
                o->aim[items[p]->identifier] = aim[p];
                if(who[i].interested[p]) { o->demanded[items[p]->identifier] = who[i].demand[p]; any = true; }
                if(who[i].supply[p].first || who[i].supply[p].second) o->supply[items[p]->identifier] = {quantity(who[i].supply[p].first), quantity(who[i].supply[p].second)};
            }
            (void)any;
            orders.push_back(o);
            m->inbox.insert({time, o});
        }
        auto old = prices;
        c.op();
        m->act({time, time + 10}, seed);
        // the prices that were found
        for(size_t p = 0; p < properties; ++p) {
            double s = std::get<1>(orders[0]->solution[items[p]->identifier]);
            MC_CHECK(c, std::abs(s - std::min(11., std::max(1. / 11, aim[p]))) < 1e-3, "multiplier", s << " where excess demand is zero at " << aim[p]);
            prices[p] = std::max<int64_t>(1, int64_t(old[p] * s));
            auto &q = m->traded_properties.find(items[p])->second;
            MC_CHECK(c, std::get<price>(q.type).value == prices[p], "price", "of property " << p << " is " << std::get<price>(q.type).value << ", was " << old[p] << " times " << s);
        }
        quotes(time + 1);
        double volume = 0; bool interest = false;
        for(auto &w: who) for(size_t p = 0; p < properties; ++p) if(w.interested[p]) { interest = true; volume += std::abs(w.demand[p]); }
        auto &v = m->output_volumes_->values;
        MC_CHECK(c, v.size() && std::get<0>(v.back()) == time && std::get<1>(v.back()).size() == 1, "volume output", "");
        if(!interest || properties == 1) MC_CHECK(c, std::abs(double(std::get<1>(v.back())[0]) - volume) <= 1 && (interest || !std::get<1>(v.back())[0]), "volume", std::get<1>(v.back())[0] << " of demands of " << volume);
        auto &cp = m->output_clearing_prices_->values;
        MC_CHECK(c, cp.size() && std::get<0>(cp.back()) == time && std::get<1>(cp.back()).size() == properties, "clearing prices output", "");
        for(size_t p = 0; p < properties; ++p) MC_CHECK(c, std::count_if(std::get<1>(cp.back()).begin(), std::get<1>(cp.back()).end(), [&](auto &x) { return x.value == prices[p]; }), "clearing price output", prices[p]);
        // what moves
        std::vector<flow> flows(who.size());
        for(auto &x: m->outbox) if(auto t = std::dynamic_pointer_cast<interaction::transfer>(x)) {
            aid from = reinterpret_identity_cast<agent>(t->transferor), to = reinterpret_identity_cast<agent>(t->transferee);
            MC_CHECK(c, (from == m->identifier) != (to == m->identifier), "transfer parties", from << " to " << to);
            aid other = from == m->identifier ? to : from; int sign = from == m->identifier ? 1 : -1;
            size_t i = std::find(agents.begin(), agents.begin() + who.size(), other) - agents.begin();
            MC_CHECK(c, i < who.size() && t->recipient == other, "transfer to stranger", other << " message to " << t->recipient);
            for(auto &[k, v]: t->transferred.items) {
                auto n = key(k->identifier);
                if(n == money) flows[i].cash += sign * (int64_t)v.amount;
                else if(index.count(n)) flows[i].bought[n] += sign * (int64_t)v.amount;
                else { MC_CHECK(c, lending.count(n), "transfer of other property", n); flows[i].contracts[n] += sign * (int64_t)v.amount; }
            }
        }
        std::vector<double> due(who.size(), 0.); std::vector<int> operations(who.size(), 0);
        for(size_t p = 0; p < properties; ++p) {
            auto n = key(items[p]->identifier); std::string l; for(auto &[k, v]: lending) if(v == p) l = k;
            int64_t sum = 0, truncated = 0; size_t parties = 0;
            std::vector<int64_t> fill(who.size());
            for(size_t i = 0; i < who.size(); ++i) {
                int64_t v = flows[i].bought[n] - flows[i].contracts[l];
                fill[i] = v; sum += v;
                if(who[i].interested[p]) { ++parties; truncated += int64_t(who[i].demand[p]); }
                int64_t has = who[i].supply[p].first, owes = who[i].supply[p].second, bought = flows[i].bought[n], borrowed = flows[i].contracts[l];
                if(v > 0) {
                    int64_t cover = std::min(v, owes);
                    MC_CHECK(c, borrowed == -cover && bought == v - cover, "purchase", "of " << v << " with " << owes << " short: " << bought << " bought, " << -borrowed << " contracts returned");
                    due[i] -= double(cover) * old[p] / lots[p] / lots[p] * lots[p] + double(v - cover) * prices[p] / lots[p];
                    operations[i] += (cover > 0) + (v > cover);
                } else if(v < 0) {
                    int64_t sold = std::min(-v, has);
                    MC_CHECK(c, bought == -sold && borrowed == -v - sold, "sale", "of " << -v << " with " << has << " held: " << -bought << " sold, " << borrowed << " borrowed");
                    due[i] += double(-v) * prices[p] / lots[p];
                    operations[i] += 2;
                } else MC_CHECK(c, !bought && !borrowed, "no trade", "but " << bought << " bought and " << borrowed << " borrowed");
            }
            MC_CHECK(c, sum == 0, "property conserved", sum << " more of property " << p << " bought than sold");
            for(size_t i = 0; i < who.size(); ++i) {
                if(!who[i].interested[p]) { MC_CHECK(c, !fill[i], "fill without order", ""); continue; }
                int64_t adjusted = fill[i] - int64_t(who[i].demand[p]), per = std::abs(truncated) / (int64_t)parties, rest = std::abs(truncated) % (int64_t)parties ? 1 : 0;
                int64_t a = truncated > 0 ? -adjusted : adjusted;
                MC_CHECK(c, a >= per && a <= per + rest, "rationing", "participant " << i << " demands " << who[i].demand[p] << ", gets " << fill[i] << "; in total " << truncated << " too many");
            }
        }
        for(size_t i = 0; i < who.size(); ++i)
            MC_CHECK(c, std::abs(flows[i].cash - due[i]) <= operations[i] + 1e-6 && (operations[i] || !flows[i].cash), "cash", "participant " << i << " gets " << flows[i].cash << ", should get " << due[i]);
        std::ostringstream s; for(auto &f: flows) { s << f.cash; for(auto &[k, v]: f.bought) s << ' ' << v; for(auto &[k, v]: f.contracts) s << ' ' << v; s << ';'; } for(auto p: prices) s << p << ' ';
        c.state(s.str());
        MC_LOG(c, "flows (cash bought.. contracts..) and prices: " << s.str());
    }
};

static participant choose(mc::ctx &c, size_t properties, const std::vector<double> &demands, bool absent)
{
    static const std::vector<std::pair<uint64_t, uint64_t>> supplies{{0, 0}, {2, 0}, {0, 2}};
    participant p;
    for(size_t i = 0; i < properties; ++i) {
        p.supply.push_back(c.pick(supplies));
        uint32_t d = c.choose(demands.size() + absent);
        p.interested.push_back(d < demands.size());
        p.demand.push_back(d < demands.size() ? demands[d] : 0.);
        MC_LOG(c, "participant: long " << p.supply[i].first << " short " << p.supply[i].second << (p.interested[i] ? MC_STR(" demands " << p.demand[i]) : std::string(" no interest")));
    }
    return p;
}

// excess demand of given shapes, for the solvers
struct shape: walras::differentiable_order_message
{
    int kind; std::vector<pid> ids; std::vector<double> a; double k;
    shape(int kind, std::vector<pid> ids, std::vector<double> a, double k): differentiable_order_message(aid({2}), aid({1})), kind(kind), ids(ids), a(a), k(k) {}
    std::map<pid, variable> excess_demand(const std::map<pid, std::tuple<quote, variable>> &q) const override
    {
        std::map<pid, variable> r; std::vector<variable> x;
        for(auto &i: ids) x.push_back(std::get<1>(q.find(i)->second));
        for(size_t i = 0; i < ids.size(); ++i) {
            variable v = 0.;
            if(kind == 0) v = variable(a[i]) - x[i];                                 // linear
            else if(kind == 1) v = variable(a[i] * a[i]) - x[i] * x[i];              // quadratic
            else if(kind == 2) v = variable(a[i]) / x[i] - variable(1.);             // wealth over price, less supply
            else { v = variable(a[i]) - x[i]; for(size_t j = 0; j < ids.size(); ++j) if(j != i) v += variable(k) * (variable(a[j]) - x[j]); }  // substitutes
            r.emplace(ids[i], v);
        }
        return r;
    }
};

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C31");
    static const std::vector<double> aims{0.5, 1., 1.25, 2., 0.001, 100.};
    std::vector<double> many{-5.25, -3.25, -2.25, -1.25, 0., 0.75, 1.25, 2.25, 3.25}, few{-3.25, -1.25, 0., 1.25, 3.25};
    for(size_t n: {2, 3}) if(n == 2 || true) r.scope(MC_STR(n << " participants, one property"), [=](mc::ctx &c) {
        uint32_t lot = c.pick(std::vector<uint32_t>{1, 100}); int64_t p = c.pick(std::vector<int64_t>{1, 435, 1000001});
        double aim = c.pick(aims);
        world w(c, n + 1, {p}, {lot});
        w.open();
        std::vector<participant> who; for(size_t i = 0; i < n; ++i) who.push_back(choose(c, 1, n == 2 ? many : few, false));
        w.clear(who, {aim});
    });
    r.scope("two participants, two properties", [=](mc::ctx &c) {
        auto aim = c.pick(std::vector<std::vector<double>>{{1., 1.}, {0.5, 2.}, {100., 0.001}});
        world w(c, 2, {435, 1000}, {1, c.pick(std::vector<uint32_t>{1, 100})});
        std::vector<participant> who; for(size_t i = 0; i < 2; ++i) who.push_back(choose(c, 2, r.thorough() ? few : std::vector<double>{-3.25, 1.25, 3.25}, true));
        w.clear(who, aim);
    });
    r.scope("two clearings", [=](mc::ctx &c) {
        world w(c, 2, {435}, {1});
        w.open();
        for(int k = 0; k < 2; ++k) {
            double aim = c.pick(std::vector<double>{0.5, 1., 2.});
            std::vector<participant> who; for(size_t i = 0; i < 2; ++i) who.push_back(choose(c, 1, few, false));
            w.clear(who, {aim});
        }
    });
    r.scope("clearing multipliers", [=](mc::ctx &c) {
        int kind = c.choose(4); size_t n = kind == 1 ? 1 : 1 + c.choose(3); size_t traders = 1 + c.choose(2);
        static const std::vector<double> roots{0.1, 0.3, 0.5, 0.9, 1., 1.1, 1.5, 2., 3., 5., 10., 0.01, 40.};
        std::vector<double> a; for(size_t i = 0; i < n; ++i) a.push_back(n == 3 ? c.pick(std::vector<double>{0.5, 1., 2.}) : c.pick(roots));
        double k = kind == 3 ? c.pick(std::vector<double>{-0.25, 0.25}) : 0;
        law::property_map<quote> t; std::vector<pid> ids;
        for(size_t i = 0; i < n; ++i) { auto p = std::make_shared<item>(pid({7, i})); ids.push_back(p->identifier); t.insert({p, quote(price(1000, currencies::USD), 1)}); }
        tatonnement::excess_demand_model model(t);
        for(size_t i = 0; i < traders; ++i) model.excess_demand_functions_.push_back(std::make_shared<shape>(kind, ids, a, k));
        c.op();
        auto x = model.compute_clearing_quotes();
        MC_CHECK(c, x.has_value() && x->size() == n, "no solution", "");
        bool inside = true; for(double v: a) inside = inside && v >= 1. / 11 && v <= 11.;
        std::ostringstream s; s << kind << ' ' << traders << ':';
        for(size_t i = 0; i < n; ++i) {
            double v = x->find(ids[i])->second; s << a[i] << '>' << v << ' ';
        }
        c.state(s.str()); MC_LOG(c, s.str());
        for(size_t i = 0; i < n; ++i) {
            double v = x->find(ids[i])->second;
            MC_CHECK(c, v >= 1. / 11 - 1e-12 && v <= 11. + 1e-12, "circuit breaker", "multiplier " << v << " " << s.str());
            if(inside) MC_CHECK(c, std::abs(v - a[i]) < 1e-2 * std::max(1., a[i]), "clearing multiplier", s.str());
        }
    });
    return r.finish();
}
