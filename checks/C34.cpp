// mc-sources: esl/economics/markets/impact_function/market.cpp esl/law/property.cpp esl/economics/asset.cpp esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
#include "mc.hpp"
#include <esl/economics/markets/impact_function/market.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/interaction/transfer.hpp>
#include <cmath>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
typedef identity<law::property> pid;
typedef identity<agent> aid;
typedef impact_function::order_message order_t;

struct item: law::property, fungible { item(pid i): law::property(i) {} std::string name() const override { return "item"; } };
struct market_under_test: impact_function::market
{
    market_under_test(law::property_map<quote> t): agent(identity<agent>({1})), impact_function::market(identity<impact_function::market>({1}), t) {}
};

struct named { const char *name; std::function<double(double)> f; };
static const std::vector<named> &functions()
{
    static const std::vector<named> f{
        {"no impact", [](double) { return 0.; }},
        {"a tenth of the volume", [](double v) { return v / 10.; }},
        {"twice the volume", [](double v) { return v * 2.; }},
        {"square root", [](double v) { return (v > 0) - (v < 0) ? ((v > 0) - (v < 0)) * std::sqrt(std::abs(v)) : 0.; }},
        {"buying only", [](double v) { return v > 0 ? v : 0.; }},
        {"constant", [](double) { return 0.25; }},
        {"steps", [](double v) { return std::floor(v / 3.); }},
    };
    return f;
}

struct request { std::vector<int64_t> volume; std::vector<bool> stated; };   // signed volumes for each property

struct world
{
    mc::ctx &c; std::vector<uint32_t> lots; std::vector<int64_t> prices; std::vector<std::shared_ptr<item>> items; std::shared_ptr<market_under_test> m; std::vector<aid> agents;
    uint64_t time; std::function<double(double)> f; size_t cleared = 0;

    world(mc::ctx &c, size_t participants, std::vector<int64_t> p, std::vector<uint32_t> l, const named &f, uint64_t at): c(c), lots(l), prices(p), time(at), f(f.f)
    {
        law::property_map<quote> t;
        for(size_t i = 0; i < p.size(); ++i) { items.push_back(std::make_shared<item>(pid({7, i}))); t.insert({items[i], quote(price(p[i], currencies::USD), lots[i])}); }
        m = std::make_shared<market_under_test>(t); m->impact_function = f.f;
        for(size_t i = 0; i < participants; ++i) { agents.push_back(aid({2, i})); m->participants.insert(reinterpret_identity_cast<law::owner<law::property>>(agents[i])); }
        MC_LOG(c, "market of " << p.size() << " properties and " << participants << " participants, impact: " << f.name);
    }

    // what every participant is told, and what is recorded
    void outcome()
    {
        std::map<aid, int> seen;
        for(auto &x: m->outbox) {
            auto q = std::dynamic_pointer_cast<impact_function::quote_message>(x);
            MC_CHECK(c, q, "message", "of another kind is sent");
            ++seen[q->recipient];
            MC_CHECK(c, q->sender == m->identifier && q->received == time + 1 && q->proposed.size() == prices.size(), "quote message", "with " << q->proposed.size() << " quotes at " << q->received);
            for(size_t i = 0; i < prices.size(); ++i) {
                auto k = q->proposed.find(items[i]);
                MC_CHECK(c, k != q->proposed.end(), "quote of a property", i << " missing");
                MC_CHECK(c, std::get<price>(k->second.type).value == prices[i] && std::get<price>(k->second.type).valuation == currencies::USD && k->second.lot == lots[i], "quoted price", "of property " << i << " is " << k->second << ", should be " << prices[i]);
            }
        }
        for(auto &a: agents) MC_CHECK(c, seen[a] == 1, "quote to every participant", seen[a] << " for " << a);
        MC_CHECK(c, seen.size() == agents.size(), "quote to others", "");
        MC_CHECK(c, m->traded_properties.size() == prices.size(), "traded properties", m->traded_properties.size());
        auto &o = m->output_clearing_prices_->values; MC_CHECK(c, o.size() == cleared, "clearing prices output", o.size() << " records of " << cleared);
        std::ostringstream s; for(auto x: prices) s << x << ' '; c.state(s.str());
    }
    // r: the orders of the first participants, possibly none
    void step(const std::vector<request> &r, bool reversed, uint64_t later = 1)
    {
        m->inbox.clear(); m->outbox.clear();
        std::vector<std::shared_ptr<order_t>> orders;
        for(size_t i = 0; i < r.size(); ++i) {
            auto o = std::make_shared<order_t>(agents[i], m->identifier); o->sent = o->received = time;
            for(size_t p = 0; p < prices.size(); ++p) if(r[i].stated[p]) o->volumes.insert({items[p], {uint64_t(std::abs(r[i].volume[p])), r[i].volume[p] < 0 ? order_t::sell : order_t::buy}});
            orders.push_back(o);
        }
        if(reversed) std::reverse(orders.begin(), orders.end());
        for(auto &o: orders) m->inbox.insert({time, o});
        std::seed_seq seed{1}; c.op();
        auto next = m->process_messages({time, time + later}, seed);
        MC_CHECK(c, next == time + later, "next event", "after messages: " << next);
        next = m->act({time, time + later}, seed);
        MC_CHECK(c, next >= time && next <= time + later, "next event", next);
        for(size_t p = 0; p < prices.size(); ++p) {
            int64_t net = 0; bool any = false; for(auto &x: r) if(x.stated[p]) { any = true; net += x.volume[p]; }
            double due = double(prices[p]); if(any) due = std::max(1., due + f(double(net)) * 100. * lots[p]);
            int64_t v = std::get<price>(m->traded_properties.find(items[p])->second.type).value;
            MC_LOG(c, "property " << p << " at " << prices[p] << " net volume " << net << ", next " << v);
            // any rounding is accepted
            MC_CHECK(c, any ? v >= 1 && std::abs(double(v) - due) < 1. + (due + prices[p]) * 1e-14 : v == prices[p], "price", "of property " << p << " is " << v << ", was " << prices[p] << " at a net volume of " << net << ", should be " << due);
            prices[p] = v;
        }
        if(r.size()) ++cleared;
        outcome();
        if(r.size()) {
            auto &[t, v] = m->output_clearing_prices_->values.back(); std::multiset<int64_t> a, b; for(auto &x: v) a.insert(x.value); for(auto x: prices) b.insert(x);
            MC_CHECK(c, t == time && a == b, "clearing prices output", v.size() << " prices at " << t << " differ from those quoted");
        }
        time += later;
    }
};

static request choose(mc::ctx &c, size_t properties, const std::vector<int64_t> &volumes)
{
    request r;
    for(size_t i = 0; i < properties; ++i) {
        uint32_t d = c.choose(volumes.size() + 1);
        r.stated.push_back(d < volumes.size()); r.volume.push_back(d < volumes.size() ? volumes[d] : 0);
        MC_LOG(c, "order for property " << i << (r.stated[i] ? MC_STR(" of " << r.volume[i]) : std::string(": none")));
    }
    return r;
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C34");
    static const std::vector<int64_t> volumes{-7, -1, 0, 1, 5}; static const std::vector<int64_t> prices{1, 435, 1000001};
    bool deep = r.thorough();
    for(size_t n: {1, 2, 3}) r.scope(MC_STR("one property, " << n << " orders"), [=](mc::ctx &c) {
        auto &f = functions()[c.choose(functions().size())]; auto lot = c.pick(std::vector<uint32_t>{1, 100}); auto p = c.pick(prices); auto at = c.pick(std::vector<uint64_t>{0, 1, 5});
        world w(c, n + c.choose(2), {p}, {lot}, f, at);
        for(uint32_t k = 0, idle = 1 + c.choose(2); k < idle; ++k) w.step({}, false);
        std::vector<request> q; for(size_t i = 0; i < n; ++i) q.push_back(choose(c, 1, volumes));
        w.step(q, n > 1 && c.choose(2), 1 + 9 * c.choose(2));
    });
    r.scope("two properties, two orders", [=](mc::ctx &c) {
        auto &f = functions()[c.choose(functions().size())]; auto lots = c.pick(std::vector<std::vector<uint32_t>>{{1, 1}, {100, 1}}); auto p = c.pick(prices);
        world w(c, 2, {p, 250}, lots, f, 5); w.step({}, false);
        std::vector<request> q; for(size_t i = 0; i < 2; ++i) q.push_back(choose(c, 2, volumes));
        w.step(q, c.choose(2));
    });
    r.scope("histories", [=](mc::ctx &c) {
        auto &f = functions()[1 + c.choose(functions().size() - 1)];
        world w(c, 2, {435, 20}, {1, 10}, f, c.choose(2)); w.step({}, false);
        for(int k = 0; k < (deep ? 4 : 3); ++k) {
            std::vector<request> q; size_t n = c.choose(3);
            for(size_t i = 0; i < n; ++i) q.push_back(deep ? choose(c, 2, {-4, 3}) : choose(c, 2, {i ? 3 : -4}));
            w.step(q, false, 1 + c.choose(2));
        }
    });
    r.scope("many participants and properties, volumes of every magnitude", [=](mc::ctx &c) {
        size_t n = c.pick(std::vector<size_t>{1, 2, 5, 17, 64, 300}), ps = c.pick(std::vector<size_t>{1, 2, 9, 40});
        auto &f = functions()[c.choose(functions().size())]; uint32_t pattern = c.choose(4), size = c.choose(deep ? 30 : 10); int64_t unit = int64_t(1) << (deep ? size : 3 * size);
        std::vector<int64_t> p; std::vector<uint32_t> l; for(size_t i = 0; i < ps; ++i) { p.push_back(1 + 977 * i + unit / 3); l.push_back(1 + 99 * (i % 2)); }
        world w(c, n, p, l, f, 3); w.step({}, false);
        for(int k = 0; k < 2; ++k) {
            std::vector<request> q;
            for(size_t i = 0; i < n; ++i) {
                request x;
                for(size_t j = 0; j < ps; ++j) {
                    int64_t v = pattern == 0 ? unit : pattern == 1 ? (i % 2 ? -unit : unit) : pattern == 2 ? unit * int64_t((i + j) % 3) - unit + 1 : int64_t(i + 1) - int64_t(j);
                    x.stated.push_back(pattern != 3 || (i + j) % 2); x.volume.push_back(v);
                }
                q.push_back(x);
            }
            w.step(q, k, 1);
        }
    });
    return r.finish();
}
