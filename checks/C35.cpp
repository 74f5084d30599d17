// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/dividend.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/stock.cpp esl/economics/iso_4217.cpp esl/economics/price.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/finance/bondholder.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
using namespace esl::economics; using namespace esl::economics::finance; using esl::identity; using esl::quantity;
namespace walras = esl::economics::markets::walras; using esl::economics::markets::quote; using esl::simulation::time_interval; using esl::simulation::time_point;
typedef identity<esl::law::property> pid; typedef identity<esl::agent> aid;

struct item: esl::law::property { item(pid i): esl::law::property(i) {} std::string name() const override { return "item"; } };
struct holder: shareholder, esl::identifiable_as<holder> { holder(): agent(aid({9})), owner<cash>(identity<esl::law::owner<cash>>({9})), owner<stock>(identity<esl::law::owner<stock>>({9})), owner<esl::law::property>(identity<esl::law::owner<esl::law::property>>({9})), shareholder(identity<shareholder>({9})) {} };
struct lender: bondholder, esl::identifiable_as<lender> { lender(): agent(aid({9})), owner<cash>(identity<esl::law::owner<cash>>({9})), owner<bond>(identity<esl::law::owner<bond>>({9})), owner<esl::law::property>(identity<esl::law::owner<esl::law::property>>({9})), bondholder(identity<bondholder>({9})) {} };
static const share_class A(0), B(1), N(0, 1, 0.f, false);

struct quoted { size_t item; int64_t price; iso_4217 unit; uint32_t lot; };

// quote messages through the real message handling; copies: another object for the same property each time
template<typename H> struct investor
{
    mc::ctx &c; H h; std::vector<std::shared_ptr<item>> items; std::map<size_t, std::pair<int64_t, iso_4217>> last; time_point now = 1;
    investor(mc::ctx &c, size_t n): c(c) { for(size_t i = 0; i < n; ++i) items.push_back(std::make_shared<item>(pid({3, i}))); h.schedule = esl::interaction::communicator::in_order; }
    esl::law::property_map<price> &known();
    // the messages of one step, in the order of their times
    void step(const std::vector<std::vector<quoted>> &messages, bool copies)
    {
        h.inbox.clear(); size_t k = 0;
        for(auto &m: messages) {
            esl::law::property_map<quote> p;
            for(auto &q: m) { p.insert({copies ? std::make_shared<item>(items[q.item]->identifier) : items[q.item], quote(price(q.price, q.unit), q.lot)}); MC_LOG(c, "at " << now << " message " << k << " quotes property " << q.item << " at " << price(q.price, q.unit)); last[q.item] = {q.price, q.unit}; }
            h.inbox.insert({now, std::make_shared<walras::quote_message>(aid({1}), aid({9}), p, now, now)}); ++k;
        }
        std::seed_seq seed{1}; auto next = h.process_messages({now, now + 3}, seed); c.op();
        MC_CHECK(c, next == now + 3, "next event", next); h.inbox.clear(); ++now;
        MC_CHECK(c, known().size() == last.size(), "known prices", known().size() << " instead of " << last.size());
        std::ostringstream s;
        for(size_t i = 0; i < items.size(); ++i) {
            auto f = known().find(items[i]); auto w = last.find(i);
            MC_CHECK(c, (f == known().end()) == (w == last.end()), "known price", "of property " << i);
            if(w != last.end()) { MC_CHECK(c, f->second.value == w->second.first && f->second.valuation == w->second.second, "latest price", "of property " << i << " is " << f->second << ", last quoted at " << price(w->second.first, w->second.second)); s << i << ':' << f->second << ' '; }
        }
        c.state(s.str());
    }
};
template<> esl::law::property_map<price> &investor<holder>::known() { return h.prices; }
template<> esl::law::property_map<price> &investor<lender>::known() { return h.bond_prices; }

template<typename H> static void quotes(mc::runner &r, const std::string &who)
{
    static const std::vector<std::pair<int64_t, iso_4217>> values{{0, currencies::USD}, {5, currencies::USD}, {5, currencies::EUR}, {-7, currencies::USD}};
    int depth = r.bound(4, 5);
    r.scope(MC_STR(who << ": every history of " << depth << " quote messages for two properties, in one step or several"), [=](mc::ctx &c) {
        investor<H> x(c, 2); bool copies = c.flip(); std::vector<std::vector<quoted>> batch;
        for(int d = 0; d < depth; ++d) {
            std::vector<quoted> m; uint32_t v = c.choose(9);            // property 0, 1 or both
            if(v < 4) m.push_back({0, values[v].first, values[v].second, 1}); else if(v < 8) m.push_back({1, values[v - 4].first, values[v - 4].second, 100}); else { m.push_back({0, 11, currencies::USD, 1}); m.push_back({1, 12, currencies::USD, 1}); }
            batch.push_back(m);
            if(d + 1 == depth || c.flip()) { x.step(batch, copies); batch.clear(); }
        }
    });
    r.scope(who + ": many properties and messages", [=](mc::ctx &c) {
        size_t n = c.pick(std::vector<size_t>{1, 2, 7, 40, 300}), messages = c.pick(std::vector<size_t>{1, 5, 60}); uint32_t stride = 1 + c.choose(4); bool copies = c.flip(), together = c.flip();
        investor<H> x(c, n); std::vector<std::vector<quoted>> batch;
        for(size_t k = 0; k < messages; ++k) {
            std::vector<quoted> m; for(size_t i = k % stride; i < n; i += stride) m.push_back({i, int64_t(1000 * k + i), (i + k) % 3 ? currencies::USD : currencies::EUR, 1});
            batch.push_back(m); if(!together || k + 1 == messages) { x.step(batch, copies); batch.clear(); }
        }
    });
}

// announcements to one shareholder
struct announcement { int company; time_point ex; };
static dividend_policy policy(time_point ex) { return dividend_policy(ex, ex, {0, 100}, ex + 5, currencies::USD, {{A, {1, price(5, currencies::USD)}}}); }
struct registered
{
    mc::ctx &c; holder h; std::map<int, std::map<share_class, uint64_t>> shares; std::set<std::pair<time_point, int>> pending; 
    registered(mc::ctx &c): c(c) { h.schedule = esl::interaction::communicator::in_order; }
    static identity<company> id(int k) { return identity<company>({2, uint64_t(k)}); }
    void hold(int k, const share_class &s, uint64_t n) { h.shares[id(k)][s] = n; shares[k][s] = n; MC_LOG(c, "holds " << n << " shares of rank " << int(s.rank) << " in company " << k); }
    void step(time_point now, time_point upper, const std::vector<announcement> &as)
    {
        h.inbox.clear(); h.outbox.clear(); std::multiset<int> want;
        for(auto &a: as) {
            h.inbox.insert({now, [&] { auto m = std::make_shared<dividend_announcement_message>(id(a.company), aid({9}), policy(a.ex)); m->sent = m->received = now; return m; }()});
            MC_LOG(c, "step [" << now << ", " << upper << "): company " << a.company << " announces a dividend, ex date " << a.ex); pending.insert({a.ex, a.company});
        }
        // any announcement makes the shareholder look at all dates it knows
        std::set<std::pair<time_point, int>> done;
        if(!as.empty()) for(auto &p: pending) if(p.first >= now && p.first < upper && shares.count(p.second)) { want.insert(p.second); done.insert(p); }
        for(auto &p: done) pending.erase(p);
        auto held = h.shares; std::seed_seq seed{1}; auto next = h.process_messages({now, upper}, seed); c.op();
        MC_CHECK(c, next == upper, "next event", next);
        std::multiset<int> got; std::ostringstream s;
        for(auto &m: h.outbox) {
            auto d = std::dynamic_pointer_cast<dividend_record>(m); MC_CHECK(c, d, "message", "of another kind");
            MC_CHECK(c, d->sender == aid({9}) && d->recipient.digits.size() == 2 && d->recipient.digits[0] == 2, "record parties", "from " << d->sender << " to " << d->recipient);
            int k = d->recipient.digits[1]; got.insert(k); s << k << ' ';
            MC_CHECK(c, d->received <= now, "record delivery", "at " << d->received << " in step from " << now);
            MC_CHECK(c, shares.count(k) && d->shares_on_record == shares[k], "shares on record", "company " << k << " gets a record of " << d->shares_on_record.size() << " classes");
        }
        MC_CHECK(c, got == want, "records", got.size() << " records instead of " << want.size());
        MC_CHECK(c, h.shares == held, "shares", "changed");
        h.inbox.clear(); h.outbox.clear(); c.state(MC_STR(now << ' ' << s.str() << h.ex_dividend_dates.size()));
    }
};

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C35");
    quotes<holder>(r, "shareholder"); quotes<lender>(r, "bondholder");
    int steps = 3; bool deep = r.thorough();
    r.scope(MC_STR("records of dividends: every history of " << steps << " steps with up to two announcements"), [=](mc::ctx &c) {
        registered x(c); for(int k = 0; k < 2; ++k) { uint32_t n = k && !deep ? 2 : c.choose(3); if(n) x.hold(k, A, n); if(n == 2) x.hold(k, k ? N : B, 7); }
        std::set<std::pair<time_point, int>> used; time_point now = 1;
        for(int d = 0; d < steps; ++d) {
            time_point upper = now + 1 + c.choose(2); uint32_t n = c.choose(3); std::vector<announcement> as;
            for(uint32_t i = 0; i < n; ++i) { announcement a{int(c.choose(2)), 0}; uint32_t e = deep ? c.choose(4) : 1 + c.choose(3); a.ex = e == 0 ? now - 1 : e == 1 ? now : e == 2 ? upper - 1 : upper + 1; if(used.insert({a.ex, a.company}).second) as.push_back(a); }
            // dates at the very end of a step belong to the next one, and are left out here
            bool edge = false; for(auto &p: x.pending) edge = edge || p.first == upper; for(auto &a: as) edge = edge || a.ex == upper;
            if(edge) return;
            x.step(now, upper, as); now = upper;
        }
    });
    r.scope("records of many dividends at once", [=](mc::ctx &c) {
        registered x(c); int n = c.pick(std::vector<int>{1, 3, 10, 65, 200}), skip = 1 + c.choose(3); uint32_t order = c.choose(3);
        for(int k = 0; k < n; ++k) if(k % skip == 0) { x.hold(k, A, k + 1); if(k % 2) x.hold(k, B, 1ull << 40); }
        std::vector<announcement> as; for(int k = 0; k < n; ++k) { int j = order == 0 ? k : order == 1 ? n - 1 - k : (k % 2 ? n - 1 - k / 2 : k / 2); as.push_back({j, time_point(4 + j % 3)}); }
        x.step(4, 7, as); x.step(7, 9, {{n + 1, 7}});
    });
    return r.finish();
}
