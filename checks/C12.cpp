// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/log.cpp esl/data/output_base.cpp esl/data/severity.cpp esl/data/stream.cpp esl/data/terminal.cpp esl/economics/asset.cpp esl/economics/iso_4217.cpp esl/economics/price.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include <functional>
#include "book.hpp"
#include <esl/economics/markets/centralized_exchange.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
using namespace ob; using simulation::time_point;
typedef identity<law::property> pid; typedef identity<agent> aid;

static const std::vector<ticker> &tickers() { static const std::vector<ticker> t{ticker(pid({1}), pid({2})), ticker(pid({2}), pid({1})), ticker(pid({1}), pid({1, 0}))}; return t; }
static std::shared_ptr<basic_book> new_book(bool fixed)
{
    if(fixed) return std::make_shared<static_order_book>(quote(price(1, currency()), 100), quote(price(9, currency()), 100), 128);
    return std::make_shared<binary_tree_order_book>();
}
// messages to different recipients take different times
struct by_recipient : interaction::communication::latency_model { simulation::time_duration sample(const aid &, const aid &to, std::seed_seq &) override { return to.digits.at(0); } };

struct exchange
{
    mc::ctx &c; centralized_exchange x; std::vector<std::shared_ptr<basic_book>> twin; time_point now = 3; bool slow;
    std::map<std::pair<int, uint64_t>, uint64_t> positions;        // (ticker, participant) -> supply
    std::set<std::pair<int, uint64_t>> streams; int traded; uint64_t people = 3;
    exchange(mc::ctx &c, bool fixed, int traded, int books, bool slow)
    : c(c), x(identity<centralized_exchange>({50}), std::vector<ticker>(tickers().begin(), tickers().begin() + traded)), slow(slow), traded(traded)
    {
        for(int i = 0; i < books; ++i) { x.books.emplace(tickers()[i], new_book(fixed)); twin.push_back(new_book(fixed)); }
        if(slow) x.communication_model = std::make_shared<by_recipient>();
        x.schedule = interaction::communicator::in_order;
    }
    time_point late(uint64_t who) const { return now + (slow ? who : 0); }
    // hands over messages and takes what the exchange sends
    std::vector<std::shared_ptr<interaction::header>> out; bool error = false;
    template<typename T> void deliver(std::shared_ptr<T> m, uint64_t from) { m->sender = aid({from}); m->recipient = aid({50}); m->sent = m->received = now; x.inbox.insert({now, m}); }
    void run()
    {
        out.clear(); error = false; std::seed_seq seed{1};
        try { auto next = x.process_messages({now, 1000000}, seed); MC_CHECK(c, next == 1000000, "next event", "the exchange wants to act at " << next); } catch(const mc::violation &) { throw; } catch(const std::exception &) { error = true; }
        for(auto &m: x.outbox) out.push_back(m);
        x.outbox.clear(); x.inbox.clear(); ++now; c.op();
    }
    // the messages expected, in any order
    std::multiset<std::string> want;
    static std::string text(const quote &q) { return MC_STR(std::get<price>(q.type).value << std::string(std::get<price>(q.type).valuation) << '/' << q.lot); }
    static std::string text(const ticker &t) { return MC_STR(t.base << '-' << t.quote); }
    static std::string text(const execution_report &r) { static const char *n[] = {"invalid", "cancel", "match", "placement"}; return MC_STR(n[r.state] << (r.side == limit_order::buy ? " buy " : " sell ") << r.quantity << " id " << r.identifier << " at " << text(r.limit) << " of " << r.owner); }
    static std::string head(const aid &to, time_point at) { return MC_STR("to " << to << " at " << at << ": "); }
    static std::string details(const limit_order &o) { return MC_STR(" order " << text(o.symbol) << (o.side == limit_order::buy ? " buy " : " sell ") << o.quantity << " at " << text(o.limit) << " of " << o.owner << " lifetime " << int(o.lifetime)); }
    void want_report(const execution_report &r, const limit_order *o, const ticker &t) { want.insert(head(r.owner, late(r.owner.digits.at(0))) + text(r) + (o ? details(*o) : MC_STR(" cancellation in " << text(t)))); }
    void want_data(int t, uint64_t who, const std::vector<std::pair<quote, size_t>> &trades)
    {
        std::multiset<std::string> tr; for(auto &[q, n]: trades) tr.insert(MC_STR(n << '@' << text(q))); std::string s; for(auto &e: tr) s += e + ' ';
        auto a = twin[t]->ask(), b = twin[t]->bid();
        want.insert(head(aid({who}), late(who)) + MC_STR("data for " << text(tickers()[t]) << " ask " << (a ? text(*a) : "-") << " bid " << (b ? text(*b) : "-") << " trades " << s));
    }
    void compare(bool cancellation)
    {
        std::multiset<std::string> got;
        for(auto &m: out) {
            MC_CHECK(c, m->sender == aid({50}) && m->sent == now - 1, "header", "message from " << m->sender);
            if(auto e = std::dynamic_pointer_cast<execution_report_message>(m)) got.insert(head(m->recipient, m->received) + text(e->report) + (cancellation ? MC_STR(" cancellation in " << text(e->order.symbol)) : details(e->order)));
            else if(auto d = std::dynamic_pointer_cast<market_data_message>(m)) {
                std::multiset<std::string> tr; for(auto &[q, n]: d->trades) tr.insert(MC_STR(n << '@' << text(q))); std::string s; for(auto &e: tr) s += e + ' ';
                MC_CHECK(c, d->ask.size() <= 1 && d->bid.size() <= 1, "market data", "several best quotes");
                got.insert(head(m->recipient, m->received) + MC_STR("data for " << text(d->symbol) << " ask " << (d->ask.empty() ? "-" : text(d->ask[0].first)) << " bid " << (d->bid.empty() ? "-" : text(d->bid[0].first)) << " trades " << s));
            } else got.insert("unknown message");
        }
        auto show = [](const std::multiset<std::string> &v) { std::string s; for(auto &e: v) s += "\n      " + e; return s; };
        if(c.verbose) MC_LOG(c, "    sends" << show(got));
        MC_CHECK(c, got == want, "messages", "the exchange sends" << show(got) << "\n    instead of" << show(want));
        want.clear();
        std::string st;
        for(size_t i = 0; i < twin.size(); ++i) {
            auto &b = *x.books.at(tickers()[i]); auto o = b.orders(), w = twin[i]->orders(); std::sort(o.begin(), o.end()); std::sort(w.begin(), w.end());
            MC_CHECK(c, o == w && b.bid() == twin[i]->bid() && b.ask() == twin[i]->ask() && b.reports.empty(), "book", "the book of ticker " << i << " has " << o.size() << " orders instead of " << w.size());
            st += MC_STR(o.size() << (b.bid() ? text(*b.bid()) : "-") << (b.ask() ? text(*b.ask()) : "-") << '|');
        }
        MC_CHECK(c, x.books.size() == twin.size(), "books", "number of books");
        for(auto &[t, m]: x.market_data_subscriptions) for(auto &[who, d]: m) { int i = std::find(tickers().begin(), tickers().end(), t) - tickers().begin(); MC_CHECK(c, streams.count({i, who.digits.at(0)}), "subscription", who << " is subscribed"); }
        for(int i = 0; i < 3; ++i) for(uint64_t p = 1; p <= people; ++p) {
            const centralized_exchange::position_report *r = nullptr; auto f = x.positions.find(tickers()[i]); if(f != x.positions.end()) { auto g = f->second.find(aid({p})); if(g != f->second.end()) r = &g->second; }
            auto w = positions.find({i, p}); MC_CHECK(c, bool(r) == (w != positions.end()), "positions", "participant " << p << (r ? " has a position" : " has no position") << " in ticker " << i);
            if(r) MC_CHECK(c, r->supply == w->second && r->bought == 0 && r->sold == 0, "positions", "participant " << p << " has position " << *r << " in ticker " << i << " instead of " << w->second);
            st += r ? std::to_string(r->supply) : "."; }
        for(auto &s: streams) st += MC_STR(s.first << s.second << ' ');
        c.state(st);
    }
    std::vector<execution_report> reports(int t) { auto r = twin[t]->reports; twin[t]->reports.clear(); return r; }
    // what one order leads to
    void expect_order(int t, const limit_order &o)
    {
        auto a = twin[t]->ask(), b = twin[t]->bid(); twin[t]->insert(o); auto rs = reports(t); std::vector<std::pair<quote, size_t>> trades;
        for(auto &r: rs) { want_report(r, &o, o.symbol); if(r.state == execution_report::match && r.side == o.side) trades.push_back({r.limit, r.quantity}); }
        if(!trades.empty() || a != twin[t]->ask() || b != twin[t]->bid()) for(auto &[i, who]: streams) if(i == t) want_data(t, who, trades);
    }
    limit_order make(int t, uint64_t owner, limit_order::side_t s, int64_t p, uint32_t n, life_t l) { return limit_order(tickers()[t], aid({owner}), s, quote(price(p, currency()), 100), n, l); }
    void queue(const limit_order &o, uint64_t sender) { auto m = std::make_shared<new_order_single_message>(); m->order_details = o; deliver(m, sender); }
    void order(int t, uint64_t owner, limit_order::side_t s, int64_t p, uint32_t n, life_t l, uint64_t sender)
    {
        MC_LOG(c, "order for ticker " << t << " of " << owner << (s == limit_order::buy ? " to buy " : " to sell ") << n << " at " << p << " lifetime " << int(l) << " sent by " << sender);
        auto o = make(t, owner, s, p, n, l); queue(o, sender);
        if(t >= int(twin.size())) { run(); MC_CHECK(c, error, "unknown ticker", "an order for a ticker without a book is accepted"); compare(false); return; }
        expect_order(t, o); run(); MC_CHECK(c, !error, "error", "unexpected error"); compare(false);
    }
    void cancel(int t, uint64_t id, uint64_t from)
    {
        MC_LOG(c, "cancellation of " << id << " for ticker " << t);
        auto m = std::make_shared<cancel_order_message>(); m->symbol = tickers()[t]; m->order = id; deliver(m, from);
        if(t < int(twin.size())) { twin[t]->cancel(id); for(auto &r: reports(t)) want_report(r, nullptr, tickers()[t]); }
        run(); MC_CHECK(c, !error, "error", "unexpected error"); compare(true);
    }
    void data(int kind, const std::vector<int> &ts, uint64_t who)
    {
        static const char *n[] = {"snapshot", "subscription", "cancels its subscription"}; MC_LOG(c, who << ": " << n[kind] << " of " << ts.size() << " tickers");
        std::vector<ticker> v; for(int t: ts) v.push_back(tickers()[t]);
        auto m = std::make_shared<market_data_request_message>(aid({who}), aid({50}), now, now, v, market_data_request_message::request_t(kind), 1); deliver(m, who);
        for(int t: ts) { if(kind == 0 && t < int(twin.size())) want_data(t, who, {}); if(kind == 1) streams.insert({t, who}); if(kind == 2) streams.erase({t, who}); }
        run(); MC_CHECK(c, !error, "error", "unexpected error"); compare(false);
    }
    void logon(uint64_t who, const std::map<int, uint64_t> &supply)
    {
        auto m = std::make_shared<logon_message>(); for(auto &[t, n]: supply) m->supply.emplace(tickers()[t], n); deliver(m, who); MC_LOG(c, who << " logs on with supply of " << supply.size() << " tickers");
        for(int t = 0; t < traded; ++t) { auto f = supply.find(t); positions[{t, who}] = f == supply.end() ? 0 : f->second; }
        run(); MC_CHECK(c, !error, "error", "unexpected error"); compare(false);
    }
    void logoff(uint64_t who)
    {
        deliver(std::make_shared<logout_message>(), who); for(int t = 0; t < 3; ++t) positions.erase({t, who}); MC_LOG(c, who << " logs off");
        run(); MC_CHECK(c, !error, "error", "unexpected error"); compare(false);
    }
};
static const limit_order::side_t sides[] = {limit_order::buy, limit_order::sell}; static const life_t lives[] = {GTC, IOC, FOK};

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C12");
    bool r_thorough = r.thorough();
    for(bool fixed: {false, true}) {
        std::string k = fixed ? "static books" : "tree books";
        int n1 = 2, n2 = r.bound(4, 5);
        r.scope(MC_STR(k << ": " << n1 << " orders after a resting one, all owners, senders, tickers and lifetimes"), [=](mc::ctx &c) {
            exchange e(c, fixed, 3, 2, c.flip()); if(!r_thorough || c.flip()) e.data(1, {0}, 3);
            e.order(0, 1, sides[c.choose(2)], 5, 2, GTC, 1);
            for(int d = 0; d < n1; ++d) { int t = c.choose(3); if(t == 2 && d) t = 0; uint64_t o = 1 + c.choose(2), s = d == 0 && c.flip() ? 3 - o : o; auto side = sides[c.choose(2)]; auto p = 4 + c.choose(3); auto q = std::vector<uint32_t>{1, 3, 0, 2}[c.choose(r_thorough ? 4 : 3)]; e.order(t, o, side, p, q, lives[c.choose(3)], s); }
        });
        r.scope(MC_STR(k << ": every sequence of " << n2 << " orders and cancellations"), [=](mc::ctx &c) {
            exchange e(c, fixed, 2, 2, false); e.data(1, {0, 1}, 3);
            for(int d = 0; d < n2; ++d) {
                std::set<uint64_t> ids; for(int t = 0; t < 2; ++t) for(auto i: e.twin[t]->orders()) ids.insert(i); ids.insert(ids.empty() ? 0 : *ids.rbegin() + 1); std::vector<uint64_t> v(ids.begin(), ids.end());
                uint32_t o = c.choose(8 + v.size()); int t = d == 0 ? 0 : c.choose(2);
                if(o < 8) e.order(t, 1 + d % 2, sides[o & 1], o & 2 ? 4 : 6, o & 4 ? 1 : 2, GTC, 1 + d % 2); else e.cancel(t, v[o - 8], 2);
            }
            e.cancel(2, 1, 1);
        });
        r.scope(MC_STR(k << ": every sequence of " << n2 << " subscriptions and orders"), [=](mc::ctx &c) {
            exchange e(c, fixed, 2, 2, c.flip());
            for(int d = 0; d < n2; ++d) {
                uint32_t o = c.choose(12);
                if(o < 8) { uint64_t who = 3 + (o & 1); int t = o >> 1 & 1; int kind = o & 4 ? 2 : 1; e.data(kind, {t}, who); }
                else if(o < 11) e.order(0, 1, sides[o == 9], 5, o == 10 ? 3 : 1, GTC, 1);
                else e.order(1, 2, sides[d & 1], 5, 1, GTC, 2);
            }
            e.data(0, {0, 1, 2}, 5); e.order(0, 1, sides[0], 5, 1, IOC, 1); e.order(1, 1, sides[1], 5, 1, GTC, 1);
        });
        r.scope(MC_STR(k << ": every pair of orders processed at once"), [=](mc::ctx &c) {
            exchange e(c, fixed, 2, 2, false); e.data(1, {0}, 3); e.order(0, 1, sides[0], 4, 2, GTC, 1); e.order(0, 1, sides[1], 6, 2, GTC, 1);
            std::vector<limit_order> os; for(int d = 0; d < 2; ++d) { os.push_back(e.make(0, 1 + d, sides[c.choose(2)], 4 + c.choose(3), 1 + c.choose(3), lives[c.choose(3)])); e.queue(os.back(), 1 + d); }
            for(auto &o: os) e.expect_order(0, o);
            e.run(); MC_CHECK(c, !e.error, "error", "unexpected error"); e.compare(false);
        });
    }
    r.scope("many participants in regular patterns", [=](mc::ctx &c) {
        uint64_t n = c.pick(r_thorough ? std::vector<int>{4, 5, 8, 9, 16, 17, 33, 65, 100} : std::vector<int>{4, 5, 9, 17, 33}); bool fixed = c.flip(), batch = c.flip(); int who = c.choose(3), away = c.choose(3);
        exchange e(c, fixed, 3, 2, c.flip()); e.people = n;
        for(uint64_t p = 1; p <= n; ++p) { e.logon(p, p % 3 == 0 ? std::map<int, uint64_t>{} : std::map<int, uint64_t>{{0, p}, {2, p * 1000000007ull}}); e.data(1, p % 3 == 0 ? std::vector<int>{0, 1} : std::vector<int>{int(p % 2)}, p); }
        for(int round = 0; round < 3; ++round) {
            std::vector<limit_order> os;
            for(uint64_t p = 1; p <= std::min<uint64_t>(n, 15); ++p) {
                auto side = sides[who == 0 ? p % 2 : who == 1 ? p > n / 2 : (p + round) % 3 == 0]; int64_t at = who == 1 ? 5 : side == limit_order::buy ? 3 + p % 3 : 5 + p % 3; auto l = lives[who == 2 && p % 4 == 0 ? 1 + p / 4 % 2 : 0]; uint32_t q = 1 + p % 4;
                if(batch) { os.push_back(e.make(0, p, side, at, q, l)); e.queue(os.back(), p); } else e.order(p % 2, p, side, at, q, l, p);
            }
            if(batch) { for(auto &o: os) e.expect_order(0, o); e.run(); MC_CHECK(c, !e.error, "error", "unexpected error"); e.compare(false); }
            for(uint64_t p = 1; p <= n; ++p) { if(away == 1 && int(p % 3) == round) { e.logoff(p); e.data(2, {0, 1}, p); } if(away == 2 && int(p % 2) == round % 2) e.data(2, {int(p % 2)}, p); }
            for(int t = 0; t < 2; ++t) { auto ids = e.twin[t]->orders(); for(size_t i = 0; i < ids.size(); i += 2 + round) e.cancel(t, ids[i], 1); }
        }
    });
    int n3 = r.bound(5, 6);
    r.scope(MC_STR("every sequence of " << n3 << " logons and logoffs of three participants"), [=](mc::ctx &c) {
        exchange e(c, false, 3, 1, false); static const std::vector<std::map<int, uint64_t>> supply{{}, {{0, 5}}, {{0, 1}, {2, 7}}};
        for(int d = 0; d < n3; ++d) {
            uint64_t p = 1 + c.choose(3);
            bool in = e.positions.count({0, p}); uint32_t o = c.choose(in ? 1 : 4);
            if(in || o == 3) e.logoff(p); else e.logon(p, supply[o]);
        }
        e.order(0, 1, sides[0], 5, 1, GTC, 1);
    });
    return r.finish();
}
