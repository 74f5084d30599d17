// Reference limit order book (price-time priority) and lockstep driver for the order books of ESL.
#pragma once
#include "mc.hpp"
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/basic_book.hpp>

namespace ob {

using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;

typedef limit_order::lifetime_t life_t;
constexpr life_t GTC = life_t::good_until_cancelled, FOK = life_t::fill_or_kill, IOC = life_t::immediate_or_cancel;

struct order_t
{
    limit_order::side_t side; int64_t price; uint32_t quantity; life_t life; uint64_t owner; uint32_t lot;
};

inline std::string show(const order_t &o)
{
    return MC_STR((o.side == limit_order::buy ? "buy " : "sell ") << o.quantity << " at " << o.price << (o.life == GTC ? " GTC" : o.life == IOC ? " IOC" : " FOK")
                  << " lot " << o.lot << " owner " << o.owner);
}

// one report as the specification describes it
struct rep_t
{
    execution_report::state_t state; limit_order::side_t side; uint32_t quantity; uint64_t id; int64_t price; uint64_t owner; uint32_t lot;
    bool operator==(const rep_t &r) const { return state == r.state && side == r.side && quantity == r.quantity && id == r.id && price == r.price && owner == r.owner && lot == r.lot; }
};

inline std::string show(const rep_t &r)
{
    static const char *n[] = {"invalid", "cancel", "match", "placement"};
    return MC_STR(n[r.state] << (r.side == limit_order::buy ? " buy " : " sell ") << r.quantity << " id "
                  << (r.id == basic_book::direct_order ? std::string("direct") : std::to_string(r.id)) << " at " << r.price << " lot " << r.lot << " owner " << r.owner);
}
inline std::string show(const std::vector<rep_t> &v) { std::string s = "["; for(auto &r: v) s += show(r) + "; "; return s + "]"; }

inline iso_4217 &currency() { static iso_4217 c = currencies::USD; return c; }

inline rep_t read(mc::ctx &c, const execution_report &r)
{
    auto &p = std::get<price>(r.limit.type);
    MC_CHECK(c, p.valuation == currency(), "report currency", "report in another currency");
    MC_CHECK(c, r.owner.digits.size() == 1, "report owner", "report has owner with " << r.owner.digits.size() << " digits");
    return rep_t{r.state, r.side, r.quantity, r.identifier, p.value, r.owner.digits[0], r.limit.lot};
}

// the specification
struct reference
{
    struct resting { uint64_t id; limit_order::side_t side; int64_t price; uint32_t quantity; uint64_t owner; uint32_t lot; };
    std::vector<resting> book;      // in order of arrival
    std::set<uint64_t> issued;
    bool bounded = false; int64_t low = 0, high = 0; uint32_t lot = 0;
    size_t capacity = SIZE_MAX;

    std::vector<size_t> matches(const order_t &o) const
    {
        std::vector<size_t> r;
        for(size_t i = 0; i < book.size(); ++i) {
            auto &b = book[i];
            if(b.side == o.side) continue;
            if(o.side == limit_order::buy ? b.price <= o.price : b.price >= o.price) r.push_back(i);
        }
        std::stable_sort(r.begin(), r.end(), [&](size_t x, size_t y) {
            return o.side == limit_order::buy ? book[x].price < book[y].price : book[x].price > book[y].price; });
        return r;
    }

    // expected reports; a placement has id 0 (chosen by the implementation). `overflow` when the remainder does not fit
    std::vector<rep_t> insert(const order_t &o, bool &overflow)
    {
        overflow = false;
        std::vector<rep_t> r;
        if(bounded && (o.quantity == 0 || o.price < low || o.price > high || o.lot != lot)) {
            r.push_back({execution_report::invalid, o.side, o.quantity, basic_book::direct_order, o.price, o.owner, o.lot});
            return r;
        }
        auto m = matches(o);
        if(o.life == FOK) {
            uint64_t a = 0; for(auto i: m) a += book[i].quantity;
            if(a < o.quantity) { r.push_back({execution_report::cancel, o.side, o.quantity, basic_book::direct_order, o.price, o.owner, o.lot}); return r; }
        }
        uint32_t rem = o.quantity;
        for(auto i: m) {
            if(!rem) break;
            auto &b = book[i];
            uint32_t x = std::min(rem, b.quantity);
            rem -= x; b.quantity -= x;
            r.push_back({execution_report::match, o.side, x, basic_book::direct_order, b.price, o.owner, o.lot});
            r.push_back({execution_report::match, b.side, x, b.id, b.price, b.owner, o.lot});
        }
        book.erase(std::remove_if(book.begin(), book.end(), [](const resting &b) { return b.quantity == 0; }), book.end());
        if(rem) {
            if(o.life == IOC) r.push_back({execution_report::cancel, o.side, rem, basic_book::direct_order, o.price, o.owner, o.lot});
            else if(book.size() >= capacity) overflow = true;
            else r.push_back({execution_report::placement, o.side, rem, 0, o.price, o.owner, o.lot});
        }
        return r;
    }

    void placed(const order_t &o, uint32_t rem, uint64_t id)
    {
        book.push_back({id, o.side, o.price, rem, o.owner, o.lot});
        issued.insert(id);
    }

    std::vector<rep_t> cancel(uint64_t id)
    {
        for(size_t i = 0; i < book.size(); ++i) if(book[i].id == id) {
            auto b = book[i]; book.erase(book.begin() + i);
            return {{execution_report::cancel, b.side, b.quantity, b.id, b.price, b.owner, b.lot}};
        }
        return {};
    }

    std::string canon() const
    {
        std::ostringstream s;
        for(auto &b: book) s << b.side << ',' << b.price << ',' << b.quantity << ';';
        return s.str();
    }
};

// compare the reports, where the two reports of one trade may come in either order
inline bool same(const std::vector<rep_t> &want, const std::vector<rep_t> &got)
{
    if(want.size() != got.size()) return false;
    for(size_t i = 0; i < want.size(); ++i) {
        if(want[i].state == execution_report::match && i + 1 < want.size() && got[i].id != want[i].id) {
            if(!(got[i] == want[i + 1] && got[i + 1] == want[i])) return false;
            ++i; continue;
        }
        rep_t g = got[i];
        if(want[i].state == execution_report::placement && g.state == execution_report::placement) g.id = 0;
        if(!(g == want[i])) return false;
    }
    return true;
}

inline limit_order make(const order_t &o, const ticker &t = ticker())
{
    return limit_order(t, identity<agent>({o.owner}), o.side, quote(price(o.price, currency()), o.lot), o.quantity, o.life);
}

struct lockstep
{
    mc::ctx &c; reference &m;
    std::function<basic_book *()> book;
    std::function<void(const limit_order &)> do_insert;
    std::function<void(uint64_t)> do_cancel;
    ticker symbol;

    lockstep(mc::ctx &c, reference &m, basic_book *b): c(c), m(m), book([b]() { return b; })
    {
        do_insert = [b](const limit_order &o) { b->insert(o); };
        do_cancel = [b](uint64_t id) { b->cancel(id); };
    }

    std::vector<rep_t> take()
    {
        std::vector<rep_t> r;
        if(auto *b = book()) { for(auto &x: b->reports) r.push_back(read(c, x)); b->reports.clear(); }
        return r;
    }

    void insert(const order_t &o)
    {
        c.op();
        MC_LOG(c, show(o));
        bool overflow, threw = false;
        auto want = m.insert(o, overflow);
        std::string what;
        try { do_insert(make(o, symbol)); } catch(const std::exception &e) { threw = true; what = e.what(); }
        auto got = take();
        MC_CHECK(c, threw == overflow, "insert error", show(o) << (threw ? " throws " + what : " does not report that the book is full"));
        MC_CHECK(c, same(want, got), "reports", show(o) << " reports " << show(got) << " instead of " << show(want));
        if(!want.empty() && want.back().state == execution_report::placement) {
            uint64_t id = got.back().id;
            MC_CHECK(c, !m.issued.count(id) && id != basic_book::direct_order, "identifier", "identifier " << id << " is not fresh");
            m.placed(o, want.back().quantity, id);
        }
        check();
    }

    void cancel(uint64_t id)
    {
        c.op();
        MC_LOG(c, "cancel " << id);
        auto want = m.cancel(id);
        do_cancel(id);
        auto got = take();
        MC_CHECK(c, same(want, got), "cancel reports", "cancel " << id << " reports " << show(got) << " instead of " << show(want));
        check();
    }

    void check_price(const char *what, const std::optional<quote> &q, const reference::resting *b)
    {
        MC_CHECK(c, q.has_value() == (b != nullptr), what, what << (q.has_value() ? MC_STR(" is " << *q << " but that side is empty") : std::string(" is absent though there are orders")));
        if(b) {
            auto &p = std::get<price>(q->type);
            MC_CHECK(c, p.value == b->price && p.valuation == currency() && q->lot == b->lot, what, what << " is " << p.value << " lot " << q->lot << " instead of " << b->price << " lot " << b->lot);
        }
    }

    void check()
    {
        auto *bk = book();
        if(!bk) { MC_CHECK(c, m.book.empty(), "book", "there is no book"); return; }
        const reference::resting *b = nullptr, *a = nullptr;
        std::vector<uint64_t> ids;
        for(auto &x: m.book) {
            ids.push_back(x.id);
            if(x.side == limit_order::buy) { if(!b || x.price > b->price) b = &x; } else if(!a || x.price < a->price) a = &x;
        }
        check_price("bid", bk->bid(), b);
        check_price("ask", bk->ask(), a);
        auto o = bk->orders();
        std::vector<uint64_t> got(o.begin(), o.end());
        std::sort(got.begin(), got.end()); std::sort(ids.begin(), ids.end());
        MC_CHECK(c, got == ids, "orders", "lists " << got.size() << " orders instead of " << ids.size() << ", or other ones");
        MC_CHECK(c, bk->reports.empty(), "reports", "querying changed the reports");
        c.state(m.canon());
    }

    // the queues are observable through the executions of a sweep of both sides
    void drain(int64_t low, int64_t high, uint32_t lot)
    {
        uint64_t q[2] = {0, 0};
        for(auto &x: m.book) q[x.side] += x.quantity;
        for(auto s: {limit_order::buy, limit_order::sell}) while(q[s] > 4000000000u) {
            insert({s == limit_order::buy ? limit_order::sell : limit_order::buy, s == limit_order::buy ? low : high, 3000000001u, IOC, 907, lot}); q[s] -= 3000000001u; }
        if(q[limit_order::buy] > 1) insert({limit_order::sell, low, uint32_t(q[limit_order::buy] - 1), IOC, 901, lot});
        insert({limit_order::sell, low, uint32_t(q[limit_order::buy] + 2), IOC, 902, lot});
        if(q[limit_order::sell] > 1) insert({limit_order::buy, high, uint32_t(q[limit_order::sell] - 1), IOC, 903, lot});
        insert({limit_order::buy, high, uint32_t(q[limit_order::sell] + 2), IOC, 904, lot});
        // and the emptied book works
        insert({limit_order::buy, low, 2, GTC, 905, lot});
        insert({limit_order::sell, high, 2, GTC, 906, lot});
    }

    std::vector<uint64_t> cancellable(size_t dead) const
    {
        std::vector<uint64_t> live, gone;
        for(auto &b: m.book) live.push_back(b.id);
        for(auto i = m.issued.rbegin(); i != m.issued.rend(); ++i) if(!std::count(live.begin(), live.end(), *i)) gone.push_back(*i);
        gone.push_back((m.issued.empty() ? 0 : *m.issued.rbegin() + 1)); // the next one
        gone.push_back(basic_book::direct_order);
        if(gone.size() > dead) gone.resize(dead);
        live.insert(live.end(), gone.begin(), gone.end());
        return live;
    }
};

// choose one operation: an order from the alphabet, or a cancellation
inline void step(lockstep &l, const std::vector<order_t> &alphabet, size_t dead, uint64_t owner)
{
    auto ids = l.cancellable(dead);
    uint32_t k = l.c.choose(alphabet.size() + ids.size());
    if(k < alphabet.size()) { order_t o = alphabet[k]; o.owner = owner; l.insert(o); }
    else l.cancel(ids[k - alphabet.size()]);
}

// long histories in regular patterns: `n` orders, of which some are cancelled in one of several orders, then both sides executed
inline void series(lockstep &l, int64_t low, int64_t high, uint32_t lot, int n)
{
    auto &c = l.c; int shape = c.choose(4), gone = c.choose(5), w = high - low; bool again = c.flip();
    for(int round = 0; round <= (again ? 1 : 0); ++round) {
        for(int i = 0; i < n; ++i) {
            // one queue, queues of both sides, every price in turn, orders that trade
            auto s = shape == 0 ? limit_order::buy : shape == 3 ? (i % 3 == 2 ? limit_order::sell : limit_order::buy) : i % 2 ? limit_order::sell : limit_order::buy;
            int64_t p = shape == 0 ? low + w / 2 : shape == 1 ? (s == limit_order::buy ? low : high) : shape == 2 ? (s == limit_order::buy ? low + (i / 2) % (w / 2) : high - (i / 2) % (w / 2)) : low + w / 2 + (i % 2);
            l.insert({s, p, uint32_t(1 + i % 3), GTC, uint64_t(1 + i), lot});
        }
        std::vector<uint64_t> ids; for(auto &b: l.m.book) ids.push_back(b.id);
        if(gone == 1) for(auto i: ids) l.cancel(i);
        if(gone == 2) for(auto i = ids.rbegin(); i != ids.rend(); ++i) l.cancel(*i);
        if(gone == 3) for(size_t i = 0; i < ids.size(); i += 2) l.cancel(ids[i]);
        if(gone == 4) for(size_t i = 0; i < ids.size(); ++i) if(i % 5) l.cancel(ids[(i * 7) % ids.size()]);
    }
    l.drain(low, high, lot);
}

inline std::vector<order_t> alphabet(std::vector<int64_t> prices, std::vector<uint32_t> quantities, std::vector<life_t> lives, uint32_t lot)
{
    std::vector<order_t> r;
    for(auto f: lives) for(auto q: quantities) for(auto p: prices) for(auto s: {limit_order::buy, limit_order::sell}) r.push_back({s, p, q, f, 0, lot});
    return r;
}

} // namespace ob
