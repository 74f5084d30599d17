// mc-sources: esl/economics/price.cpp esl/economics/iso_4217.cpp esl/data/log.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/data/stream.cpp esl/data/terminal.cpp esl/data/severity.cpp esl/exception.cpp esl/agent.cpp
#include "book.hpp"
#include <esl/economics/markets/order_book/matching_engine.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
using namespace ob;
typedef identity<law::property> pid;

static std::vector<ticker> tickers()
{
    // shared base, shared quote, exchanged roles, and a descendant identity
    pid a({1}), b({2}), a1({1, 0});
    return {ticker(a, b), ticker(b, a), ticker(a, a1), ticker(a1, b)};
}

static void engine(mc::ctx &c, int nt, int depth, bool fixed, const std::vector<order_t> &a, bool lifecycle)
{
    auto ts = tickers(); ts.resize(nt);
    std::unique_ptr<matching_engine> e(fixed
        ? new matching_engine([]() -> std::shared_ptr<basic_book> { return std::make_shared<static_order_book>(quote(price(1, currency()), 100), quote(price(5, currency()), 100), 16); })
        : new matching_engine());
    std::vector<reference> ms(nt); std::vector<std::unique_ptr<lockstep>> ls;
    std::vector<bool> touched(nt, false);
    for(int i = 0; i < nt; ++i) {
        if(fixed) { ms[i].bounded = true; ms[i].low = 1; ms[i].high = 5; ms[i].lot = 100; ms[i].capacity = 16; }
        auto l = std::make_unique<lockstep>(c, ms[i], nullptr);
        l->symbol = ts[i];
        auto *ep = e.get(); auto t = ts[i];
        l->book = [ep, t]() -> basic_book * { auto k = ep->books.find(t); return k == ep->books.end() ? nullptr : k->second.get(); };
        l->do_insert = [ep](const limit_order &o) { ep->insert(o); };
        l->do_cancel = [ep, t](uint64_t id) { ep->cancel(t, id); };
        ls.push_back(std::move(l));
    }
    auto all = [&]() {
        size_t n = 0;
        for(int i = 0; i < nt; ++i) { ls[i]->check(); n += touched[i]; }
        MC_CHECK(c, e->books.size() == n, "books", e->books.size() << " books for " << n << " tickers with orders");
        std::set<basic_book *> distinct;
        for(auto &[t, b]: e->books) { MC_CHECK(c, b != nullptr, "books", "no book"); distinct.insert(b.get()); }
        MC_CHECK(c, distinct.size() == n, "books", "tickers share a book");
        std::string s; for(auto &m: ms) s += m.canon() + "|"; c.state(s);
    };
    all();
    for(int d = 0; d < depth; ++d) {
        int i = c.choose(nt);
        // identifiers of this and of the other books, live or dead
        std::vector<uint64_t> ids;
        for(int k = 0; k < nt; ++k) for(auto x: ms[k].issued) if(!std::count(ids.begin(), ids.end(), x)) ids.push_back(x);
        ids.push_back(ids.empty() ? 0 : *std::max_element(ids.begin(), ids.end()) + 1);
        uint32_t k = c.choose(a.size() + ids.size());
        MC_LOG(c, "ticker " << i);
        if(k < a.size()) { order_t o = a[k]; o.owner = 1 + d; touched[i] = true; ls[i]->insert(o); }
        else ls[i]->cancel(ids[k - a.size()]);
        all();
    }
    for(int i = 0; i < nt; ++i) if(touched[i]) { ls[i]->drain(1, 5, 100); all(); }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C11");
    for(bool fixed: {false, true}) {
        std::string k = fixed ? "static books" : "default books";
        {
            int depth = r.bound(5, 6);
            auto a = alphabet({3}, {2}, {GTC}, 100); a.push_back({limit_order::sell, 3, 1, GTC, 0, 100});
            r.scope(MC_STR(k << ", 3 tickers, length " << depth), [=](mc::ctx &c) { engine(c, 3, depth, fixed, a, false); });
        }
        {
            int depth = r.bound(4, 5);
            auto a = alphabet({2, 4}, {2}, {GTC}, 100);
            r.scope(MC_STR(k << ", 4 tickers, more orders, length " << depth), [=](mc::ctx &c) { engine(c, 4, depth, fixed, a, false); });
        }
    }
    r.scope("many tickers in regular patterns", [=](mc::ctx &c) {
        int n = c.pick(r.thorough() ? std::vector<int>{5, 8, 9, 16, 17, 33, 65, 100} : std::vector<int>{5, 9, 17, 33}), shape = c.choose(3), gone = c.choose(3); bool fixed = c.flip();
        matching_engine e = fixed ? matching_engine([]() -> std::shared_ptr<basic_book> { return std::make_shared<static_order_book>(quote(price(1, currency()), 100), quote(price(5, currency()), 100), 16); }) : matching_engine();
        std::vector<reference> ms(n); std::vector<std::unique_ptr<lockstep>> ls; auto *ep = &e;
        for(int i = 0; i < n; ++i) { if(fixed) { ms[i].bounded = true; ms[i].low = 1; ms[i].high = 5; ms[i].lot = 100; ms[i].capacity = 16; }
            uint64_t u = i; ticker t = shape == 0 ? ticker(pid({u}), pid({1000})) : shape == 1 ? ticker(pid({1000}), pid({7, u})) : ticker(pid({u / 2, u % 2}), pid({u % 3})); auto l = std::make_unique<lockstep>(c, ms[i], nullptr); l->symbol = t;
            l->book = [ep, t]() -> basic_book * { auto k = ep->books.find(t); return k == ep->books.end() ? nullptr : k->second.get(); }; l->do_insert = [ep](const limit_order &o) { ep->insert(o); }; l->do_cancel = [ep, t](uint64_t id) { ep->cancel(t, id); }; ls.push_back(std::move(l)); }
        for(int round = 0; round < 4; ++round) {
            for(int k = 0; k < n; ++k) { int i = round % 2 ? n - 1 - k : k; ls[i]->insert({(i + round) % 3 ? limit_order::buy : limit_order::sell, 2 + (i * 5 + round) % 3, uint32_t(1 + (i + round) % 3), GTC, uint64_t(1 + k), 100}); }
            if(gone) for(int i = 0; i < n; ++i) if(ms[i].issued.size() && (i + round) % gone == 0) ls[i]->cancel(*ms[(i + 1) % n].issued.begin());
            for(auto &l: ls) l->check();
        }
        MC_CHECK(c, int(e.books.size()) == n, "books", e.books.size() << " books for " << n << " tickers"); for(auto &l: ls) l->drain(1, 5, 100);
    });
    r.scope("all pairs and triples of tickers: order, equality, hash, lookup", [](mc::ctx &c) {
        std::vector<pid> ids{pid(std::vector<uint64_t>{}), pid({0}), pid({1}), pid({1, 0}), pid({1, 1}), pid({2}), pid({UINT64_MAX})};
        auto pick = [&](std::vector<uint64_t> &key) { size_t i = c.choose(ids.size()), j = c.choose(ids.size()); key = {i, j}; return ticker(ids[i], ids[j]); };
        std::vector<uint64_t> kx, ky, kz;
        ticker x = pick(kx), y = pick(ky), z = pick(kz);
        c.op(); c.state(MC_STR(kx[0] << ' ' << kx[1] << ' ' << ky[0] << ' ' << ky[1] << ' ' << kz[0] << ' ' << kz[1]));
        MC_LOG(c, x << "  " << y << "  " << z);
        MC_CHECK(c, (x == y) == (kx == ky) && (x != y) == (kx != ky), "equality", "tickers " << x << " and " << y);
        MC_CHECK(c, int(x < y) + int(y < x) + int(x == y) == 1, "order", "tickers " << x << " and " << y << " are not exactly one of less, greater and equal");
        MC_CHECK(c, (x > y) == (y < x) && (x <= y) == !(y < x) && (x >= y) == !(x < y), "order", "comparisons of " << x << " and " << y << " contradict each other");
        if(x < y && y < z) MC_CHECK(c, x < z, "transitive", x << ' ' << y << ' ' << z);
        std::hash<ticker> h;
        if(x == y) MC_CHECK(c, h(x) == h(y), "hash", "equal tickers with different hashes");
        std::set<ticker> s{x, y, z}; std::set<std::vector<uint64_t>> w{kx, ky, kz};
        MC_CHECK(c, s.size() == w.size() && s.count(x) && s.count(y) && s.count(z), "set", "a set of tickers loses or duplicates tickers");
        matching_engine e;
        for(auto *t: {&x, &y, &z}) e.insert(make({limit_order::buy, 3, 1, GTC, 1, 1}, *t));
        MC_CHECK(c, e.books.size() == w.size(), "books", e.books.size() << " books for " << w.size() << " tickers");
        ticker copy(x);
        MC_CHECK(c, copy == x && copy.base == x.base && copy.quote == x.quote, "copy", "");
    });
    return r.finish();
}
