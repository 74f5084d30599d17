// mc-sources: esl/economics/price.cpp esl/economics/iso_4217.cpp esl/data/log.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/data/stream.cpp esl/data/terminal.cpp esl/data/severity.cpp esl/exception.cpp esl/agent.cpp
#include "book.hpp"
#include <esl/economics/markets/order_book/static_order_book.hpp>
using namespace ob;

struct fixture
{
    reference m; std::unique_ptr<static_order_book> b; int64_t low, high; uint32_t lot;
    fixture(int64_t low, int64_t high, uint32_t lot, size_t capacity): low(low), high(high), lot(lot)
    {
        b.reset(new static_order_book(quote(price(low, currency()), lot), quote(price(high, currency()), lot), capacity));
        m.bounded = true; m.low = low; m.high = high; m.lot = lot; m.capacity = capacity;
    }
};

static void run(mc::ctx &c, int64_t low, int64_t high, uint32_t lot, size_t cap, const std::vector<order_t> &a, int depth, size_t dead)
{
    fixture f(low, high, lot, cap);
    lockstep l(c, f.m, f.b.get());
    l.check();
    for(int d = 0; d < depth; ++d) step(l, a, dead, 1 + d);
    l.drain(low, high, lot);
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C09");
    {
        int depth = r.bound(5, 6);
        auto a = alphabet({27, 29, 31}, {1, 3}, {GTC}, 100);
        r.scope(MC_STR("GTC orders at both limits and between, any cancel, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, 100, 16, a, depth, 3); });
    }
    {
        int depth = r.bound(6, 7);
        auto a = alphabet({28, 29}, {2}, {GTC}, 100);
        auto b = alphabet({28, 29}, {3}, {GTC}, 100); a.push_back(b[0]); a.push_back(b[3]);
        r.scope(MC_STR("two adjacent prices, any cancel, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, 100, 16, a, depth, 1); });
    }
    {
        int depth = r.bound(4, 5);
        auto a = alphabet({27, 29, 31}, {1, 4}, {GTC, IOC, FOK}, 100);
        r.scope(MC_STR("all lifetimes, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, 100, 16, a, depth, 1); });
    }
    {
        int depth = r.bound(4, 5);
        r.scope(MC_STR("aggressive orders with every lifetime against any " << depth << " resting orders"), [=](mc::ctx &c) {
            fixture f(1, 5, 100, 16); lockstep l(c, f.m, f.b.get());
            auto side = c.flip() ? limit_order::sell : limit_order::buy, other = side == limit_order::buy ? limit_order::sell : limit_order::buy;
            for(int d = 0; d < depth; ++d) l.insert({side, (int64_t)(2 + c.choose(3)), 1 + c.choose(2), GTC, (uint64_t)(1 + d), 100});
            auto lv = std::vector<life_t>{GTC, IOC, FOK}[c.choose(3)];
            l.insert({other, (int64_t)(1 + c.choose(5)), std::vector<uint32_t>{1, 2, 3, 5, 8, 13}[c.choose(6)], lv, 50, 100});
            if(c.flip()) l.insert({other, (int64_t)(1 + c.choose(5)), 2, GTC, 51, 100});
            l.drain(1, 5, 100);
        });
    }
    {
        int depth = r.bound(4, 5);
        auto a = alphabet({28, 30}, {2}, {GTC}, 100);
        for(auto s: {limit_order::buy, limit_order::sell}) {
            for(auto lv: {GTC, IOC, FOK}) a.push_back({s, 29, 0, lv, 0, 100});
            for(int64_t p: {26, 32, -29, 0, 2900}) a.push_back({s, p, 2, GTC, 0, 100});
            for(uint32_t w: {1, 10, 99, 101, 1000}) a.push_back({s, 29, 2, GTC, 0, w});
            a.push_back({s, 26, 0, FOK, 0, 1}); a.push_back({s, 40, 1, IOC, 0, 7});
        }
        r.scope(MC_STR("invalid orders among valid ones, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, 100, 8, a, depth, 1); });
    }
    for(size_t cap: {1, 2, 3}) {
        int depth = r.bound(5, 6);
        auto a = alphabet({28, 30}, {1, 2}, {GTC}, 100);
        r.scope(MC_STR("capacity for " << cap << " orders, length " << depth), [=](mc::ctx &c) {
            fixture f(27, 31, 100, cap); lockstep l(c, f.m, f.b.get());
            for(int d = 0; d < depth; ++d) step(l, a, 2, 1 + d);
        });
    }
    {
        int depth = r.bound(10, 11);
        r.scope(MC_STR("one queue: place, cancel any position, execute, length " << depth), [=](mc::ctx &c) {
            fixture f(10, 12, 100, 12); lockstep l(c, f.m, f.b.get());
            for(int d = 0; d < depth; ++d) {
                uint32_t k = c.choose(f.m.book.empty() ? 2 : f.m.book.size() == 1 ? 4 : f.m.book.size() == 2 ? 5 : 6);
                if(k == 0) l.insert({limit_order::buy, 11, 2, GTC, (uint64_t)(1 + d), 100});
                else if(k == 1) l.insert({limit_order::sell, 11, 3, IOC, (uint64_t)(1 + d), 100});
                else if(k == 2) l.insert({limit_order::sell, 10, 1, FOK, (uint64_t)(1 + d), 100});
                else if(k == 3) l.cancel(f.m.book.front().id);
                else if(k == 4) l.cancel(f.m.book.back().id);
                else l.cancel(f.m.book[f.m.book.size() / 2].id);
            }
            l.drain(10, 12, 100);
        });
    }
    {
        int depth = r.bound(4, 5);
        auto a = alphabet({28, 30}, {1, 0x7fffffffu, 0xffffffffu}, {GTC, FOK}, 100);
        r.scope(MC_STR("quantities up to the largest, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, 100, 16, a, depth, 1); });
    }
    r.scope("long histories in regular patterns", [=](mc::ctx &c) {
        static const std::vector<int> small{3, 9, 17, 33, 65, 130, 257}, large{3, 5, 9, 17, 31, 33, 64, 65, 127, 130, 255, 257, 511, 520, 1030};
        int n = c.pick(r.thorough() ? large : small); fixture f(20, 30, 100, 2 * n + 8); lockstep l(c, f.m, f.b.get()); series(l, 20, 30, 100, n);
    });
    r.scope("every price of books of many widths, lots and currencies is kept exactly", [](mc::ctx &c) {
        static const std::vector<iso_4217> cur{currencies::USD, iso_4217({'J', 'P', 'Y'}, 1), iso_4217({'B', 'H', 'D'}, 1000)};
        currency() = cur[c.choose(cur.size())];
        uint32_t lot = std::vector<uint32_t>{1, 7, 10, 100, 250, 1000, 10000}[c.choose(7)];
        int64_t low = std::vector<int64_t>{0, 1, 99, 100, 1234567, -3, -250}[c.choose(7)];
        int64_t width = std::vector<int64_t>{1, 2, 3, 5, 29, 64, 111}[c.choose(lot > 1000 ? 3 : lot > 100 ? 5 : 7)];
        fixture f(low, low + width, lot, 4); lockstep l(c, f.m, f.b.get());
        int64_t p = low + c.choose(width + 1);
        auto s = c.flip() ? limit_order::sell : limit_order::buy, t = s == limit_order::buy ? limit_order::sell : limit_order::buy;
        l.insert({s, p, 2, GTC, 1, lot});
        // a resting neighbour, and orders that may and may not trade with the first
        int64_t q = p + (s == limit_order::buy ? -1 : 1);
        if(q >= low && q <= low + width) l.insert({s, q, 1, GTC, 2, lot});
        int64_t n = p + (s == limit_order::buy ? 1 : -1);
        if(n >= low && n <= low + width) l.insert({t, n, 1, GTC, 3, lot});
        l.insert({t, p, 1, IOC, 4, lot});
        l.cancel(*f.m.issued.begin());
        l.drain(low, low + width, lot);
        currency() = currencies::USD;
    });
    return r.finish();
}
