// mc-sources: esl/economics/price.cpp esl/economics/iso_4217.cpp esl/data/log.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/data/stream.cpp esl/data/terminal.cpp esl/data/severity.cpp esl/exception.cpp esl/agent.cpp
#include "book.hpp"
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
using namespace ob;

struct fixture { reference m; binary_tree_order_book b; };

static void run(mc::ctx &c, int64_t low, int64_t high, const std::vector<order_t> &a, int depth, size_t dead)
{
    fixture f; lockstep l(c, f.m, &f.b);
    l.check();
    for(int d = 0; d < depth; ++d) step(l, a, dead, 1 + d);
    l.drain(low, high, 100);
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C10");
    {
        int depth = r.bound(5, 6);
        auto a = alphabet({27, 29, 31}, {1, 3}, {GTC}, 100);
        r.scope(MC_STR("GTC orders at three prices, any cancel, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, a, depth, 3); });
    }
    {
        int depth = r.bound(6, 7);
        auto a = alphabet({28, 29}, {2}, {GTC}, 100);
        auto b = alphabet({28, 29}, {3}, {GTC}, 100); a.push_back(b[0]); a.push_back(b[3]);
        r.scope(MC_STR("two adjacent prices, any cancel, length " << depth), [=](mc::ctx &c) { run(c, 28, 29, a, depth, 1); });
    }
    {
        int depth = r.bound(4, 5);
        auto a = alphabet({-1, 0, 1}, {1, 4}, {GTC, IOC, FOK}, 100);
        r.scope(MC_STR("all lifetimes, prices around zero, length " << depth), [=](mc::ctx &c) { run(c, -1, 1, a, depth, 1); });
    }
    {
        int depth = r.bound(4, 5);
        r.scope(MC_STR("aggressive orders with every lifetime against any " << depth << " resting orders"), [=](mc::ctx &c) {
            fixture f; lockstep l(c, f.m, &f.b);
            auto side = c.flip() ? limit_order::sell : limit_order::buy, other = side == limit_order::buy ? limit_order::sell : limit_order::buy;
            for(int d = 0; d < depth; ++d) l.insert({side, (int64_t)(2 + c.choose(3)), 1 + c.choose(2), GTC, (uint64_t)(1 + d), 100});
            auto lv = std::vector<life_t>{GTC, IOC, FOK}[c.choose(3)];
            l.insert({other, (int64_t)(1 + c.choose(5)), std::vector<uint32_t>{1, 2, 3, 5, 8, 13}[c.choose(6)], lv, 50, 100});
            if(c.flip()) l.insert({other, (int64_t)(1 + c.choose(5)), 2, GTC, 51, 100});
            l.drain(1, 5, 100);
        });
    }
    {
        int depth = r.bound(10, 11);
        r.scope(MC_STR("one queue: place, cancel any position, execute, length " << depth), [=](mc::ctx &c) {
            fixture f; lockstep l(c, f.m, &f.b);
            for(int d = 0; d < depth; ++d) {
                uint32_t k = c.choose(f.m.book.empty() ? 2 : f.m.book.size() == 1 ? 4 : f.m.book.size() == 2 ? 5 : 6);
                if(k == 0) l.insert({limit_order::buy, 11, 2, GTC, (uint64_t)(1 + d), 100});
                else if(k == 1) l.insert({limit_order::sell, 11, 3, IOC, (uint64_t)(1 + d), 100});
                else if(k == 2) l.insert({limit_order::sell, 10, 1, FOK, (uint64_t)(1 + d), 100});
                else if(k == 3) l.cancel(f.m.book.front().id);
                else if(k == 4) l.cancel(f.m.book.back().id);
                else l.cancel(f.m.book[f.m.book.size() / 2].id);
            }
            l.drain(10, 12, 100);
        });
    }
    {
        int depth = r.bound(4, 5);
        auto a = alphabet({28, 30}, {1, 0x7fffffffu, 0xffffffffu}, {GTC, FOK}, 100);
        r.scope(MC_STR("quantities up to the largest, length " << depth), [=](mc::ctx &c) { run(c, 27, 31, a, depth, 1); });
    }
    r.scope("long histories in regular patterns", [=](mc::ctx &c) {
        static const std::vector<int> small{3, 9, 17, 33, 65, 130, 257}, large{3, 5, 9, 17, 31, 33, 64, 65, 127, 130, 255, 257, 511, 520, 1030};
        fixture f; lockstep l(c, f.m, &f.b); series(l, 20, 30, 100, c.pick(r.thorough() ? large : small));
    });
    r.scope("every price, lot and currency is kept exactly", [](mc::ctx &c) {
        static const std::vector<iso_4217> cur{currencies::USD, iso_4217({'J', 'P', 'Y'}, 1), iso_4217({'B', 'H', 'D'}, 1000)};
        currency() = cur[c.choose(cur.size())];
        uint32_t lot = std::vector<uint32_t>{1, 7, 100, 10000}[c.choose(4)];
        int64_t low = std::vector<int64_t>{0, 1, 99, 1234567, -3, -250, 1ll << 40}[c.choose(7)];
        int64_t p = low + c.choose(64);
        uint32_t big = std::vector<uint32_t>{1, 1000, UINT32_MAX - 1}[c.choose(3)];
        fixture f; lockstep l(c, f.m, &f.b);
        auto s = c.flip() ? limit_order::sell : limit_order::buy, t = s == limit_order::buy ? limit_order::sell : limit_order::buy;
        l.insert({s, p, big, GTC, 1, lot});
        l.insert({s, p + (s == limit_order::buy ? -1 : 1), 1, GTC, 2, lot});
        l.insert({t, p + (s == limit_order::buy ? 1 : -1), 1, GTC, 3, lot});
        l.insert({t, p, big, (life_t)c.choose(3), 4, lot});
        l.insert({t, p, 1, IOC, 4, lot});
        l.cancel(*f.m.issued.begin());
        l.drain(low - 2, low + 70, lot);
        currency() = currencies::USD;
    });
    return r.finish();
}
