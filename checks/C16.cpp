// mc-sources: esl/economics/price.cpp esl/economics/iso_4217.cpp esl/exception.cpp esl/agent.cpp esl/data/log.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/data/stream.cpp esl/data/terminal.cpp esl/data/severity.cpp
#include "mc.hpp"
#include <esl/economics/markets/order_book/static_order_book.hpp>
using esl::economics::price; using esl::economics::iso_4217; using esl::economics::markets::quote;
typedef __int128 wide;

static const std::vector<iso_4217> &currencies()
{
    static const std::vector<iso_4217> c{iso_4217({'U','S','D'}), iso_4217({'E','U','R'}), iso_4217({'J','P','Y'}, 1)};
    return c;
}
static const std::vector<uint32_t> lots{1, 2, 3, 10, 100, 1000, 4294967295u};
static bool fits(wide w) { return w <= INT64_MAX && w >= INT64_MIN; }
template<typename F> static bool throws(F f) { try { f(); } catch(const std::exception &) { return true; } return false; }
static bool is(const quote &q, wide v, const iso_4217 &k, uint32_t lot)
{
    auto *p = std::get_if<price>(&q.type);
    return p && wide(p->value) == v && p->valuation == k && p->valuation.denominator == k.denominator && q.lot == lot;
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C16");
    std::vector<int64_t> grid;
    for(int i = -r.bound(40, 150); i <= r.bound(40, 150); ++i) grid.push_back(i);
    for(int k: {31, 32, 40, 52, 53, 60}) for(int d: {-1, 0, 1}) { grid.push_back((1ll << k) + d); grid.push_back(-(1ll << k) + d); }
    auto ordering = [](mc::ctx &c, const quote &x, const quote &y, int64_t a, int64_t b) {
        MC_CHECK(c, (x == y) == (a == b) && (x != y) == (a != b), "equality", x << " and " << y);
        MC_CHECK(c, (x < y) == (a < b), "order", x << " < " << y);
        MC_CHECK(c, (x > y) == (a > b), "order", x << " > " << y);
        MC_CHECK(c, (x <= y) == (a <= b), "order", x << " <= " << y);
        MC_CHECK(c, (x >= y) == (a >= b), "order", x << " >= " << y);
    };
    r.scope("all pairs of prices with every lot size", [=](mc::ctx &c) {
        auto &k = currencies()[c.choose(3)]; uint32_t l = c.pick(lots);
        int64_t a = c.pick(grid), b = c.pick(grid);
        const quote x(price(a, k), l), y(price(b, k), l);
        c.op(); c.state(MC_STR(x << ' ' << y));
        MC_LOG(c, x << " and " << y);
        if(fits(wide(a) * l) && fits(wide(b) * l)) ordering(c, x, y, a, b);
        if(fits(wide(a) + b)) MC_CHECK(c, is(x + y, wide(a) + b, k, l), "sum", x << " + " << y << " = " << (x + y));
        if(fits(wide(a) - b)) MC_CHECK(c, is(x - y, wide(a) - b, k, l), "difference", x << " - " << y << " = " << (x - y));
        if(fits(wide(a) * b)) MC_CHECK(c, is(x * y, wide(a) * b, k, l), "product", x << " * " << y << " = " << (x * y));
        if(b) MC_CHECK(c, is(x / y, wide(a) / b, k, l), "quotient", x << " / " << y << " = " << (x / y));
        for(double f: {0.5, 1., 2., -4.}) if(std::abs(double(a)) < 1e15) {
            MC_CHECK(c, is(x * f, f == 0.5 ? wide(a) / 2 : wide(a) * int(f), k, l), "scaling", x << " * " << f << " = " << (x * f));
            MC_CHECK(c, is(x / f, f == 0.5 ? wide(a) * 2 : wide(a) / int(f), k, l), "scaling", x << " / " << f << " = " << (x / f));
        }
        quote z(x); MC_CHECK(c, is(z, a, k, l), "copy", "of " << x << " gives " << z);
        quote w(y); quote &ref = (w = x); MC_CHECK(c, is(w, a, k, l) && &ref == &w, "assignment", "of " << x << " gives " << w);
        double v = double(a) / k.denominator / l, g = double(x);
        MC_CHECK(c, std::abs(g - v) <= 1e-12 * std::abs(v), "to real", x << " gives " << g);
        MC_CHECK(c, is(x, a, k, l) && is(y, b, k, l), "operands", "changed");
        if(b == grid[0] && std::abs(double(a)) < 1e12) {
            quote n(a / double(k.denominator) , x); // a real amount: within one unit, never away from zero
            int64_t e = std::get<price>(n.type).value;
            MC_CHECK(c, n.lot == l && std::get<price>(n.type).valuation == k && std::abs(double(e - a)) <= 1 && std::abs(double(e)) <= std::abs(double(a)), "from real", x << " gives " << n);
            MC_CHECK(c, is(quote(price(a, k)), a, k, 1), "default lot", "");
        }
    });
    r.scope("all pairs of lots and currencies: no mixing", [=](mc::ctx &c) {
        auto &k = c.pick(currencies()), &kk = c.pick(currencies()); uint32_t l = c.pick(lots), ll = c.pick(lots);
        static const std::vector<int64_t> v{-3, 0, 1, 2, 200};
        int64_t a = c.pick(v), b = c.pick(v);
        const quote x(price(a, k), l), y(price(b, kk), ll);
        c.op(); c.state(MC_STR(x << ' ' << y));
        MC_LOG(c, x << " and " << y);
        bool lot = l != ll, cur = &k != &kk;
        MC_CHECK(c, throws([&] { (void)(x == y); }) == lot, "equality across lots", x << " == " << y);
        MC_CHECK(c, throws([&] { (void)(x != y); }) == lot, "equality across lots", x << " != " << y);
        if(!lot && cur) MC_CHECK(c, !(x == y) && (x != y), "equality across currencies", x << " and " << y);
        bool bad = lot || cur;
        MC_CHECK(c, throws([&] { (void)(x < y); }) == bad, "order across lots or currencies", x << " < " << y);
        MC_CHECK(c, throws([&] { (void)(x > y); }) == bad, "order across lots or currencies", x << " > " << y);
        MC_CHECK(c, throws([&] { (void)(x <= y); }) == bad, "order across lots or currencies", x << " <= " << y);
        MC_CHECK(c, throws([&] { (void)(x >= y); }) == bad, "order across lots or currencies", x << " >= " << y);
        MC_CHECK(c, throws([&] { (void)(x + y); }) == bad, "sum across lots or currencies", x << " + " << y);
        MC_CHECK(c, throws([&] { (void)(x - y); }) == bad, "sum across lots or currencies", x << " - " << y);
        MC_CHECK(c, throws([&] { (void)(x * y); }) == bad, "product across lots or currencies", x << " * " << y);
        if(bad || b) MC_CHECK(c, throws([&] { (void)(x / y); }) == bad, "quotient across lots or currencies", x << " / " << y);
        if(!bad) ordering(c, x, y, a, b);
        quote z(x); z = y; MC_CHECK(c, is(z, b, kk, ll), "assignment", "of " << y << " gives " << z);
        MC_CHECK(c, throws([&] { quote(price(a, k), 0); }), "zero lot", "accepted");
    });
    r.scope("encoding between limits", [=](mc::ctx &c) {
        // limits and lots of a book; every quote between and around the limits
        static const std::vector<uint32_t> ls{1, 2, 10, 100, 1000};
        auto &k = currencies()[c.choose(3)]; uint32_t l = c.pick(ls);
        static const std::vector<int64_t> lowers{-5, 0, 1, 29, 100};
        int64_t lo = c.pick(lowers); int64_t width = 1 + c.choose(r.bound(24, 130)); // 0 .. in smallest units
        c.op(); c.state(MC_STR(k << ' ' << l << ' ' << lo << ' ' << width));
        quote a(price(lo, k), l), b(price(lo + width, k), l);
        if(width * double(l) * l / k.denominator > 1e6) return; // table size
        esl::economics::markets::order_book::static_order_book book(a, b, 1);
        esl::mathematics::interval<quote> limits(a, b);
        using level_t = std::decay_t<decltype(book)>::limit;
        level_t last{}; bool any = false;
        for(int64_t v = lo - 2; v <= lo + width + 2; ++v) {
            quote q(price(v, k), l); level_t e{}; 
            bool inside = v >= lo && v <= lo + width;
            bool ok = book.default_encode(limits, q, e);
            MC_CHECK(c, ok == inside, "encodable", q << " between " << a << " and " << b << ": " << ok);
            if(!ok) continue;
            quote d = book.default_decode(limits, e);
            MC_LOG(c, q << " at " << e << " decodes to " << d);
            MC_CHECK(c, is(d, v, k, l), "round trip", q << " between " << a << " and " << b << " decodes to " << d);
            MC_CHECK(c, !any || last < e, "monotone", q << " is encoded as " << e << " after " << last);
            last = e; any = true;
        }
    });
    return r.finish();
}
