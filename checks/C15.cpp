// mc-sources: esl/economics/price.cpp esl/economics/iso_4217.cpp esl/exception.cpp
#include <iomanip>
#include "mc.hpp"
#include <esl/economics/price.hpp>
using esl::economics::price; using esl::economics::iso_4217;
typedef __int128 wide;

static const std::vector<iso_4217> &currencies()
{
    static const std::vector<iso_4217> c{iso_4217({'U','S','D'}), iso_4217({'E','U','R'}), iso_4217({'J','P','Y'}, 1), iso_4217({'U','S','D'}, 1000), iso_4217({'U','S','C'}), iso_4217({'E','S','D'})};
    return c;
}
static bool fits(wide w) { return w <= INT64_MAX && w >= INT64_MIN; }

static std::vector<int64_t> values(int64_t n)
{
    std::vector<int64_t> r;
    for(int64_t i = -n; i <= n; ++i) r.push_back(i);
    for(int k: {31, 32, 53, 62}) for(int d: {-1, 0, 1}) { r.push_back((1ll << k) + d); r.push_back(-(1ll << k) + d); }
    r.push_back(INT64_MAX); r.push_back(INT64_MIN + 1);
    return r;
}

template<typename F> static bool throws(F f) { try { f(); } catch(const std::exception &) { return true; } return false; }
static bool is(const price &p, wide v, const iso_4217 &k) { return wide(p.value) == v && p.valuation == k && p.valuation.code == k.code && p.valuation.denominator == k.denominator; }

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C15");
    auto grid = values(r.bound(120, 500));
    r.scope("all pairs of amounts of one currency: arithmetic and comparisons", [=](mc::ctx &c) {
        auto &k = currencies()[c.choose(3)];
        int64_t a = c.pick(grid), b = c.pick(grid);
        c.op(); c.state(MC_STR(a << ' ' << b << ' ' << std::string(k)));
        const price x(a, k), y(b, k);
        MC_LOG(c, x << " and " << y);
        wide s = wide(a) + b, d = wide(a) - b;
        if(fits(s)) { MC_CHECK(c, is(x + y, s, k), "sum", a << " + " << b << " = " << (x + y).value); price z(x); auto &q = (z += y); MC_CHECK(c, is(z, s, k) && &q == &z, "+=", a << " += " << b << " gives " << z.value); }
        if(fits(d)) { MC_CHECK(c, is(x - y, d, k), "difference", a << " - " << b << " = " << (x - y).value); price z(x); auto &q = (z -= y); MC_CHECK(c, is(z, d, k) && &q == &z, "-=", a << " -= " << b << " gives " << z.value); }
        MC_CHECK(c, is(-x, -wide(a), k), "negation", "of " << a);
        MC_CHECK(c, (x == y) == (a == b) && (x != y) == (a != b), "equality", a << " and " << b);
        MC_CHECK(c, (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order", "of " << a << " and " << b);
        wide p = wide(a) * b;
        if(fits(p)) {
            MC_CHECK(c, is(x * (int64_t)b, p, k), "multiple", a << " * " << b << " = " << (x * (int64_t)b).value);
            if(b >= INT32_MIN && b <= INT32_MAX) MC_CHECK(c, is(x * (int)b, p, k), "multiple", a << " * int " << b);
            if(b >= 0) {
                MC_CHECK(c, is(x * (uint64_t)b, p, k) && is((uint64_t)b * x, p, k), "multiple", a << " * unsigned " << b);
                if(b <= UINT32_MAX) MC_CHECK(c, is((uint32_t)b * x, p, k) && is(x * (uint32_t)b, p, k), "multiple", a << " * 32-bit unsigned " << b);
            }
        }
        if(fits(p)) { MC_CHECK(c, is(x * y, p, k), "product", a << " * " << b << " = " << (x * y).value); price z(x); auto &q = (z *= y); MC_CHECK(c, is(z, p, k) && &q == &z, "*=", a << " *= " << b << " gives " << z.value); }
        if(b) { wide q = wide(a) / b; MC_CHECK(c, is(x / y, q, k), "quotient", a << " / " << b << " = " << (x / y).value); price z(x); auto &f = (z /= y); MC_CHECK(c, is(z, q, k) && &f == &z, "/=", a << " /= " << b << " gives " << z.value); }
        MC_CHECK(c, is(x, a, k) && is(y, b, k), "operands", "changed");
    });
    r.scope("the text of every amount", [=](mc::ctx &c) {
        static const std::vector<iso_4217> units{iso_4217({'J','P','Y'}, 1), iso_4217({'A','A','A'}, 10), iso_4217({'U','S','D'}), iso_4217({'K','W','D'}, 1000), iso_4217({'C','L','F'}, 10000)};
        int digits = c.choose(units.size()); auto &k = units[digits]; int64_t a = c.pick(grid); if(std::abs((double)a) > 9e15) return;
        std::string d = std::to_string(std::abs(a)); while((int)d.size() <= digits) d = "0" + d;
        std::string want = std::string(k.code.begin(), k.code.end()) + "(" + (a < 0 ? "-" : "") + d.substr(0, d.size() - digits) + (digits ? "." + d.substr(d.size() - digits) : std::string()) + ")";
        const price x(a, k); std::ostringstream o; int style = c.choose(3);
        if(style) { o << std::setprecision(style == 1 ? 3 : 12); if(style == 2) o << std::hex << std::scientific << std::showpos << std::noshowpos; }
        auto flags = o.flags(); auto precision = o.precision(); auto fill = o.fill();
        o << x; c.op(); c.state(o.str());
        MC_CHECK(c, o.str() == want && x.representation() == want, "text", "of " << a << " is " << o.str() << " instead of " << want);
        MC_CHECK(c, o.flags() == flags && o.precision() == precision && o.fill() == fill, "stream", "writing " << want << " leaves another format: precision " << o.precision());
        MC_CHECK(c, is(x, a, k), "operands", "changed");
    });
    r.scope("all pairs of currencies: no mixing", [=](mc::ctx &c) {
        auto &k = c.pick(currencies()), &l = c.pick(currencies());
        static const std::vector<int64_t> v{-2, 0, 1, 2, 100};
        int64_t a = c.pick(v), b = c.pick(v);
        const price x(a, k), y(b, l);
        bool same = &k == &l;
        c.op(); c.state(MC_STR(x << ' ' << y));
        MC_LOG(c, x << " and " << y);
        MC_CHECK(c, (x == y) == (same && a == b), "equality across currencies", x << " and " << y);
        MC_CHECK(c, (x != y) == !(same && a == b), "equality across currencies", x << " and " << y);
        bool bad = !same;
        MC_CHECK(c, throws([&] { (void)(x < y); }) == bad && throws([&] { (void)(x > y); }) == bad && throws([&] { (void)(x <= y); }) == bad && throws([&] { (void)(x >= y); }) == bad, "order across currencies", x << " and " << y);
        MC_CHECK(c, throws([&] { (void)(x + y); }) == bad && throws([&] { (void)(x - y); }) == bad, "sum across currencies", x << " and " << y);
        price z(x); MC_CHECK(c, throws([&] { z += y; }) == bad && (!bad || is(z, a, k)), "+= across currencies", x << " and " << y);
        price w(x); MC_CHECK(c, throws([&] { w -= y; }) == bad && (!bad || is(w, a, k)), "-= across currencies", x << " and " << y);
        MC_CHECK(c, throws([&] { (void)(x * y); }) == bad && (!bad && !b || throws([&] { (void)(x / y); }) == bad), "product across currencies", x << " and " << y);
        price u(x); MC_CHECK(c, throws([&] { u *= y; }) == bad && (!bad || is(u, a, k)), "*= across currencies", x << " and " << y);
        if(bad || b) { price v(x); MC_CHECK(c, throws([&] { v /= y; }) == bad && (!bad || is(v, a, k)), "/= across currencies", x << " and " << y); }
        price as(x); as = y; MC_CHECK(c, is(as, b, l), "assignment", "of " << y << " gives " << as);
        price cp(y), mv(std::move(cp)); MC_CHECK(c, is(mv, b, l), "copy", "of " << y);
    });
    r.scope("scaling by reals, conversion from and to reals", [=](mc::ctx &c) {
        auto &k = currencies()[c.choose(4)];
        int64_t a = c.pick(grid);
        int q = int(c.choose(33)) - 16; // multiples of 1/8
        if(std::abs((double)a) > 1e15) return;
        c.op(); c.state(MC_STR(a << ' ' << q << ' ' << k.denominator));
        const price x(a, k); double f = q / 8.0;
        MC_LOG(c, x << " and " << f);
        wide p = wide(a) * q / 8; // truncates towards zero
        MC_CHECK(c, is(x * f, p, k), "scaling", a << " * " << f << " = " << (x * f).value);
        if(q) { wide d = wide(a) * 8 / q; double e = double(a) / f; if(wide(e) == d || std::abs(a) < 100000) { /* exact quotient is representable closely enough unless it is an integer boundary */
            wide n = wide(a) * 8; bool exact = n % q == 0;
            MC_CHECK(c, exact ? is(x / f, d, k) : is(x / f, d, k), "division", a << " / " << f << " = " << (x / f).value); } }
        MC_CHECK(c, double(x) == double(a) / double(k.denominator), "to real", a);
        // a real amount a/8
        if(std::abs((double)a) < 1e9) {
            double v = a / 8.0; wide t = wide(a) * k.denominator / 8;
            MC_CHECK(c, is(price::approximate(v, k), t, k), "from real", v << " gives " << price::approximate(v, k).value);
            MC_CHECK(c, is(price(v, x), t, k), "from real", v << " gives " << price(v, x).value);
            // an amount of a/100: within one smallest unit, and not away from zero
            double u = a / 100.0; auto g = price::approximate(u, k);
            MC_CHECK(c, std::abs(double(g.value) - u * k.denominator) < 1.0 && std::abs((double)g.value) <= std::abs(u * k.denominator) && g.valuation == k, "from real", u << " gives " << g.value);
        }
        MC_CHECK(c, is(price(a, k), a, k) && is(price(), 0, iso_4217()), "construction", "");
    });
    int64_t most = r.bound(160, 400);
    r.scope("every whole quotient: amounts that are multiples of the divisor, and their neighbours", [=](mc::ctx &c) {
        int64_t q = 1 + c.choose(most), k = int64_t(c.choose(2 * most + 1)) - most; int e = int(c.choose(3)) - 1; int sign = c.flip() ? -1 : 1;
        auto &u = currencies()[0]; int64_t a = q * k + e;
        c.op(); c.state(MC_STR(a << ' ' << q)); const price x(a, u); double f = sign * q;
        MC_CHECK(c, is(x / f, wide(a) / (sign * q), u), "division", a << " / " << f << " = " << (x / f).value);
        MC_CHECK(c, is(x * f, wide(a) * sign * q, u), "scaling", a << " * " << f << " = " << (x * f).value);
    });
    int depth = r.bound(5, 6);
    r.scope(MC_STR("every sequence of " << depth << " in-place operations, failing ones included"), [=](mc::ctx &c) {
        auto &k = currencies()[0], &l = currencies()[1];
        price p(c.pick(std::vector<int64_t>{-3, 0, 7}), k); wide m = p.value; iso_4217 mk = k;
        for(int d = 0; d < depth; ++d) {
            uint32_t o = c.choose(3); int64_t b = c.pick(std::vector<int64_t>{-2, 1, 5}); auto &kb = c.flip() ? l : k;
            c.op();
            bool bad = o != 2 && !(kb == mk), threw = false;
            try { if(o == 0) p += price(b, kb); else if(o == 1) p -= price(b, kb); else p = price(b, kb); } catch(const std::exception &) { threw = true; }
            if(!bad) { m = o == 0 ? m + b : o == 1 ? m - b : wide(b); if(o == 2) mk = kb; }
            MC_LOG(c, "operation " << o << " with " << price(b, kb) << " gives " << p << (threw ? " error" : ""));
            MC_CHECK(c, threw == bad && is(p, m, mk), "sequence", "operation " << o << " gives " << p);
            c.state(MC_STR(p));
        }
    });
    return r.finish();
}
