// mc-sources: esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/law/property.cpp
#include "mc.hpp"
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/money.hpp>
#include <unordered_set>
using esl::economics::price; using esl::economics::iso_4217; using esl::economics::exchange_rate; using esl::economics::rate; using esl::quantity;
typedef __int128 wide;

static const std::vector<iso_4217> &currencies()
{
    static const std::vector<iso_4217> c{iso_4217({'U','S','D'}), iso_4217({'E','U','R'}), iso_4217({'J','P','Y'}, 1), iso_4217({'I','Q','D'}, 1000), iso_4217({'A','B','C'}, 8)};
    return c;
}
static bool fits(wide w) { return w <= INT64_MAX && w >= INT64_MIN; }
template<typename F> static bool throws(F f) { try { f(); } catch(const std::exception &) { return true; } return false; }
static uint64_t gcd(uint64_t a, uint64_t b) { return b ? gcd(b, a % b) : a; }
static bool is(const price &p, wide v, const iso_4217 &k) { return wide(p.value) == v && p.valuation == k; }
template<typename R> static bool ratio(const R &r, wide n, wide d) { return wide(r.numerator()) * d == n * wide(r.denominator()) && r.denominator() > 0; }

template<typename R, typename B> static void compare(mc::ctx &c, const R &p, const R &q, const B &pr, const B &qr, wide l, wide rr)
{
    MC_CHECK(c, (p == q) == (l == rr) && (p < q) == (l < rr) && (p > q) == (l > rr), "comparison", p << " and " << q);
    MC_CHECK(c, (pr == qr) == (l == rr) && (pr != qr) == (l != rr) && (pr < qr) == (l < rr) && (pr > qr) == (l > rr) && (pr <= qr) == (l <= rr) && (pr >= qr) == (l >= rr), "comparison", p << " and " << q);
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C18");
    int m = r.bound(12, 30);
    std::vector<int64_t> amounts; int g = r.bound(60, 250);
    for(int i = -g; i <= g; ++i) amounts.push_back(i);
    for(int k: {31, 32, 45, 55}) for(int d: {-1, 0, 1}) { amounts.push_back((1ll << k) + d); amounts.push_back(-(1ll << k) + d); }
    std::vector<uint64_t> terms; for(int i = 1; i <= m; ++i) terms.push_back(i);
    for(uint64_t t: {97ull, 100ull, 1000ull, 65537ull, 1000000ull, 4294967295ull, 4294967296ull, 10000000000ull}) terms.push_back(t);
    r.scope("converting amounts", [=](mc::ctx &c) {
        auto &k = c.pick(currencies()); uint64_t n = c.pick(terms), d = c.pick(terms); int64_t v = c.pick(amounts);
        uint64_t q = gcd(n, d); wide p = wide(v) * wide(n / q);
        const exchange_rate e(n, d);
        MC_CHECK(c, ratio(e, n, d), "construction", n << "/" << d);
        if(!fits(p)) return;
        c.op(); c.state(MC_STR(n / q << '/' << d / q << '*' << v));
        const price x(v, k); price y = e * x;
        MC_LOG(c, x << " * " << n << "/" << d << " = " << y);
        MC_CHECK(c, is(y, p / wide(d / q), k), "conversion", x << " * " << n << "/" << d << " = " << y);
        MC_CHECK(c, is(x, v, k) && ratio(e, n, d), "operands", "changed");
        exchange_rate f(e); MC_CHECK(c, ratio(f, n, d) && is(f * x, p / wide(d / q), k), "copy", "");
        MC_CHECK(c, std::abs(double(e) - double(n) / double(d)) <= 1e-12 * double(n) / double(d), "to real", n << "/" << d);
    });
    std::vector<int64_t> small; for(int i = -m / 2; i <= m / 2; ++i) small.push_back(i);
    for(int64_t x: {100ll, 10000ll, -10000ll, 1000003ll, -2147483648ll, 2147483647ll}) small.push_back(x);
    std::vector<int64_t> dens; for(int i = 1; i <= std::min(m, 20) / 2; ++i) dens.push_back(i); for(int64_t x: {100ll, 10000ll, 2147483647ll}) dens.push_back(x);
    r.scope("arithmetic and comparison of signed rates", [=](mc::ctx &c) {
        int64_t a = c.pick(small), b = c.pick(dens), x = c.pick(small), y = c.pick(dens);
        const rate<int64_t> p(a, b), q(x, y);
        c.op(); c.state(MC_STR(p << ' ' << q));
        MC_LOG(c, a << "/" << b << " and " << x << "/" << y);
        MC_CHECK(c, ratio(p, a, b) && ratio(q, x, y), "construction", a << "/" << b);
        wide l = wide(a) * y, rr = wide(x) * b;
        const boost::rational<int64_t> &pr = p, &qr = q;
        compare(c, p, q, pr, qr, l, rr);
        bool narrow = std::abs(double(a)) < 1e6 && b < 1000000 && std::abs(double(x)) < 1e6 && y < 1000000;
        if(narrow) {
            rate<int64_t> s(pr + qr), t(pr - qr), u(pr * qr);
            MC_CHECK(c, ratio(s, l + rr, wide(b) * y), "sum", a << "/" << b << " + " << x << "/" << y << " = " << s);
            MC_CHECK(c, ratio(t, l - rr, wide(b) * y), "difference", a << "/" << b << " - " << x << "/" << y << " = " << t);
            MC_CHECK(c, ratio(u, wide(a) * x, wide(b) * y), "chain", a << "/" << b << " * " << x << "/" << y << " = " << u);
            if(x) { rate<int64_t> v(pr / qr); MC_CHECK(c, ratio(v, wide(a) * y, wide(b) * x), "quotient", a << "/" << b << " / " << x << "/" << y << " = " << v); }
            rate<int64_t> w(p); w += q; MC_CHECK(c, ratio(w, l + rr, wide(b) * y), "+=", ""); w -= q; MC_CHECK(c, ratio(w, a, b), "-=", ""); w *= q; MC_CHECK(c, ratio(w, wide(a) * x, wide(b) * y), "*=", "");
        }
        rate<int64_t> z(q); z = p; MC_CHECK(c, ratio(z, a, b), "assignment", "");
        MC_CHECK(c, std::abs(double(p) - double(a) / double(b)) <= 1e-12 * std::abs(double(a) / double(b)), "to real", a << "/" << b);
    });
    r.scope("chaining exchange rates", [=](mc::ctx &c) {
        uint64_t a = c.pick(terms), b = c.pick(terms), x = c.pick(terms), y = c.pick(terms);
        if(a > 100000 || b > 100000 || x > 100000 || y > 100000) return;
        const exchange_rate p(a, b), q(x, y); c.op(); c.state(MC_STR(p << ' ' << q));
        const boost::rational<uint64_t> &pr = p, &qr = q;
        exchange_rate u = rate<uint64_t>(pr * qr);
        MC_CHECK(c, ratio(u, wide(a) * x, wide(b) * y), "chain", a << "/" << b << " * " << x << "/" << y << " = " << u);
        exchange_rate v = rate<uint64_t>(pr / qr);
        MC_CHECK(c, ratio(v, wide(a) * y, wide(b) * x), "quotient", "");
        wide l = wide(a) * y, rr = wide(x) * b;
        compare(c, p, q, pr, qr, l, rr);
        // same precision as another rate (denominator in lowest terms), rounded towards zero
        uint64_t qd = y / gcd(x, y); if(wide(a) * qd / 8 == 0) return;
        exchange_rate s(double(a) / 8, q); MC_CHECK(c, ratio(s, wide(a) * qd / 8, qd), "similar precision", a / 8. << " like " << q << " gives " << s);
    });
    r.scope("rates from real numbers", [=](mc::ctx &c) {
        static const std::vector<uint64_t> precisions{1, 2, 3, 10, 100, 1000, 10000, 1000000, 4294967296ull};
        int k = int(c.choose(2 * g + 1)) - g; uint64_t q = c.pick(precisions); uint32_t den = c.pick(std::vector<uint32_t>{8, 10, 100, 7});
        double v = double(k) / den; c.op(); c.state(MC_STR(v << ' ' << q));
        rate<int64_t> x(v, q);
        if(den == 8) MC_CHECK(c, ratio(x, wide(k) * q / 8, q), "from real", v << " at 1/" << q << " gives " << x);
        double e = v * double(q), h = double(x.numerator()) / double(x.denominator()) * double(q);
        MC_CHECK(c, std::abs(h - std::trunc(e)) <= 1e-9 * std::abs(e), "from real", v << " at 1/" << q << " gives " << x);
        if(den == 8) { rate<int64_t> y(v); MC_CHECK(c, ratio(y, wide(k) * 10000 / 8, 10000), "default precision", v << " gives " << y); }
    });
    r.scope("money amounts and prices", [=](mc::ctx &c) {
        using esl::economics::cash;
        auto &k = c.pick(currencies()); int q = int(c.choose(4 * g + 1)) - 2 * g; uint32_t den = c.pick(std::vector<uint32_t>{8, 100});
        cash m(k); double v = double(q) / den; c.op(); c.state(MC_STR(v << ' ' << std::string(k)));
        MC_LOG(c, v << ' ' << std::string(k));
        double e = v * double(k.denominator); wide t = wide(std::trunc(e));
        if(den == 8) t = wide(q) * k.denominator / 8;
        MC_CHECK(c, is(m.price(v), t, k), "price of real", v << " gives " << m.price(v));
        MC_CHECK(c, m.denomination == k, "denomination", "");
        if(q < 0) { MC_CHECK(c, throws([&] { (void)m.amount(v); }), "negative amount", v << " gives " << m.amount(v).amount); }
        else { auto a = m.amount(v); MC_CHECK(c, wide(a.amount) == t, "amount of real", v << " gives " << a.amount); MC_CHECK(c, is(m.price(a), t, k), "price of quantity", a.amount << " gives " << m.price(a)); }
        std::function<int64_t(double)> up = [](double x) { return int64_t(std::ceil(x)); };
        MC_CHECK(c, is(m.price(v, up), wide(std::ceil(e)), k), "rounding rule", v << " gives " << m.price(v, up));
        if(q >= 0) { std::function<uint64_t(double)> uu = [](double x) { return uint64_t(std::ceil(x)); }; MC_CHECK(c, wide(m.amount(v, uu).amount) == wide(std::ceil(e)), "rounding rule", v << " gives " << m.amount(v, uu).amount); }
        MC_CHECK(c, m.amount().amount == 0 && is(m.price(), 0, k), "defaults", "");
    });
    r.scope("quantities of money as prices", [=](mc::ctx &c) {
        using esl::economics::cash;
        auto &k = c.pick(currencies()); int64_t v = c.pick(amounts); if(v < 0) v = INT64_MAX + v + 1; c.op();
        cash m(k); MC_CHECK(c, is(m.price(quantity(v)), v, k), "price of quantity", v << " gives " << m.price(quantity(v)));
    });
    r.scope("cash of every currency code is one property", [=](mc::ctx &c) {
        using esl::economics::cash;
        char a = 'A' + c.choose(26), b = 'A' + c.choose(26);
        std::map<std::vector<uint64_t>, std::string> seen;
        // all codes that share one letter position pair with this one, and all anagrams
        auto add = [&](char x, char y, char z) {
            c.op(); iso_4217 k({x, y, z}); std::string n(k); cash m(k), m2(k);
            c.state(n);
            std::vector<uint64_t> id; for(auto d: m.identifier.digits) id.push_back(d);
            MC_CHECK(c, m.identifier == m2.identifier && m == m2 && !(m2 != m) && m.denomination == k, "same currency", n);
            auto i = seen.emplace(id, n).first; MC_CHECK(c, i->second == n, "different currencies", n << " and " << i->second << " are one property");
            return m;
        };
        for(char z = 'A'; z <= 'Z'; ++z) { add(a, b, z); add(a, z, b); add(z, a, b); add(b, a, z); add(z, b, a); add(b, z, a); }
        cash x(iso_4217({a, b, 'X'})), y(iso_4217({b, a, 'X'})); MC_CHECK(c, (x == y) == (a == b) && (x.identifier == y.identifier) == (a == b), "cash equality", a << b);
    });
    return r.finish();
}
