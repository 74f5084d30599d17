// mc-sources: esl/economics/price.cpp esl/economics/iso_4217.cpp esl/exception.cpp
#include "mc.hpp"
#include <cassert>
#include <cmath>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/avellaneda_stoikov.hpp>
using namespace esl::economics; using esl::economics::markets::order_book::avellaneda_stoikov;
typedef long double real;

static const iso_4217 JPY({'J','P','Y'}, 1), MIL({'U','S','D'}, 1000);
static const std::vector<iso_4217> &currencies_() { static const std::vector<iso_4217> c{currencies::USD, JPY, MIL}; return c; }

struct arg { int64_t mid; uint64_t n_long, n_short; double theta, sigma, gamma, k; int currency; };
static std::string show(const arg &a) { return MC_STR("mid " << a.mid << ' ' << std::string(currencies_()[a.currency]) << " long " << a.n_long << " short " << a.n_short << " theta " << a.theta << " sigma " << a.sigma << " gamma " << a.gamma << " k " << a.k); }

// the model of Avellaneda and Stoikov (2008), in smallest units
static real reservation(const arg &a) { real d = currencies_()[a.currency].denominator; return real(a.mid) - d * (real(a.n_long) - real(a.n_short)) * real(a.gamma) * real(a.sigma) * real(a.sigma) * (1 - real(a.theta)); }
static real spread(const arg &a) { real d = currencies_()[a.currency].denominator; return d * (real(a.gamma) * real(a.sigma) * real(a.sigma) * (1 - real(a.theta)) + (a.gamma > 0 ? 2 / real(a.gamma) * log1pl(real(a.gamma) / a.k) : 2 / real(a.k))); }

struct quotes { int64_t bid, ask; };
static quotes verify(mc::ctx &c, const arg &a)
{
    auto &k = currencies_()[a.currency]; auto q = avellaneda_stoikov(price(a.mid, k), a.n_long, a.n_short, a.theta, a.sigma, a.gamma, a.k); c.op();
    real r = reservation(a), s = spread(a), b = q.first.value, o = q.second.value;
    // one unit for rounding, and what double precision can resolve of numbers of this size
    real tol = 1 + 1e-9L + 8 * 2.3e-16L * (fabsl(r) + fabsl(real(a.mid)) + s);
    MC_LOG(c, show(a) << " gives " << q.first.value << ' ' << q.second.value << ", reservation " << (double)r << " spread " << (double)s);
    MC_CHECK(c, q.first.valuation == k && q.second.valuation == k, "currency", show(a));
    MC_CHECK(c, b <= o, "crossed", show(a) << " gives bid " << q.first.value << " ask " << q.second.value);
    MC_CHECK(c, fabsl(b - (r - s / 2)) <= tol, "bid", show(a) << " gives bid " << q.first.value << " instead of " << (double)(r - s / 2));
    MC_CHECK(c, fabsl(o - (r + s / 2)) <= tol, "ask", show(a) << " gives ask " << q.second.value << " instead of " << (double)(r + s / 2));
    MC_CHECK(c, fabsl((b + o) / 2 - r) <= tol, "symmetric", show(a) << " gives " << q.first.value << ' ' << q.second.value << " around " << (double)r);
    return {q.first.value, q.second.value};
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C13");
    static const std::vector<int64_t> mids{-101, 0, 1, 2, 29, 57, 99, 100, 101, 999, 10000, 10001, 123456789, 100000000000ll};
    static const std::vector<std::pair<uint64_t, uint64_t>> inventories{{0, 0}, {5, 5}, {1, 0}, {0, 1}, {2, 1}, {1, 2}, {3, 0}, {0, 3}, {10, 0}, {0, 10}, {100, 7}, {7, 100}, {1000000, 0}, {0, 1000000}};
    static const std::vector<double> thetas{0, 0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, 1}, sigmas{1e-9, 1e-4, 0.01, 0.05, 0.2, 1, 2, 20, 30}, gammas{0, 1e-18, 1e-12, 1e-6, 0.001, 0.01, 0.1, 0.5, 1, 10}, ks{0.1, 0.3, 1, 1.5, 10, 1000};
    auto read = [](mc::ctx &c) { arg a; a.currency = c.choose(currencies_().size()); a.mid = c.pick(mids); std::tie(a.n_long, a.n_short) = c.pick(inventories); a.theta = c.pick(thetas); a.sigma = c.pick(sigmas); a.gamma = c.pick(gammas); a.k = c.pick(ks); return a; };
    r.scope("the grid of all parameters: quotes equal the model", [=](mc::ctx &c) { auto a = read(c); auto q = verify(c, a); c.state(MC_STR(a.mid << ' ' << a.currency << ' ' << q.bid << ' ' << q.ask)); });
    r.scope("the grid of all parameters: monotone in inventory, volatility and time", [=](mc::ctx &c) {
        arg a; a.currency = c.choose(currencies_().size()); a.mid = c.pick(mids); uint32_t i = c.choose(6); std::tie(a.n_long, a.n_short) = inventories[i]; a.gamma = c.pick(gammas); a.k = c.pick(ks);
        uint32_t t = c.choose(thetas.size()), s = c.choose(sigmas.size()); a.theta = thetas[t]; a.sigma = sigmas[s]; auto q = verify(c, a);
        // while inventory is level the reservation price is the mid price, and rounding preserves the order of spreads; otherwise it may differ by a unit
        int64_t slack = a.n_long == a.n_short ? 0 : 2; auto width = [](quotes x) { return x.ask - x.bid; }; real big = fabsl(reservation(a)) + spread(a) > 1e14L;
        if(s + 1 < sigmas.size()) { auto b = a; b.sigma = sigmas[s + 1]; auto n = verify(c, b); if(!big) MC_CHECK(c, width(n) + slack >= width(q), "volatility", show(b) << " has spread " << width(n) << " less than " << width(q)); }
        if(t + 1 < thetas.size()) { auto b = a; b.theta = thetas[t + 1]; auto n = verify(c, b); if(!big) MC_CHECK(c, width(n) <= width(q) + slack, "time", show(b) << " has spread " << width(n) << " more than " << width(q)); }
        for(uint64_t more: {1, 2, 50}) { auto b = a; b.n_long += more; auto n = verify(c, b); MC_CHECK(c, n.bid <= q.bid && n.ask <= q.ask, "inventory", show(b) << " gives " << n.bid << ' ' << n.ask << " above " << q.bid << ' ' << q.ask);
            auto d = a; d.n_short += more; auto m = verify(c, d); MC_CHECK(c, m.bid >= q.bid && m.ask >= q.ask, "inventory", show(d) << " gives " << m.bid << ' ' << m.ask << " below " << q.bid << ' ' << q.ask);
            // only the net inventory matters
            auto e = a; e.n_long += more; e.n_short += more; auto x = verify(c, e); MC_CHECK(c, x.bid == q.bid && x.ask == q.ask, "net inventory", show(e)); }
        c.state(MC_STR(a.mid << ' ' << a.currency << ' ' << q.bid << ' ' << q.ask));
    });
    int most = r.bound(2000, 20000);
    r.scope(MC_STR("every mid price up to " << most << " units, narrow and wide spreads"), [=](mc::ctx &c) {
        arg a{int64_t(c.choose(most)), 0, 0, 0, 0, 0, 0, int(c.choose(3))}; std::tie(a.n_long, a.n_short) = inventories[c.choose(6)]; a.theta = c.flip() ? 1 : 0.5; a.sigma = c.flip() ? 0.2 : 1e-9; a.gamma = std::vector<double>{0, 0.01, 1}[c.choose(3)]; a.k = std::vector<double>{1.5, 1000, 1e12}[c.choose(3)];
        auto q = verify(c, a); c.state(MC_STR(a.mid << ' ' << a.currency << ' ' << q.bid << ' ' << q.ask));
    });
    return r.finish();
}
