#include "mc.hpp"
#include <esl/quantity.hpp>
using esl::quantity;
typedef unsigned __int128 wide;
static const wide TOP = UINT64_MAX;
static std::string str(wide w) { if(w == 0) return "0"; std::string s; while(w) { s.insert(s.begin(), '0' + (int)(w % 10)); w /= 10; } return s; }

static std::vector<uint64_t> amounts(uint64_t n)
{
    std::vector<uint64_t> r;
    for(uint64_t i = 0; i <= n; ++i) r.push_back(i);
    for(int k: {16, 31, 32, 33, 52, 53, 63}) for(int d: {-1, 0, 1}) r.push_back((uint64_t(1) << k) + d);
    for(uint64_t d = 0; d < 3; ++d) r.push_back(UINT64_MAX - d);
    return r;
}

template<size_t n> void parts(mc::ctx &c, uint64_t a)
{
    quantity q(a);
    auto r = q.divide<n>();
    wide sum = 0;
    for(size_t i = 0; i < n; ++i) {
        sum += r[i].amount;
        MC_CHECK(c, r[i].amount == a / n + (i < a % n ? 1 : 0), "divide", "part " << i << " of " << a << " divided by " << n << " is " << r[i]);
    }
    MC_CHECK(c, sum == a, "divide sum", a << " divided in " << n << " parts that sum to " << str(sum));
    MC_CHECK(c, q.amount == a, "divide modifies", "");
}

template<size_t... i> void static_parts(mc::ctx &c, uint64_t a, size_t n, std::index_sequence<i...>)
{
    ((i + 1 == n ? parts<i + 1>(c, a) : void()), ...);
}

static void compare(mc::ctx &c, uint64_t a, uint64_t b)
{
    quantity x(a), y(b);
    MC_CHECK(c, (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b),
             "comparison", "of " << a << " and " << b);
    if(a <= (1ull << 53) && b <= (1ull << 53)) for(int h = -1; h <= 1; ++h) {
        double d = double(b) + 0.5 * h, v = double(a);
        MC_CHECK(c, (x == d) == (v == d) && (x < d) == (v < d) && (x > d) == (v > d) && (x <= d) == (v <= d) && (x >= d) == (v >= d), "comparison with real", a << " and " << d);
    }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C14");
    auto grid = amounts(r.bound(300, 1500));
    r.scope("all pairs of amounts: arithmetic and comparisons", [=](mc::ctx &c) {
        uint64_t a = c.pick(grid), b = c.pick(grid);
        c.op(); c.state(MC_STR(a << ' ' << b));
        quantity x(a), y(b);
        MC_LOG(c, a << " and " << b);
        compare(c, a, b);
        wide s = wide(a) + b, p = wide(a) * b;
        if(s <= TOP) { MC_CHECK(c, (x + y).amount == (uint64_t)s, "sum", a << " + " << b << " = " << (x + y)); quantity z(x); auto &ref = (z += y); MC_CHECK(c, z.amount == (uint64_t)s && &ref == &z, "+=", a << " += " << b); }
        if(p <= TOP) {
            MC_CHECK(c, (x * y).amount == (uint64_t)p, "product", a << " * " << b << " = " << (x * y));
            MC_CHECK(c, (x * b).amount == (uint64_t)p, "product", a << " * " << b << " = " << (x * b));
            quantity z(x); z *= b; MC_CHECK(c, z.amount == (uint64_t)p, "*=", a << " *= " << b);
        }
        bool threw = false; quantity d(77);
        try { d = x - y; } catch(const esl::exception &) { threw = true; }
        MC_CHECK(c, threw == (a < b), "difference", a << " - " << b << (threw ? " is an error" : " is not an error"));
        MC_CHECK(c, d.amount == (a < b ? 77 : a - b), "difference", a << " - " << b << " = " << d);
        quantity z(x); threw = false;
        try { z -= y; } catch(const esl::exception &) { threw = true; }
        MC_CHECK(c, threw == (a < b) && z.amount == (a < b ? a : a - b), "-=", a << " -= " << b << " gives " << z);
        if(b) { quantity w(a); w /= b; MC_CHECK(c, w.amount == a / b, "/=", a << " /= " << b << " gives " << w); }
        MC_CHECK(c, x.amount == a && y.amount == b, "operands", "changed");
    });
    r.scope("all amounts: increments, decrements, conversions, copies, text", [=](mc::ctx &c) {
        uint64_t a = c.pick(grid);
        c.op(); c.state(a);
        MC_LOG(c, a);
        if(a < UINT64_MAX) {
            quantity x(a); auto &p = ++x; MC_CHECK(c, x.amount == a + 1 && &p == &x, "++q", "of " << a << " gives " << x);
            quantity y(a); auto o = y++; MC_CHECK(c, y.amount == a + 1 && o.amount == a, "q++", "of " << a << " gives " << y << " and returns " << o);
        }
        bool threw = false; quantity x(a);
        try { auto &p = --x; MC_CHECK(c, &p == &x, "--q", "returns another object"); } catch(const esl::exception &) { threw = true; }
        MC_CHECK(c, threw == (a == 0) && x.amount == (a ? a - 1 : 0), "--q", "of " << a << (threw ? " is an error" : "") << " gives " << x);
        threw = false; quantity y(a), o(5);
        try { o = y--; } catch(const esl::exception &) { threw = true; }
        MC_CHECK(c, threw == (a == 0) && y.amount == (a ? a - 1 : 0) && (!a || o.amount == a), "q--", "of " << a << " gives " << y << " and returns " << o);
        MC_CHECK(c, double(quantity(a)) == double(a) && uint64_t(quantity(a)) == a, "conversion", "of " << a);
        quantity k(a), cp(k), mv(std::move(k)), as; as = cp;
        MC_CHECK(c, cp.amount == a && mv.amount == a && as.amount == a && quantity().amount == 0, "copy", "of " << a);
        MC_CHECK(c, k.representation() == std::to_string(a), "text", k.representation());
    });
    uint64_t maxn = r.bound(200, 700);
    r.scope("all amounts and numbers of parts: division at run time", [=](mc::ctx &c) {
        uint64_t a = c.pick(grid), n = 1 + c.choose(maxn);
        c.op(); c.state(MC_STR(a << '/' << n));
        MC_LOG(c, a << " / " << n);
        quantity q(a);
        auto v = q / n;
        MC_CHECK(c, v.size() == n, "division", a << " / " << n << " gives " << v.size() << " parts");
        wide sum = 0;
        for(size_t i = 0; i < n; ++i) {
            sum += v[i].amount;
            MC_CHECK(c, v[i].amount == a / n + (i < a % n ? 1 : 0), "division", "part " << i << " of " << a << " / " << n << " is " << v[i]);
        }
        MC_CHECK(c, sum == a && q.amount == a, "division", a << " / " << n << " sums to " << str(sum));
    });
    r.scope("all amounts and 1 to 40 parts: division at compile time", [=](mc::ctx &c) {
        uint64_t a = c.pick(grid); size_t n = 1 + c.choose(40);
        c.op(); c.state(MC_STR(a << '/' << n));
        MC_LOG(c, a << " / " << n);
        static_parts(c, a, n, std::make_index_sequence<40>());
    });
    int depth = r.bound(4, 5);
    r.scope(MC_STR("every sequence of " << depth << " in-place operations, failing ones included"), [=](mc::ctx &c) {
        static const std::vector<uint64_t> start{0, 1, 2, 5, UINT64_MAX}, arg{0, 1, 3, 6};
        uint64_t m = c.pick(start); quantity q(m);
        for(int d = 0; d < depth; ++d) {
            uint32_t k = c.choose(8); uint64_t b = k < 4 ? c.pick(arg) : 1;
            c.op();
            wide w = m; bool err = false, threw = false;
            switch(k) {
            case 0: w += b; break;
            case 1: if(m < b) err = true; else w -= b; break;
            case 2: w *= b; break;
            case 3: if(b) w /= b; break;
            case 4: case 5: w += 1; break;
            case 6: case 7: if(!m) err = true; else w -= 1; break;
            }
            if(w > TOP || (k == 3 && !b)) continue;
            quantity before(q), ret;
            try {
                switch(k) {
                case 0: q += quantity(b); break;
                case 1: q -= quantity(b); break;
                case 2: q *= b; break;
                case 3: q /= b; break;
                case 4: ++q; break;
                case 5: ret = q++; break;
                case 6: --q; break;
                case 7: ret = q--; break;
                }
            } catch(const esl::exception &) { threw = true; }
            if(!err) m = (uint64_t)w;
            MC_LOG(c, "operation " << k << " with " << b << " gives " << q << (threw ? " and an error" : ""));
            MC_CHECK(c, threw == err, "error", "operation " << k << " on " << before << " and " << b);
            MC_CHECK(c, q.amount == m, "value", "operation " << k << " on " << before << " and " << b << " gives " << q);
            c.state(m);
        }
    });
    return r.finish();
}
