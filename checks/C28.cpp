// mc-sources: esl/exception.cpp
#include "mc.hpp"
#include <deque>
#include <forward_list>
#include <iomanip>
#include <list>
#include <map>
#include <set>
#include <esl/algorithms.hpp>
using namespace esl;
typedef long double real;

template<typename t_> static std::string show(const std::vector<t_> &v) { std::ostringstream s; s.precision(17); s << '{'; for(auto &x: v) s << ' ' << x; s << " }"; return s.str(); }
static bool near(real a, real b, real tolerance = 1e-9L) { return std::isfinite((double)a) && fabsl(a - b) <= tolerance * std::max<real>(1, fabsl(b)); }

// -- powers
template<typename t_> static void power(mc::ctx &c, t_ x, t_ p)
{
    __int128 e = 1, max = std::numeric_limits<t_>::max(), min = std::numeric_limits<t_>::min(); bool fits = true;
    typename std::make_unsigned<t_>::type wrapped = 1;
    for(t_ i = 0; i < p; ++i) { if(fits) e *= x; wrapped *= x; if(e > max || e < min) fits = false; }
    if(!fits && std::is_signed<t_>::value) return;                  // not representable
    auto r = nonnegative_integer_power<t_>(x, p); c.op();
    MC_CHECK(c, r == (fits ? t_(e) : t_(wrapped)), "power", +x << " to the power " << +p << " gives " << +r);
    c.state(MC_STR(sizeof(t_) << ' ' << x << ' ' << p));
}

// -- arrays of every size
static constexpr size_t largest = 8;
template<size_t b_, size_t e_, typename collection_t_> static void copied(mc::ctx &c, const collection_t_ &v, const char *what)
{
    std::vector<int> expected; size_t i = 0; for(auto &x: v) { if(i >= b_ && i < e_) expected.push_back(x); ++i; }
    bool thrown = false; std::array<int, e_ - b_> a;
    try { a = to_array<b_, e_, int>(v); } catch(const std::out_of_range &) { thrown = true; } c.op();
    MC_CHECK(c, thrown == (i < e_), "range", "copying elements " << b_ << " to " << e_ << " of a " << what << " of " << i << (thrown ? " throws" : " does not throw"));
    if(!thrown) MC_CHECK(c, std::equal(a.begin(), a.end(), expected.begin(), expected.end()), "copy", "elements " << b_ << " to " << e_ << " of " << show(std::vector<int>(v.begin(), v.end())) << " as " << show(std::vector<int>(a.begin(), a.end())));
}
template<size_t b_, size_t e_> static void copies(mc::ctx &c, const std::vector<int> &v)
{
    copied<b_, e_>(c, v, "vector"); copied<b_, e_>(c, std::list<int>(v.begin(), v.end()), "list"); copied<b_, e_>(c, std::set<int>(v.begin(), v.end()), "set"); copied<b_, e_>(c, std::deque<int>(v.begin(), v.end()), "deque");
}
template<size_t n_> static std::array<int, n_> numbered(int from) { std::array<int, n_> a{}; for(size_t i = 0; i < n_; ++i) a[i] = from + int(i); return a; }
template<size_t b_, size_t e_, size_t n_> static void sliced(mc::ctx &c)
{
    if constexpr(b_ <= e_ && e_ <= n_) {
        auto a = numbered<n_>(7); auto r = array_slice<b_, e_>(a); c.op(); static_assert(std::tuple_size<decltype(r)>::value == e_ - b_);
        for(size_t i = b_; i < e_; ++i) MC_CHECK(c, r[i - b_] == 7 + int(i), "slice", "element " << i - b_ << " of " << b_ << ".." << e_ << " is " << r[i - b_]);
        MC_CHECK(c, a == numbered<n_>(7), "slice", "changes its argument");
    }
}
template<size_t b_, size_t e_, size_t... n_> static void slices(mc::ctx &c, std::index_sequence<n_...>) { (sliced<b_, e_, n_>(c), ...); }
template<size_t a_, size_t b_> static void joined(mc::ctx &c)
{
    auto a = numbered<a_>(1); auto b = numbered<b_>(100); auto r = array_concatenate(a, b); c.op(); static_assert(std::tuple_size<decltype(r)>::value == a_ + b_);
    for(size_t i = 0; i < a_ + b_; ++i) MC_CHECK(c, r[i] == (i < a_ ? 1 + int(i) : 100 + int(i - a_)), "concatenate", "element " << i << " of " << a_ << '+' << b_ << " is " << r[i]);
}
typedef void (*routine)(mc::ctx &, size_t);
template<size_t b_, size_t e_> static void any(mc::ctx &c, size_t n)
{
    joined<b_, e_>(c); slices<b_, e_>(c, std::make_index_sequence<largest + 1>());
    if constexpr(b_ <= e_) { std::vector<int> v; for(size_t i = 0; i < n; ++i) v.push_back(int(3 * i)); copies<b_, e_>(c, v); }
}
template<size_t b_, size_t... e_> static void row(std::vector<routine> &v, std::index_sequence<e_...>) { (v.push_back(any<b_, e_>), ...); }
template<size_t... b_> static std::vector<routine> table(std::index_sequence<b_...> s) { std::vector<routine> v; (row<b_>(v, s), ...); return v; }

// -- enumeration
template<typename collection_t_> static void enumerated(mc::ctx &c, collection_t_ v, const char *what)
{
    std::vector<int> original(v.begin(), v.end()); size_t n = 0;
    for(auto [i, x]: enumerate(v)) { MC_CHECK(c, i == n, "index", what << " gives index " << i << " at element " << n); MC_CHECK(c, n < original.size() && x == original[n], "element", what << " gives " << x << " at " << n); ++n; c.op(); if(n > 100) break; }
    MC_CHECK(c, n == original.size(), "count", what << " enumerates " << n << " of " << original.size());
    n = 0; const auto &k = v; for(auto [i, x]: enumerate(k)) { MC_CHECK(c, i == n && x == original[n], "element", "const " << what << " at " << n); ++n; }
    MC_CHECK(c, n == original.size(), "count", "const " << what << " enumerates " << n);
    n = 0; for(auto [i, x]: enumerate(collection_t_(v))) { MC_CHECK(c, i == n && x == original[n], "element", "temporary " << what << " at " << n); ++n; }
    MC_CHECK(c, n == original.size(), "count", "temporary " << what << " enumerates " << n);
    if constexpr(!std::is_same<collection_t_, std::set<int>>::value) {
        for(auto [i, x]: enumerate(v)) x = int(i) * 2 + 1;
        n = 0; for(auto x: v) MC_CHECK(c, x == int(n++) * 2 + 1, "reference", "elements of " << what << " are not reached by reference");
    }
}

// -- means
static std::vector<double> sequence(mc::ctx &c, const std::vector<double> &alphabet, int most, int least) { int n = least + c.choose(most - least + 1); std::vector<double> v; while(n--) v.push_back(c.pick(alphabet)); return v; }

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C28");
    int p = r.bound(130, 700);
    r.scope(MC_STR("integer powers: bases and exponents up to " << p), [=](mc::ctx &c) {
        uint32_t x = c.choose(p), e = c.choose(p), kind = c.choose(4);
        switch(kind) { case 0: power<unsigned>(c, x, e); break; case 1: power<uint64_t>(c, x, e); break; case 2: power<int>(c, int(x) - 20, e); break; default: power<int64_t>(c, int64_t(x) - 20, e); } });
    static const auto routines = table(std::make_index_sequence<largest + 1>());
    r.scope("arrays: every begin, end and size up to 8", [=](mc::ctx &c) { size_t i = c.choose(routines.size()), n = c.choose(largest + 2); routines[i](c, n); c.state(MC_STR(i << ' ' << n)); });
    r.scope("enumeration of vectors, lists, sets and deques", [=](mc::ctx &c) {
        std::vector<int> v; int n = c.choose(r.bound(5, 7)); while(n--) v.push_back(c.choose(4)); c.state(show(v));
        switch(c.choose(4)) { case 0: enumerated(c, v, "vector"); break; case 1: enumerated(c, std::list<int>(v.begin(), v.end()), "list"); break; case 2: enumerated(c, std::set<int>(v.begin(), v.end()), "set"); break; default: enumerated(c, std::deque<int>(v.begin(), v.end()), "deque"); } });
    int eighths = r.bound(2000, 20000);
    r.scope("rounding: every multiple of an eighth and its neighbours", [=](mc::ctx &c) {
        double v = (int(c.choose(2 * eighths + 1)) - eighths) / 8.; int k = c.choose(3); if(k) v = std::nextafter(v, k == 1 ? -1e9 : 1e9); v *= c.pick(std::vector<double>{1, 1000, 1e-3, 1099511627776.});
        int64_t z = int64_t(v), a = z + (double(z) == v ? 0 : v < 0 ? -1 : 1); c.state(MC_STR(z << ' ' << a << ' ' << k));
        auto rz = rounding::integer_towards_zero(v), ra = rounding::integer_away_from_zero(v); c.op();
        MC_CHECK(c, rz == z, "towards zero", MC_STR(std::setprecision(17) << v) << " gives " << rz); MC_CHECK(c, ra == a, "away from zero", MC_STR(std::setprecision(17) << v) << " gives " << ra);
        if(v >= 0) MC_CHECK(c, (rounding::integer_towards_zero<double, uint64_t>(v)) == uint64_t(z), "towards zero", v << " unsigned"); });
    static const std::vector<double> positive{0.001, 0.5, 1, 1.1, 2, 3, 10, 1e6}, growing{0.5, 1, 1.05, 1.5, 2, 4, 100};
    r.scope("geometric mean and growth rate of every short sequence", [=](mc::ctx &c) {
        auto v = sequence(c, c.flip() ? positive : growing, r.bound(5, 7), 1); c.state(show(v)); real product = 1; for(auto x: v) product *= x;
        real mean = powl(product, 1.L / v.size()); auto g = geometric_mean(v), h = geometric_mean(v.begin(), v.end()); std::list<double> l(v.begin(), v.end()); auto m = geometric_mean(l); c.op();
        MC_CHECK(c, near(g, mean) && near(h, mean) && near(m, mean), "geometric mean", show(v) << " gives " << g << " instead of " << (double)mean);
        real growth = v.size() > 1 ? powl(real(v.back()) / v.front(), 1.L / (v.size() - 1)) - 1 : 0; auto q = growth_rate(v.begin(), v.end()), s = growth_rate(l.begin(), l.end()); c.op();
        MC_CHECK(c, near(q, growth) && near(s, growth), "growth rate", show(v) << " gives " << q << " instead of " << (double)growth << " per period"); });
    r.scope("geometric mean of every short sequence of whole numbers", [=](mc::ctx &c) {
        std::vector<int> v; int n = 1 + c.choose(r.bound(4, 6)); while(n--) v.push_back(1 + c.choose(9)); c.state(show(v)); real product = 1; for(auto x: v) product *= x; real mean = powl(product, 1.L / v.size());
        auto g = geometric_mean(v); c.op(); MC_CHECK(c, near(g, mean), "geometric mean", show(v) << " gives " << g << " instead of " << (double)mean); });
    static const std::vector<double> weights{0, 0.1, 0.25, 1. / 3, 0.5, 1, 2.6};
    int sums = r.bound(13, 60);
    r.scope("allocation of every target over every short list of shares", [=](mc::ctx &c) {
        auto v = sequence(c, weights, r.bound(4, 5), 1); int sum = c.choose(sums); real total = 0; for(auto x: v) total += x; if(total == 0) return;
        auto a = allocate_fractions(v, sum); c.op(); c.state(show(v) + std::to_string(sum)); MC_CHECK(c, a.size() == v.size(), "size", show(v) << " gives " << show(a)); int s = 0;
        for(size_t i = 0; i < v.size(); ++i) { s += a[i]; real exact = v[i] * sum / total; MC_CHECK(c, a[i] >= 0 && fabsl(a[i] - exact) < 1 + 1e-9L, "share", "allocating " << sum << " over " << show(v) << " gives " << show(a) << ": " << a[i] << " instead of " << (double)exact); }
        MC_CHECK(c, s == sum, "sum", "allocating " << sum << " over " << show(v) << " gives " << show(a)); });
    r.scope("allocation where the shares are normalised", [=](mc::ctx &c) {
        int parts = 1 + c.choose(r.bound(5, 6)), units = r.bound(12, 16), left = units; std::vector<double> v; for(int i = 1; i < parts; ++i) { int k = c.choose(left + 1); left -= k; v.push_back(double(k) / units); } v.push_back(double(left) / units);
        int sum = c.pick(std::vector<int>{0, 1, 2, 3, 5, 7, 10, 100, 99999}); auto a = allocate_fractions(v, sum); c.op(); c.state(show(v) + std::to_string(sum)); int s = 0;
        for(size_t i = 0; i < v.size(); ++i) { s += a[i]; MC_CHECK(c, a[i] >= 0 && std::fabs(a[i] - v[i] * sum) < 1 + 1e-9, "share", "allocating " << sum << " over " << show(v) << " gives " << show(a)); }
        MC_CHECK(c, s == sum, "sum", "allocating " << sum << " over " << show(v) << " gives " << show(a)); });
    int divisions = r.bound(24, 60);
    r.scope(MC_STR("barycentric samples: up to 5 dimensions, up to " << divisions << " divisions"), [=](mc::ctx &c) {
        size_t n = 1 + c.choose(5), d = 1 + c.choose(n < 4 ? divisions : n == 4 ? divisions / 2 : divisions / 3); auto s = sample_barycentric<double>(n, d); c.op(); c.state(MC_STR(n << ' ' << d)); std::set<std::vector<int>> seen;
        for(auto &x: s) { MC_CHECK(c, x.size() == n, "dimensions", x.size() << " instead of " << n); double sum = 0; std::vector<int> k; for(auto f: x) { MC_CHECK(c, f >= 0, "negative", show(x)); sum += f; k.push_back(int(std::lround(f * d))); MC_CHECK(c, std::fabs(f * d - k.back()) < 1e-9 * d, "grid", show(x) << " is not on the grid of " << d); }
            MC_CHECK(c, std::fabs(sum - 1) < 1e-9, "sum", show(x) << " sums to " << sum); MC_CHECK(c, seen.insert(k).second, "repeated", show(x) << " of " << n << " dimensions, " << d << " divisions"); }
        real points = 1; for(size_t i = 1; i < n; ++i) points = points * (d + i) / i;
        MC_CHECK(c, seen.size() == size_t(points + 0.5L), "cover", seen.size() << " of " << (double)points << " points, " << n << " dimensions, " << d << " divisions"); });
    return r.finish();
}
