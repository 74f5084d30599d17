// mc-sources: esl/exception.cpp
#include "mc.hpp"
#include <esl/mathematics/interval.hpp>
#include <esl/simulation/time.hpp>
#include <cmath>
#include <limits>
using esl::mathematics::interval;

template<typename T> const char *kind();
template<> const char *kind<int>() { return "int"; }
template<> const char *kind<int16_t>() { return "int"; }
template<> const char *kind<int64_t>() { return "int"; }
template<> const char *kind<uint32_t>() { return "int"; }
template<> const char *kind<uint64_t>() { return "int"; }
template<> const char *kind<double>() { return "real"; }

// number of members of an interval, counted from the definition of membership; -1: infinitely many
template<typename T> static int members(T l, T u, bool lc, bool rc)
{
    if(l > u) return 0;
    if(l == u) return lc && rc ? 1 : 0;
    if(!std::is_integral<T>::value) return -1;
    unsigned __int128 w = (__int128)u - (__int128)l; // > 0
    w = w - 1 + (lc ? 1 : 0) + (rc ? 1 : 0);
    return w > 3 ? 3 : int(w);
}

template<typename T, bool lc, bool rc> static void check(mc::ctx &c, T l, T u, const std::vector<T> &values)
{
    typedef interval<T, lc, rc> I;
    const I i(l, u);
    c.op(); c.state(MC_STR(kind<T>() << lc << rc << l << ' ' << u << ' ' << sizeof(T)));
    int n = members(l, u, lc, rc);
    const char *ends = lc ? rc ? "closed-closed" : "closed-open" : rc ? "open-closed" : "open-open";
    std::string width;
    if(l > u) width = "negative"; else if(l == u) width = "0"; else if(!std::is_integral<T>::value) width = "positive";
    else { unsigned __int128 w = (__int128)u - (__int128)l; width = w == 1 ? "1" : w == 2 ? "2" : "3 or more"; }
    MC_LOG(c, kind<T>() << ' ' << ends << ' ' << +l << ',' << +u << ": members " << n << ", empty() " << i.empty() << ", singleton() " << i.singleton() << ", degenerate() " << i.degenerate());
    auto key = [&](const char *fn, bool got) { return MC_STR(kind<T>() << ' ' << ends << " width " << width << ": " << fn << "() = " << got); };
    MC_CHECK(c, i.left_closed() == lc && i.right_closed() == rc, "closed ends", ends);
    MC_CHECK(c, i.empty() == (n == 0), key("empty", i.empty()), "of " << l << "," << u);
    MC_CHECK(c, i.singleton() == (n == 1), key("singleton", i.singleton()), "of " << l << "," << u);
    MC_CHECK(c, i.degenerate() == (n == 0 || n == 1), key("degenerate", i.degenerate()), "of " << l << "," << u);
    for(T v: values) {
        bool in = (lc ? l <= v : l < v) && (rc ? v <= u : v < u);
        MC_CHECK(c, i.contains(v) == in, MC_STR("membership " << ends), v << " in " << i << ": " << i.contains(v));
    }
    std::string text = MC_STR((lc ? '[' : '(') << l << ',' << u << (rc ? ']' : ')'));
    MC_CHECK(c, i.representation() == text && MC_STR(i) == text, MC_STR("text " << ends), i.representation() << " for " << text);
    MC_CHECK(c, i.lower == l && i.upper == u, "bounds", "");
    const I d; MC_CHECK(c, d.lower == T() && d.upper == T(), "default", "");
}

template<typename T> static void scopes(mc::runner &r, const char *name, std::vector<T> values)
{
    r.scope(MC_STR("all intervals and members over " << values.size() << " values of " << name), [=](mc::ctx &c) {
        T l = c.pick(values), u = c.pick(values);
        // differences that are not representable in the number type are outside the domain
        if(std::is_integral<T>::value && std::is_signed<T>::value) { __int128 w = (__int128)u - (__int128)l; if(w > (__int128)std::numeric_limits<T>::max() || w < (__int128)std::numeric_limits<T>::min()) return; }
        switch(c.choose(4)) {
            case 0: check<T, false, false>(c, l, u, values); break;
            case 1: check<T, false, true>(c, l, u, values); break;
            case 2: check<T, true, false>(c, l, u, values); break;
            case 3: check<T, true, true>(c, l, u, values); break;
        }
    });
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C17");
    int n = r.bound(12, 40);
    std::vector<int> a; std::vector<int64_t> b; std::vector<uint32_t> d; std::vector<uint64_t> e; std::vector<double> f; std::vector<int16_t> g;
    for(int i = -n; i <= n; ++i) { a.push_back(i); b.push_back(i * 1000000007ll); b.push_back(i); g.push_back(i); }
    for(int i = 0; i <= 2 * n; ++i) { d.push_back(i); e.push_back(i); e.push_back(~uint64_t(0) - i); e.push_back((1ull << 63) - n + i); d.push_back(~0u - i); }
    for(int i = 0; i < 5; ++i) { a.push_back(INT32_MAX - i); a.push_back(INT32_MIN + i); b.push_back(INT64_MAX - i); b.push_back(INT64_MIN + i); }
    double x = -2; for(int i = 0; i < n; ++i) { f.push_back(x); x += 0.25; }
    for(double v: {-1e300, -1., 0., 5e-324, 0.1, std::nextafter(1., 2.), std::nextafter(1., 0.), 2., 3., 1e300, HUGE_VAL, -HUGE_VAL}) f.push_back(v);
    for(auto *v: {&f}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    scopes(r, "int", a); scopes(r, "int64", b); scopes(r, "uint32", d); scopes(r, "uint64", e); scopes(r, "double", f); scopes(r, "int16", g);
    r.scope("simulation time intervals are half open", [=](mc::ctx &c) {
        using esl::simulation::time_interval; using esl::simulation::time_point;
        time_point l = c.pick(e), u = c.pick(e); c.op();
        time_interval i(l, u);
        MC_CHECK(c, time_interval::left_closed() && !time_interval::right_closed(), "time interval ends", "");
        MC_CHECK(c, i.contains(l) == (l < u) && !i.contains(u) && i.empty() == (l >= u) && i.contains(l + 1) == (u > l && l + 1 < u && l + 1 != 0), "time interval", i << "");
        MC_CHECK(c, i.singleton() == (u > l && u - l == 1), "time interval", "singleton of " << i);
    });
    return r.finish();
}
