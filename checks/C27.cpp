// mc-sources: esl/exception.cpp
#include "mc.hpp"
#include <algorithm>
#include <iomanip>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <unordered_map>
// The samplers draw from a Mersenne twister. It is replaced by a generator
// whose outcomes are choices, so that all outcomes of the random draws are
// explored. While no choices are to be made, it is a real twister.
namespace std {
    static thread_local mc::ctx *mc_ctx; static thread_local uint32_t mc_outcomes = 1, mc_extremes = 0, mc_drawn = 0;
    template<typename engine_t_> struct mc_engine
    {
        typedef typename engine_t_::result_type result_type; engine_t_ real;
        template<typename s_> explicit mc_engine(s_ &s) : real(s) {} mc_engine() = default;
        static constexpr result_type min() { return engine_t_::min(); } static constexpr result_type max() { return engine_t_::max(); }
        result_type operator()() { ++mc_drawn; if(!mc_ctx) return real();
            // evenly spread outcomes, about the middle of each part of the range (and clear of values that a distribution rejects)
            unsigned __int128 range = (unsigned __int128)max() + 1; uint32_t o = mc_ctx->choose(mc_outcomes + 2 * mc_extremes); if(o >= mc_outcomes) return o == mc_outcomes ? min() : max(); return result_type((range * o + range / 2) / mc_outcomes + 1001); }
    };
    typedef mc_engine<mt19937> mc_engine_32; typedef mc_engine<mt19937_64> mc_engine_64;
}
#define mt19937_64 mc_engine_64
#define mt19937 mc_engine_32
#include <esl/simulation/parameter/sampler.hpp>
#undef mt19937_64
#undef mt19937
using namespace esl::simulation; typedef parameter::interval<double> range; typedef std::shared_ptr<range> parameter_;
namespace sampler = parameter::sampler;

struct explored { explored(mc::ctx &c, uint32_t outcomes, bool extremes = false) { std::mc_extremes = extremes; std::mc_ctx = outcomes ? &c : nullptr; std::mc_outcomes = outcomes; std::mc_drawn = 0; } ~explored() { std::mc_ctx = nullptr; } };

static const std::vector<std::pair<double, double>> &ranges() { static const std::vector<std::pair<double, double>> r{{0, 1}, {1, 5}, {-3, 3}, {0.1, 0.7}, {-1e6, 1e-3}, {2, 2}, {100, 1e9}}; return r; }
static std::vector<parameter_> parameters(mc::ctx &c, int n) { std::vector<parameter_> v; while(n--) { auto r = ranges()[c.choose(ranges().size())]; v.push_back(std::make_shared<range>(r.first, r.second)); } return v; }
static bool close(double a, double b, const range &r) { return std::fabs(a - b) <= 1e-12 * std::max({std::fabs(r.lower), std::fabs(r.upper), 1e-300}); }

// index of a value among `n` equally spaced values, both ends included
static int index_of(mc::ctx &c, double v, const parameter_ &p, unsigned n)
{
    MC_CHECK(c, std::isfinite(v), "finite", "a value is " << v << " with density " << n << " over " << p->lower << ".." << p->upper);
    MC_CHECK(c, v >= p->lower && v <= p->upper, "range", MC_STR(std::setprecision(17) << v) << " lies outside of " << p->lower << ".." << p->upper << " with density " << n);
    if(n == 1 || p->lower == p->upper) return 0;
    double step = (p->upper - p->lower) / (n - 1); int i = int(std::lround((v - p->lower) / step));
    MC_CHECK(c, close(v, p->lower + step * i, *p), "spacing", v << " is not one of " << n << " values of " << p->lower << ".." << p->upper);
    if(i == 0) MC_CHECK(c, v == p->lower, "end point", MC_STR(std::setprecision(17) << v) << " instead of " << p->lower);
    if(i == int(n) - 1) MC_CHECK(c, v == p->upper, "end point", MC_STR(std::setprecision(17) << v) << " instead of " << p->upper);
    return i;
}

static void grid(mc::ctx &c, const std::vector<parameter_> &ps, const std::vector<unsigned> &ds)
{
    std::map<parameter_, unsigned> densities; uint64_t points = 1; for(size_t i = 0; i < ps.size(); ++i) { densities.emplace(ps[i], ds[i]); points *= ds[i]; }
    auto before = densities; auto g = sampler::grid(densities); c.op(); MC_CHECK(c, densities == before, "argument", "the densities are modified");
    std::map<std::vector<int>, int> seen;
    for(auto &s: g) { MC_CHECK(c, s.size() == ps.size(), "dimensions", "a sample has " << s.size() << " of " << ps.size() << " parameters"); std::vector<int> k; for(size_t i = 0; i < ps.size(); ++i) { auto f = s.find(ps[i]); MC_CHECK(c, f != s.end(), "dimensions", "a parameter is missing"); k.push_back(index_of(c, f->second, ps[i], ds[i])); } ++seen[k]; }
    MC_CHECK(c, g.size() == points, "points", "a grid of " << points << " points has " << g.size());
    uint64_t distinct = 1, repeats = 1; for(size_t i = 0; i < ps.size(); ++i) if(ps[i]->lower < ps[i]->upper) distinct *= ds[i]; else repeats *= ds[i];
    if(points) MC_CHECK(c, seen.size() == distinct, "cover", seen.size() << " of " << distinct << " combinations"); for(auto &k: seen) MC_CHECK(c, k.second == int(repeats), "once", "a combination appears " << k.second << " times");
}

static std::string latin(mc::ctx &c, const std::vector<parameter_> &ps, unsigned n, std::initializer_list<uint32_t> seed)
{
    auto l = sampler::latin_hypercube(ps, n, std::seed_seq(seed)); c.op(); std::string s;
    MC_CHECK(c, l.size() == n, "points", "a latin hypercube of " << n << " samples has " << l.size());
    for(auto &p: ps) {
        std::vector<double> v; for(auto &x: l) { MC_CHECK(c, x.size() == ps.size() && x.count(p), "dimensions", "a sample lacks a parameter"); double y = x.find(p)->second; MC_CHECK(c, std::isfinite(y), "finite", "a value is " << y << " with " << n << " samples over " << p->lower << ".." << p->upper); MC_CHECK(c, y >= p->lower && y <= p->upper, "range", MC_STR(std::setprecision(17) << y) << " lies outside of " << p->lower << ".." << p->upper); v.push_back(y); s += MC_STR(y << ' '); }
        // sorted, the i-th value is in the i-th of n equal parts
        std::sort(v.begin(), v.end()); double w = p->upper - p->lower; if(w > 0) for(unsigned i = 0; i < n; ++i) { double lo = p->lower + w * i / n, hi = p->lower + w * (i + 1) / n; MC_CHECK(c, v[i] >= lo - 1e-12 * w && v[i] <= hi + 1e-12 * w, "stratum", "value " << v[i] << " of " << n << " is not within " << lo << ".." << hi); if(i) MC_CHECK(c, v[i] > v[i - 1], "repeated", v[i] << " with " << n << " samples"); }
        s += '|';
    }
    return s;
}

static std::string improved(mc::ctx &c, unsigned dimensions, unsigned n, std::initializer_list<uint32_t> seed, unsigned duplication)
{
    std::seed_seq q(seed); auto h = sampler::improved_hypercube_sampling(dimensions, n, q, duplication); c.op(); std::string s; MC_CHECK(c, h.size() == dimensions, "dimensions", h.size() << " instead of " << dimensions);
    for(auto &d: h) { MC_CHECK(c, d.size() == n, "points", d.size() << " instead of " << n); std::vector<bool> seen(n); for(auto k: d) { MC_CHECK(c, k >= 1 && k <= n, "range", k << " with " << n << " samples"); MC_CHECK(c, !seen[k - 1], "permutation", k << " is repeated with " << n << " samples"); seen[k - 1] = true; s += MC_STR(k << ' '); } s += '|'; }
    return s;
}

static std::string uniform(mc::ctx &c, const std::vector<parameter_> &ps, unsigned n, std::initializer_list<uint32_t> seed)
{
    auto u = sampler::uniform_random(ps, n, std::seed_seq(seed)); c.op(); std::string s; MC_CHECK(c, u.size() == n, "points", u.size() << " instead of " << n);
    for(auto &x: u) { MC_CHECK(c, x.size() == ps.size(), "dimensions", "a sample has " << x.size() << " of " << ps.size()); for(auto &p: ps) { auto f = x.find(p); MC_CHECK(c, f != x.end(), "dimensions", "a parameter is missing"); double y = f->second; MC_CHECK(c, std::isfinite(y), "finite", "a value is " << y); MC_CHECK(c, y >= p->lower && y <= p->upper, "range", MC_STR(std::setprecision(17) << y) << " lies outside of " << p->lower << ".." << p->upper); s += MC_STR(std::setprecision(17) << y << ' '); } }
    return s;
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C27");
    int wide = r.bound(300, 1500);
    r.scope(MC_STR("grid: one parameter, every density up to " << wide), [=](mc::ctx &c) { auto p = parameters(c, 1); unsigned d = c.choose(wide); explored e(c, 0); grid(c, p, {d}); c.state(MC_STR(p[0]->lower << ' ' << d)); });
    r.scope("grid: up to 4 parameters, every density up to 6", [=](mc::ctx &c) { int n = c.choose(r.bound(4, 5)); std::vector<parameter_> p; std::vector<unsigned> d; explored e(c, 0); for(int i = 0; i < n; ++i) { auto q = ranges()[(i * 3 + 1) % ranges().size()]; p.push_back(std::make_shared<range>(q.first, q.second)); d.push_back(c.choose(7)); } grid(c, p, d); std::string s; for(auto x: d) s += std::to_string(x) + ' '; c.state(s); });
    r.scope("latin hypercube: every outcome of the shuffles", [=](mc::ctx &c) {
        int d = 1 + c.choose(r.bound(3, 3)); unsigned n = c.choose(d == 1 ? r.bound(8, 9) : d == 2 ? r.bound(5, 6) : 4); std::vector<parameter_> p; for(int i = 0; i < d; ++i) { auto q = ranges()[i * 2]; p.push_back(std::make_shared<range>(q.first, q.second)); }
        explored e(c, n < 4 ? 6 : n == 4 ? 12 : n == 5 ? 20 : n == 6 ? 30 : n == 7 ? 42 : 56); c.state(MC_STR(n << ' ' << d << latin(c, p, n, {1}))); });
    r.scope("latin hypercube: every number of samples, several seeds, reproduced", [=](mc::ctx &c) { auto p = parameters(c, 2); unsigned n = c.choose(r.bound(60, 200)); uint32_t seed = c.choose(3); explored e(c, 0); auto a = latin(c, p, n, {seed, 7}), b = latin(c, p, n, {seed, 7}); MC_CHECK(c, a == b, "seed", "the same seed gives different samples"); c.state(a);
        // and does not depend on where in memory the parameters are
        std::vector<parameter_> q; for(auto &x: p) q.insert(q.begin(), std::make_shared<range>(*x)); std::reverse(q.begin(), q.end()); std::vector<parameter_> m{q[0], std::make_shared<range>(*p[1])}; MC_CHECK(c, latin(c, q, n, {seed, 7}) == a && latin(c, m, n, {seed, 7}) == a, "seed", "the samples depend on the addresses of parameters"); });
    r.scope("improved hypercube: every outcome of the draws", [=](mc::ctx &c) { static const std::vector<std::array<unsigned, 3>> quick{{0, 1, 1}, {0, 3, 2}, {1, 1, 1}, {1, 1, 5}, {1, 2, 1}, {1, 2, 5}, {1, 3, 1}, {1, 3, 2}, {1, 4, 1}, {2, 1, 2}, {2, 2, 1}, {2, 2, 3}, {2, 3, 1}, {2, 3, 2}, {3, 2, 2}, {3, 3, 1}, {4, 2, 1}, {4, 2, 2}}, deep{{1, 5, 1}, {2, 4, 1}, {1, 3, 3}, {5, 2, 2}, {4, 3, 1}};
        uint32_t i = c.choose(quick.size() + (r.thorough() ? deep.size() : 0)); auto [d, n, k] = i < quick.size() ? quick[i] : deep[i - quick.size()]; explored e(c, std::max({2u, n, k * (n - 1)})); c.state(MC_STR(d << ' ' << n << ' ' << improved(c, d, n, {1}, k))); });
    r.scope("improved hypercube: every number of samples, several seeds, reproduced", [=](mc::ctx &c) { unsigned d = 1 + c.choose(r.bound(5, 8)), n = 1 + c.choose(r.bound(40, 80)), k = 1 + c.choose(5); uint32_t seed = c.choose(3); explored e(c, 0); auto a = improved(c, d, n, {seed}, k), b = improved(c, d, n, {seed}, k); MC_CHECK(c, a == b, "seed", "the same seed gives different samples"); c.state(a); });
    r.scope("uniform: every outcome of the draws, spread evenly over their range", [=](mc::ctx &c) { auto p = parameters(c, 1 + c.choose(2)); explored e(c, 7, true); c.state(uniform(c, p, 1, {1})); });
    r.scope("uniform: several seeds, reproduced", [=](mc::ctx &c) { auto p = parameters(c, 1 + c.choose(3)); unsigned n = c.choose(r.bound(20, 100)); uint32_t seed = c.choose(3); explored e(c, 0); auto a = uniform(c, p, n, {seed}), b = uniform(c, p, n, {seed}); MC_CHECK(c, a == b, "seed", "the same seed gives different samples"); c.state(a); });
    return r.finish();
}
