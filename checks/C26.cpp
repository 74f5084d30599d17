// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/log.cpp esl/data/output_base.cpp esl/data/terminal.cpp esl/economics/accounting/standard.cpp esl/economics/asset.cpp esl/economics/iso_4217.cpp esl/economics/price.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <functional>
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/accounting/cash_flow_statement.hpp>
#include <esl/economics/currencies.hpp>
using namespace esl::economics; using accounting::standard; using accounting::cash_flow_statement; using esl::simulation::time_point; using esl::simulation::time_interval;
struct entry { time_point t; int64_t v; };
static std::string show(const std::vector<entry> &e) { std::ostringstream s; for(auto &x: e) s << x.v << '@' << x.t << ' '; return s.str(); }

// every period over the recorded entries, and every way to split it
static void verify(mc::ctx &c, cash_flow_statement &f, const std::vector<entry> &es, time_point last, const iso_4217 &k)
{
    standard s(k); auto sum = [&](time_point a, time_point b, int sign) { int64_t r = 0; for(auto &e: es) if(e.t >= a && e.t < b && (sign == 0 || (sign > 0) == (e.v > 0))) r += e.v; return r; };
    auto is = [&](const price &p, int64_t v) { return p.value == v && p.valuation == k; };
    for(time_point a = 0; a <= last; ++a) for(time_point b = a; b <= last; ++b) {
        time_interval i{a, b}; auto n = f.history(i, s); auto in = f.income(i, s), out = f.expenses(i, s), rev = f.revenue(i, s);
        MC_CHECK(c, is(n, sum(a, b, 0)), "net flow", "of [" << a << "," << b << ") over " << show(es) << "is " << n.value << " instead of " << sum(a, b, 0));
        MC_CHECK(c, is(in, sum(a, b, 1)), "income", "of [" << a << "," << b << ") over " << show(es) << "is " << in.value);
        MC_CHECK(c, is(out, sum(a, b, -1)), "expenses", "of [" << a << "," << b << ") over " << show(es) << "are " << out.value);
        MC_CHECK(c, in + out == n && rev == n, "income and expenses", "of [" << a << "," << b << ") over " << show(es) << ": " << in.value << " + " << out.value << " is not " << n.value);
        for(time_point m = a; m <= b; ++m) MC_CHECK(c, f.history({a, m}, s) + f.history({m, b}, s) == n && f.income({a, m}, s) + f.income({m, b}, s) == in && f.expenses({a, m}, s) + f.expenses({m, b}, s) == out, "split", "of [" << a << "," << b << ") at " << m << " over " << show(es));
        // a transformation sees exactly the entries of the period
        int64_t seen = 0; bool within = true; auto d = f.history(i, [&](time_point t, const price &p) { within = within && t >= a && t < b; seen += p.value * int64_t(t + 1); return price(2 * p.value, p.valuation); }, s);
        int64_t want = 0; for(auto &e: es) if(e.t >= a && e.t < b) want += e.v * int64_t(e.t + 1);
        MC_CHECK(c, within && seen == want && is(d, 2 * sum(a, b, 0)), "transformed", "[" << a << "," << b << ") over " << show(es));
    }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C26");
    int depth = r.bound(4, 5); time_point last = r.bound(4, 5);
    static const std::vector<int64_t> values{-5, -3, 0, 2, 1000000007};
    r.scope(MC_STR("every sequence of " << depth << " entries dated 0 to " << last << ", every period and split after each"), [=](mc::ctx &c) {
        auto &k = currencies::USD; cash_flow_statement f; std::vector<entry> es;
        verify(c, f, es, last + 1, k);
        for(int d = 0; d < depth; ++d) {
            time_point t = c.choose(last + 1); int64_t v = values[c.choose(3) * 2 % values.size()];
            f.mutations.emplace(t, price(v, k)); es.push_back({t, v}); c.op(); MC_LOG(c, "entry " << v << " at " << t); c.state(show(es));
        }
        verify(c, f, es, last + 1, k);
    });
    r.scope("up to six entries at one, two or three times, including equal amounts", [=](mc::ctx &c) {
        auto k = c.flip() ? currencies::EUR : iso_4217({'J','P','Y'}, 1); cash_flow_statement f; std::vector<entry> es; int n = c.choose(7);
        for(int i = 0; i < n; ++i) { time_point t = 1 + c.choose(3); int64_t v = c.flip() ? 2 : -3; f.mutations.emplace(t, price(v, k)); es.push_back({t, v}); }
        c.op(); c.state(show(es)); verify(c, f, es, 5, k);
    });
    r.scope("many entries in regular patterns", [=](mc::ctx &c) {
        auto &k = currencies::USD; cash_flow_statement f; std::vector<entry> es; int n = c.pick(std::vector<int>{7, 8, 9, 17, 33, 65, 130, 257}), when = c.choose(4), how = c.choose(4); int64_t scale = c.pick(std::vector<int64_t>{1, 1000000007, 1ll << 33, 1ll << 53});
        for(int i = 0; i < n; ++i) { time_point t = when == 0 ? i % 7 : when == 1 ? 6 - i % 7 : when == 2 ? 3 : i * 7 / n; int64_t v = (how == 0 ? 1 : how == 1 ? (i % 2 ? -1 : 1) : how == 2 ? i % 5 - 2 : i - n / 2) * scale; f.mutations.emplace(t, price(v, k)); es.push_back({t, v}); }
        c.op(); c.state(MC_STR(n << ' ' << when << ' ' << how << ' ' << scale)); verify(c, f, es, 8, k);
    });
    r.scope("single entries of every size, also at the ends of time", [=](mc::ctx &c) {
        auto &k = currencies::USD; static const std::vector<time_point> ts{0, 1, 1ull << 32, UINT64_MAX - 1}; standard s(k);
        auto t = c.pick(ts); static const std::vector<int64_t> vs{INT64_MIN + 1, -(1ll << 53) - 1, -1, 0, 1, (1ll << 53) + 1, INT64_MAX}; auto v = c.pick(vs); cash_flow_statement f; f.mutations.emplace(t, price(v, k)); c.op(); c.state(MC_STR(t << ' ' << v));
        for(auto a: ts) for(auto b: ts) for(int da = 0; da < 2; ++da) for(int db = 0; db < 2; ++db) { time_point x = a + da, y = b + db; if(x > y) continue; bool in = t >= x && t < y;
            MC_CHECK(c, f.history({x, y}, s).value == (in ? v : 0) && f.income({x, y}, s).value == (in && v > 0 ? v : 0) && f.expenses({x, y}, s).value == (in && v < 0 ? v : 0), "single entry", v << " at " << t << " in [" << x << "," << y << ")"); }
    });
    return r.finish();
}
