// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/dividend.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/stock.cpp esl/economics/iso_4217.cpp esl/economics/price.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/computation/environment.hpp>
#include <esl/simulation/model.hpp>
using namespace esl::economics; using namespace esl::economics::finance; using esl::identity; using esl::quantity;
namespace sim = esl::simulation; using sim::time_point; using sim::time_interval;
typedef __int128 wide;

static const std::vector<share_class> &classes()
{
    static const std::vector<share_class> c{share_class(0), share_class(1), share_class(0, 1, 0.f, false), share_class(0, 10)};
    return c;
}
static const iso_4217 JPY({'J','P','Y'}, 1);
static esl::law::jurisdiction place(const iso_4217 &k) { return esl::law::jurisdiction(esl::geography::countries::US, k); }
static void look_up_all(std::ostream &s, const std::map<share_class, std::tuple<uint64_t, price>> &d) { for(auto &[k, v]: d) s << int(k.rank) << '/' << int(k.votes) << ":" << std::get<0>(v) << "x" << std::get<1>(v).value << ' '; }
static std::string show(const std::map<share_class, std::tuple<uint64_t, price>> &d) { std::ostringstream s; look_up_all(s, d); return s.str(); }

// companies and holders in a simulation
struct clock_agent : public esl::agent, public esl::identifiable_as<clock_agent>
{
    explicit clock_agent(const identity<clock_agent> &i) : agent(i) {}
    identity<esl::agent> whom; time_point first = 1000; unsigned every = 1;
    struct tick : public esl::interaction::message<tick, (1ull << 62) | 9> {};
    time_point act(time_interval s, std::seed_seq &) override
    {
        if(first > 900) return s.upper;
        if(s.lower >= first) create_message<tick>(whom, s.lower);
        return std::min<time_point>(s.upper, std::max<time_point>(first, s.lower + every));
    }
};
struct announced { int holder; time_point at, announcement, payable; std::string text; bool operator<(const announced &o) const { return std::tie(holder, at, announcement, payable, text) < std::tie(o.holder, o.at, o.announcement, o.payable, o.text); } bool operator==(const announced &o) const { return !(*this < o) && !(o < *this); } };
static std::vector<announced> heard;
struct holder : public shareholder, public esl::identifiable_as<holder>
{
    int number = -1;
    explicit holder(const identity<holder> &i)
    : agent(i), owner<cash>(i), owner<stock>(i), owner<esl::law::property>(i), shareholder(i)
    {
        auto f = [this](std::shared_ptr<dividend_announcement_message> m, time_interval s, std::seed_seq &) {
            heard.push_back({number, s.lower, m->policy.announcement_date, m->policy.payable_date, show(m->policy.dividend_per_share)}); return s.upper; };
        ESL_REGISTER_CALLBACK(dividend_announcement_message, 1, f, "listen");
    }
    time_point act(time_interval s, std::seed_seq &) override { return s.upper; }
};
struct issuer : public company, public esl::identifiable_as<issuer>
{
    std::vector<std::pair<time_point, dividend_policy>> policies; int acts = 0; std::vector<time_point> times;
    explicit issuer(const identity<issuer> &i)
    : agent(i), owner<cash>(i), owner<stock>(i), owner<bond>(i), owner<esl::law::property>(i), company(i, place(currencies::USD)) {}
    std::optional<dividend_policy> upcoming_dividend(time_interval s, std::seed_seq &) override
    {
        if(++acts > 100) throw mc::violation{"endless", MC_STR("the company acts again and again at " << s.lower)};
        times.push_back(s.lower); std::optional<dividend_policy> r; for(auto &[from, p]: policies) if(s.lower >= from) r = p;
        return r;
    }
};

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C24");
    std::vector<uint64_t> counts{0, 1, 2, 3, 7, 100, 1ull << 33};
    std::vector<int64_t> profits{-7, -1, 0, 1, 2, 3, 5, 6, 7, 20, 29, 57, 99, 100, 101, 1000, 123456789, 1ll << 40, (1ll << 53) + 1, INT64_MAX - 1};
    int most = r.bound(30, 120);
    r.scope("share registers over four classes: dividends per share", [=](mc::ctx &c) {
        auto &k = c.flip() ? JPY : currencies::USD;
        company x(identity<company>({1, 2}), place(k)); wide eligible = 0, all = 0;
        for(auto &s: classes()) { uint32_t n = c.choose(counts.size() + 1); if(n < counts.size()) { x.shares_outstanding[s] = counts[n]; all += counts[n]; if(s.dividend) eligible += counts[n]; } }
        MC_CHECK(c, wide(x.total_shares()) == all, "total shares", x.total_shares());
        int64_t v = c.pick(profits); const price p(v, k); c.op();
        auto before = x.shares_outstanding; auto d = x.compute_dividend_per_share(p); auto again = x.compute_dividend_per_share(p);
        MC_LOG(c, "profit " << v << " gives " << show(d)); c.state(MC_STR(v << ' ' << show(d)));
        MC_CHECK(c, d == again && x.shares_outstanding == before, "repeatable", "computing dividends changes the register");
        wide total = 0;
        for(auto &[s, e]: d) {
            auto f = before.find(s);
            MC_CHECK(c, f != before.end() && f->second == std::get<0>(e), "shares", "profit " << v << " is shared as " << show(d));
            MC_CHECK(c, s.dividend, "ineligible", "a share without dividend rights receives one");
            MC_CHECK(c, std::get<1>(e).valuation == k && std::get<1>(e).value >= 0, "per share", show(d));
            total += wide(std::get<0>(e)) * std::get<1>(e).value;
        }
        for(auto &[s, q]: before) if(s.dividend && q && v > 0) MC_CHECK(c, d.count(s), "left out", "an eligible class gets no dividend: " << show(d));
        wide due = v > 0 && eligible > 0 ? wide(v) : wide(0);
        MC_CHECK(c, total <= due, "overpaid", "profit " << v << " pays out " << (long long)total << ": " << show(d));
        MC_CHECK(c, due - total <= eligible, "underpaid", "profit " << v << " pays out " << (long long)total << ": " << show(d));
        if(eligible && total <= INT64_MAX) {
            dividend_policy y(1, 1, {1, 2}, 1, k, d);
            MC_CHECK(c, wide(y.total_dividends().value) == total && y.total_dividends().valuation == k, "policy total", y.total_dividends().value << " instead of " << (long long)total);
        }
    });
    r.scope(MC_STR("every profit and number of shares up to " << most << ", one class and two"), [=](mc::ctx &c) {
        company x(identity<company>({1, 2}), place(currencies::USD)); uint64_t a = 1 + c.choose(most), b = c.choose(4) * 5; int64_t v = 1 + c.choose(3 * most);
        x.shares_outstanding[classes()[0]] = a; if(b) x.shares_outstanding[classes()[1]] = b;
        c.op(); auto d = x.compute_dividend_per_share(price(v, currencies::USD)); wide t = 0; c.state(MC_STR(a << ' ' << b << ' ' << v));
        for(auto &[s, e]: d) t += wide(std::get<0>(e)) * std::get<1>(e).value;
        MC_CHECK(c, t <= v && v - t <= wide(a + b), "payout", "profit " << v << " over " << a << "+" << b << " shares pays " << (long long)t << ": " << show(d));
        dividend_policy y(1, 1, {1, 2}, 1, currencies::USD, d); MC_CHECK(c, wide(y.total_dividends().value) == t, "policy total", y.total_dividends());
    });
    r.scope("registers of holders: distinct holders and shares outstanding", [=](mc::ctx &c) {
        company x(identity<company>({1, 2}), place(currencies::USD)); std::set<identity<shareholder>> want; uint64_t all = 0;
        static const std::vector<identity<shareholder>> ids{identity<shareholder>({1}), identity<shareholder>({1, 0}), identity<shareholder>({2}), identity<shareholder>({1, 0, 1})};
        for(auto &i: ids) for(int k = 0; k < 2; ++k) { uint32_t n = c.choose(3); if(n) { x.shareholders[i][classes()[k]] = n; want.insert(i); x.shares_outstanding[classes()[k]] += n; all += n; } }
        c.op(); c.state(MC_STR(want.size() << ' ' << all)); auto u = x.unique_shareholders();
        MC_CHECK(c, u == want, "holders", u.size() << " holders instead of " << want.size());
        MC_CHECK(c, x.total_shares() == all, "total shares", x.total_shares() << " instead of " << all);
    });
    r.scope("totals of dividend policies", [=](mc::ctx &c) {
        auto &k = c.flip() ? JPY : currencies::USD; std::map<share_class, std::tuple<uint64_t, price>> m; wide t = 0;
        static const std::vector<uint64_t> q{0, 1, 3, 10, 1ull << 32}; static const std::vector<int64_t> v{0, 1, 2, 29, 1ll << 28};
        for(auto &s: classes()) if(c.flip()) { auto a = c.pick(q); auto b = c.pick(v); m.emplace(s, std::make_tuple(a, price(b, k))); t += wide(a) * b; }
        dividend_policy y(1, 1, {1, 2}, 1, k, m); c.op(); c.state(show(m));
        MC_CHECK(c, wide(y.total_dividends().value) == t && y.total_dividends().valuation == k, "policy total", show(m) << " is " << y.total_dividends().value);
        MC_CHECK(c, y.dividend_per_share == m, "policy", "changed");
    });
    r.scope("holdings of a shareholder by stock", [=](mc::ctx &c) {
        shareholder x(identity<shareholder>({9})); std::map<identity<esl::law::property>, uint64_t> want;
        static const std::vector<uint64_t> q{0, 1, 5}; std::string key;
        for(int co = 0; co < 2; ++co) for(int k = 0; k < 3; ++k) {
            identity<company> i({uint64_t(co + 1)}); identity<esl::law::property> p({c.flip() ? 5u : 6u, 1u}); uint32_t n = c.choose(4);
            x.stocks.emplace(std::make_tuple(i, classes()[k]), p);
            if(n < 3) { x.shares[i][classes()[k]] = q[n]; want[p] += q[n]; } }
        c.op(); auto got = x.stock_holdings();
        for(auto &[p, n]: want) { key += MC_STR(p << ':' << n << ' '); MC_CHECK(c, n == 0 || (got.count(p) && got[p].amount == n), "holdings", p << " is " << (got.count(p) ? got[p].amount : 0) << " instead of " << n); }
        for(auto &[p, n]: got) MC_CHECK(c, want.count(p) && want[p] == n.amount, "holdings", p << " is " << n);
        c.state(key);
    });
    r.scope("announcements to many holders", [=](mc::ctx &c) {
        heard.clear(); esl::computation::environment e; sim::model m(e, sim::parameter::parametrization(0, 0, 8)); int n = c.pick(std::vector<int>{4, 5, 8, 9, 17, 33, 65, 130}), skip = c.choose(4); time_point a = c.choose(3);
        auto co = m.create<issuer>(); std::vector<std::shared_ptr<holder>> hs; for(int i = 0; i < n; ++i) { hs.push_back(m.create<holder>()); hs.back()->number = i; }
        std::set<int> in; uint64_t all = 0; for(int i = 0; i < n; ++i) if(!skip || i % (skip + 1)) { in.insert(i); for(int k = 0; k <= i % 2; ++k) { co->shareholders[identity<shareholder>(hs[i]->identifier.digits)][classes()[k]] = 1 + i; co->shares_outstanding[classes()[k]] += 1 + i; all += 1 + i; } }
        MC_CHECK(c, co->unique_shareholders().size() == in.size() && co->total_shares() == all, "holders", co->unique_shareholders().size() << " holders of " << co->total_shares());
        co->policies.push_back({0, dividend_policy(a, a, {0, 8}, a + 2, currencies::USD, {{classes()[0], {1, price(5, currencies::USD)}}})});
        time_point t = 0; int steps = 0; while(t < 8 && ++steps < 50) { t = m.step({t, 8}); c.op(); }
        std::map<int, int> times; for(auto &h: heard) { ++times[h.holder]; MC_CHECK(c, h.at == a && h.announcement == a, "announcement", "arrives at " << h.at); } for(int i = 0; i < n; ++i) MC_CHECK(c, times[i] == int(in.count(i)), "announcements", "holder " << i << " of " << n << " hears " << times[i] << " times");
        c.state(MC_STR(n << ' ' << skip << ' ' << a));
    });
    int later = r.bound(3, 5);
    r.scope("announcements: up to three holders, up to two policies, a company woken up in between", [=](mc::ctx &c) {
        heard.clear(); esl::computation::environment e; sim::model m(e, sim::parameter::parametrization(0, 0, 12));
        auto co = m.create<issuer>(); auto ck = m.create<clock_agent>(); std::vector<std::shared_ptr<holder>> hs;
        for(int i = 0; i < 3; ++i) { hs.push_back(m.create<holder>()); hs.back()->number = i; }
        std::set<int> in; for(int i = 0; i < 3; ++i) { uint32_t n = c.choose(4); if(n) in.insert(i); for(int k = 0; k < 2; ++k) if(n >> k & 1) { co->shareholders[identity<shareholder>(hs[i]->identifier.digits)][classes()[k]] = 1 + k; co->shares_outstanding[classes()[k]] += 1 + k; } }
        int a = c.choose(later + 1), pay = a + c.choose(later); 
        co->policies.push_back({0, dividend_policy(a, a, {0, 12}, pay, currencies::USD, {{classes()[0], {1, price(5, currencies::USD)}}})});
        int b = 0, from = 0;
        if(c.flip()) { b = a + 1 + c.choose(later); from = a + 1 + c.choose(b - a); co->policies.push_back({from, dividend_policy(b, b, {0, 12}, b + 1, currencies::USD, {{classes()[1], {2, price(7, currencies::USD)}}})}); }
        uint32_t w = c.choose(4); if(w) { ck->whom = identity<esl::agent>(co->identifier); ck->first = w - 1; ck->every = w == 3 ? 2 : 1; }
        MC_LOG(c, in.size() << " holders, announcement " << a << " payable " << pay << (b ? MC_STR(", second policy known from " << from << " for " << b) : "") << ", company woken up " << (w ? "often" : "only by itself"));
        time_point t = 0; int steps = 0; while(t < 12 && ++steps < 50) { t = m.step({t, 12}); c.op(); }
        MC_CHECK(c, t >= 12, "endless", "the simulation does not get beyond " << t);
        std::multiset<announced> got(heard.begin(), heard.end());
        for(int p = 0; p < (b ? 2 : 1); ++p) for(int i = 0; i < 3; ++i) {
            int n = 0; bool right = true; time_point when = 0; auto &y = co->policies[p].second;
            for(auto &h: heard) if(h.holder == i && h.announcement == y.announcement_date) { ++n; when = h.at; right = right && h.payable == y.payable_date && h.text == show(y.dividend_per_share); }
            // announced as soon as the company knows of it and its date has come
            time_point due = 1000; for(auto x: co->times) if(x >= co->policies[p].first && due == 1000) due = std::max<time_point>(x, y.announcement_date);
            MC_CHECK(c, n == (in.count(i) && due < 12 ? 1 : 0), "announcements", "holder " << i << " hears of the policy of " << y.announcement_date << " " << n << " times");
            if(n) MC_CHECK(c, right && when == due, "announcement", "of " << y.announcement_date << " arrives at " << when << " instead of " << due);
        }
        c.state(MC_STR(a << ' ' << pay << ' ' << b << ' ' << from << ' ' << w << ' ' << in.size() << ' ' << heard.size()));
    });
    return r.finish();
}
