// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/log.cpp esl/data/output_base.cpp esl/data/terminal.cpp esl/economics/accounting/standard.cpp esl/economics/asset.cpp esl/economics/company.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/dividend.cpp esl/economics/finance/loan.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/stock.cpp esl/economics/iso_4217.cpp esl/economics/price.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include "mc.hpp"
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/finance/loan.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
using namespace esl::economics; using namespace esl::economics::finance; using esl::identity; using esl::quantity; using esl::law::property; using accounting::standard; using markets::quote;
typedef __int128 wide;
static const iso_4217 JPY({'J','P','Y'}, 1);
static const std::vector<iso_4217> &currencies_() { static const std::vector<iso_4217> c{currencies::USD, currencies::EUR, JPY}; return c; }
static bool fits(wide w) { return w <= INT64_MAX && w >= -wide(INT64_MAX); }
static bool is(const price &p, wide v, const iso_4217 &k) { return wide(p.value) == v && p.valuation == k; }
// the value, or nothing when it is an error
template<typename T> static std::optional<price> value(const standard &s, const T &x, uint64_t q) { try { return s.value(x, quantity(q)); } catch(const std::exception &) { return {}; } }
static stock make(const std::vector<uint64_t> &d) { return stock(identity<property>(d), identity<company>({1}), share_class()); }
static std::string show(const std::optional<price> &p) { return p ? MC_STR(p->value << ' ' << std::string(p->valuation)) : std::string("error"); }

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C25");
    static const std::vector<int64_t> prices{-1000001, -150, -101, -100, -99, -7, -3, -1, 0, 1, 2, 3, 7, 29, 99, 100, 101, 150, 1000001, 1ll << 31, (1ll << 40) + 1};
    static const std::vector<uint32_t> lots{1, 2, 3, 7, 10, 100, 1000, UINT32_MAX};
    static const std::vector<uint64_t> sizes{0, 1, 2, 3, 5, 7, 10, 99, 100, 101, 1000, 1ull << 20, (1ull << 33) + 1, (1ull << 46) + 1, (1ull << 53) + 1, (1ull << 56) + 3};
    int most = r.bound(40, 150);
    r.scope("stock: every price, lot and number of shares", [=](mc::ctx &c) {
        auto &k = c.pick(currencies_()), &home = c.pick(currencies_()); int64_t v = c.pick(prices); uint32_t lot = c.pick(lots); uint64_t q = c.pick(sizes);
        wide t = wide(v) * q; if(!fits(t)) return; standard s(home); auto x = make({3, 1}); c.op();
        s.mark_to_market.emplace(x.identifier, quote(price(v, k), lot)); auto p = value(s, x, q); c.state(MC_STR(v << ' ' << lot << ' ' << q));
        MC_LOG(c, q << " shares at " << v << " per " << lot << " are " << show(p));
        MC_CHECK(c, p && is(*p, t / wide(lot), k), "stock", q << " shares at " << v << " per " << lot << " are worth " << show(p));
        for(auto &o: {make({3}), make({3, 1, 0}), make({1}), make({1, 3})}) MC_CHECK(c, !value(s, o, q), "no price", "a stock without a price is worth " << show(value(s, o, q)));
        securities_lending_contract l(identity<esl::agent>({8}), identity<esl::agent>({9}), x.identifier, quantity(q));
        for(uint64_t n: {0, 1, 2, 3, 100}) if(fits(t * n)) { auto y = value(s, l, n); MC_CHECK(c, y && is(*y, -(t * n / wide(lot)), k), "lent", n << " contracts over " << q << " shares at " << v << " per " << lot << " are worth " << show(y)); }
        for(auto &o: {make({3}), make({8}), make({9, 3, 1})}) MC_CHECK(c, !value(s, securities_lending_contract(identity<esl::agent>({8}), identity<esl::agent>({9}), o.identifier, quantity(1)), 1), "no price", "borrowed securities without a price have a value");
    });
    r.scope(MC_STR("stock: prices up to " << most << " of either sign, every lot and number of shares"), [=](mc::ctx &c) {
        int64_t v = int64_t(c.choose(2 * most + 1)) - most; uint32_t lot = 1 + c.choose(most); uint64_t q = c.choose(most); standard s(currencies::USD); static const auto x = make({3, 1}); c.op(); c.state(MC_STR(v << ' ' << lot << ' ' << q));
        s.mark_to_market.emplace(x.identifier, quote(price(v, currencies::USD), lot)); auto p = value(s, x, q);
        MC_CHECK(c, p && is(*p, v * int64_t(q) / int64_t(lot), currencies::USD), "stock", q << " shares at " << v << " per " << lot << " are worth " << show(p));
    });
    r.scope("cash, money and loans: every currency, exchange rate and amount", [=](mc::ctx &c) {
        auto &k = c.pick(currencies_()), &home = c.pick(currencies_()); uint64_t q = c.pick(sizes); standard s(home);
        static const std::vector<std::pair<uint64_t, uint64_t>> rates{{1, 1}, {3, 2}, {2, 3}, {110, 100}, {100, 110}, {7, 1}, {1, 7}};
        // rates for all currencies except perhaps the one in question
        uint32_t n = c.choose(rates.size() + 1); for(auto &o: currencies_()) if(!(o == k)) s.foreign_currencies.emplace(o, exchange_rate(5, 1)); if(n < rates.size()) s.foreign_currencies.emplace(k, exchange_rate(rates[n].first, rates[n].second));
        c.op(); auto a = value(s, cash(k), q), b = value(s, money(k), q); c.state(MC_STR(q << ' ' << n << ' ' << show(a)));
        MC_LOG(c, q << ' ' << std::string(k) << " in " << std::string(home) << " is " << show(a));
        bool known = k == home || n < rates.size(); wide w = k == home ? wide(q) : n < rates.size() ? wide(q) * rates[n].first / rates[n].second : wide(0);
        for(auto &y: {a, b}) { MC_CHECK(c, bool(y) == known, "unknown rate", q << ' ' << std::string(k) << " in " << std::string(home) << " is " << show(y)); if(known) MC_CHECK(c, is(*y, w, home), "cash", q << ' ' << std::string(k) << " in " << std::string(home) << " is " << show(y)); }
        loan l(identity<esl::agent>({8}), identity<esl::agent>({9})); auto y = value(s, l, q);
        MC_CHECK(c, y && is(*y, -wide(q) * home.denominator, home), "loan", q << " owed are worth " << show(y));
    });
    int depth = r.bound(4, 5);
    r.scope(MC_STR("every sequence of " << depth << " price updates and removals for two stocks"), [=](mc::ctx &c) {
        standard s(currencies::USD); std::vector<stock> x{make({3, 1}), make({3, 1, 1})};
        struct known { int64_t v; int k; uint32_t lot; }; std::map<int, known> m;
        for(int d = 0; d < depth; ++d) {
            int i = c.choose(2); uint32_t o = c.choose(5); auto &key = x[i].identifier; known n{};
            if(o == 0) n = {100, 0, 1}; if(o == 1) n = {-30, 1, 1}; if(o == 2) n = {31, 0, 2}; if(o == 3) n = {40, 2, 10}; c.op();
            if(o == 4) { s.mark_to_market.erase(key); m.erase(i); }
            else { quote q(price(n.v, currencies_()[n.k]), n.lot); auto f = s.mark_to_market.find(key); if(f == s.mark_to_market.end()) s.mark_to_market.emplace(key, q); else f->second = q; m[i] = n; }
            std::string st;
            for(int j = 0; j < 2; ++j) {
                auto p = value(s, x[j], 3), l = value(s, securities_lending_contract(identity<esl::agent>({8}), identity<esl::agent>({9}), x[j].identifier, quantity(2)), 3);
                MC_LOG(c, "after update " << o << " of " << i << ": stock " << j << " is " << show(p)); st += show(p);
                MC_CHECK(c, bool(p) == m.count(j) && bool(l) == m.count(j), "no price", "stock " << j << " is worth " << show(p));
                if(m.count(j)) { auto &w = m[j]; MC_CHECK(c, is(*p, w.v * 3 / int64_t(w.lot), currencies_()[w.k]) && is(*l, -(w.v * 6 / int64_t(w.lot)), currencies_()[w.k]), "latest price", "stock " << j << " is worth " << show(p) << " and " << show(l)); }
            }
            c.state(st);
        }
    });
    int rounds = r.bound(2, 3);
    r.scope(MC_STR(rounds << " rounds of up to two quote messages to a shareholder"), [=](mc::ctx &c) {
        shareholder h(identity<shareholder>({9})); std::map<int, price> m; static const std::vector<std::shared_ptr<stock>> x{std::make_shared<stock>(make({3, 1})), std::make_shared<stock>(make({3, 1, 1}))};
        for(int d = 0; d < rounds; ++d) {
            esl::law::property_map<quote> p; std::vector<int64_t> v{5, -7}; bool twice = c.flip();
            for(int n = 0; n < (twice ? 2 : 1); ++n) {
                p.clear(); for(int j = 0; j < 2; ++j) { uint32_t o = c.choose(4); if(o < 3) { price w(v[o % 2] + d * 10 + n, o == 2 ? currencies::EUR : currencies::USD); p.emplace(x[j], quote(w)); m.insert_or_assign(j, w); } }
                auto msg = std::make_shared<markets::walras::quote_message>(identity<esl::agent>({1}), identity<esl::agent>({9}), p); h.inbox.insert({esl::simulation::time_point(d), msg}); }
            std::seed_seq seed{1}; h.schedule = esl::interaction::communicator::in_order; h.process_messages({esl::simulation::time_point(d), 10}, seed); h.inbox.clear(); c.op(); std::string st;
            for(int j = 0; j < 2; ++j) { auto f = h.prices.find(x[j]); MC_CHECK(c, (f != h.prices.end()) == bool(m.count(j)), "recorded", "price of stock " << j); if(m.count(j)) { MC_CHECK(c, is(f->second, m.at(j).value, m.at(j).valuation), "latest price", "stock " << j << " is recorded at " << f->second << " instead of " << m.at(j)); st += show(f->second); } }
            c.state(st);
        }
    });
    return r.finish();
}
