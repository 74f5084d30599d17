// mc-sources: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/log.cpp esl/data/output_base.cpp esl/data/severity.cpp esl/data/stream.cpp esl/data/terminal.cpp esl/economics/accounting/inventory.cpp esl/economics/asset.cpp esl/economics/finance/dividend.cpp esl/economics/iso_4217.cpp esl/economics/price.cpp esl/exception.cpp esl/interaction/communicator.cpp esl/interaction/transfer.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
// C29: every value of small domains of every type, saved to text, binary and XML archives and restored into other objects.
#include <cmath>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/boost_array.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/unordered_map.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include "mc.hpp"
#include <esl/data/output.hpp>
#include <esl/data/serialization.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/markets/ticker.hpp>
#include <esl/economics/markets/logon_message.hpp>
#include <esl/economics/markets/logout_message.hpp>
#include <esl/economics/markets/market_data_request_message.hpp>
#include <esl/economics/markets/order_status_request_message.hpp>
#include <esl/economics/markets/impact_function/order.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/geography/iso_3166_1_alpha_2.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/law/jurisdiction.hpp>
#include <esl/simulation/parameter/parameter.hpp>
using namespace esl; using namespace esl::economics; using esl::simulation::time_point; using esl::simulation::time_interval;
namespace ar = boost::archive; typedef identity<agent> aid; typedef identity<law::property> pid;

// every type has a description that shows each field that determines its behaviour
static std::string d(bool x) { return x ? "yes" : "no"; }
static std::string d(int x) { return std::to_string(x); }
static std::string d(uint64_t x) { return std::to_string(x); }
static std::string d(int64_t x) { return std::to_string(x); }
static std::string d(uint8_t x) { return std::to_string(x); }
static std::string d(double x) { char b[64]; snprintf(b, 64, "%a", x); return b; }
static std::string d(const std::string &x) { return '\'' + x + '\''; }
template<typename t_> static std::string d(const identity<t_> &i) { std::string s = "#"; for(auto x: i.digits) s += std::to_string(x) + '-'; return s; }
template<typename n_, bool l_, bool r_> static std::string d(const mathematics::interval<n_, l_, r_> &i) { return '[' + d(i.lower) + ' ' + d(i.upper) + ']'; }
static std::string d(const iso_4217 &c) { return std::string(c.code.data(), 3) + '/' + d(uint64_t(c.denominator)); }
static std::string d(const price &p) { return d(int64_t(p.value)) + ' ' + d(p.valuation); }
static std::string d(const quantity &q) { return d(uint64_t(q.amount)); }
static std::string d(const markets::quote &q) { return d(uint64_t(q.lot)) + " @ " + std::to_string(q.type.index()) + ' ' + d(std::get<price>(q.type)); }
template<typename n_> static std::string d(const rate<n_> &r) { return d(r.numerator()) + ':' + d(r.denominator()); }
static std::string d(const interest_rate &r) { return d(static_cast<const rate<> &>(r)) + " per " + d(uint64_t(r.duration)); }
static std::string d(const markets::ticker &t) { return d(t.base) + '/' + d(t.quote); }
static std::string d(const geography::iso_3166_1_alpha_2 &c) { return std::string(c.code.data(), 2); }
static std::string d(const law::jurisdiction &j) { return d(j.sovereign) + d(j.tender); }
static std::string d(const finance::share_class &s) { return d(s.rank) + ' ' + d(s.votes) + ' ' + d(double(s.preference)) + d(bool(s.dividend)) + d(bool(s.cumulative)) + d(bool(s.redeemable)); }
static std::string d(const interaction::header &h) { return "type " + d(h.type) + " from " + d(h.sender) + " to " + d(h.recipient) + " sent " + d(h.sent) + " received " + d(h.received); }
template<typename... t_> static std::string d(const std::tuple<t_...> &t);
template<typename a_, typename b_> static std::string d(const std::pair<a_, b_> &p);
template<typename t_> static std::string d(const std::vector<t_> &v) { std::string s = "{"; for(auto &x: v) s += d(x) + ", "; return s + '}'; }
template<typename k_, typename v_> static std::string d(const std::map<k_, v_> &m) { std::string s = "{"; for(auto &[k, v]: m) s += d(k) + ": " + d(v) + ", "; return s + '}'; }
template<typename v_, typename... r_> static std::string d(const std::unordered_map<std::shared_ptr<law::property>, v_, r_...> &m) { std::map<std::string, std::string> o; for(auto &[k, v]: m) o[k ? d(k->identifier) : "null"] += d(v) + '.'; std::string s = "{"; for(auto &[k, v]: o) s += k + ": " + v + ", "; return s + '}'; }
template<typename... t_> static std::string d(const std::tuple<t_...> &t) { return std::apply([](auto &... x) { return '(' + (("" + d(x) + ", ") + ...) + ')'; }, t); }
template<typename a_, typename b_> static std::string d(const std::pair<a_, b_> &p) { return d(p.first) + '=' + d(p.second); }
static std::string d(const finance::dividend_policy &p) { return d(p.announcement_date) + ' ' + d(p.ex_dividend_date) + ' ' + d(p.dividend_period) + ' ' + d(p.payable_date) + ' ' + d(p.dividend_currency) + ' ' + d(p.dividend_per_share); }
static const interaction::header &head(const interaction::header &h) { return h; }
static std::string d(const markets::logon_message &m) { std::string s = d(head(m)) + " supply"; for(auto &[t, n]: m.supply) s += ' ' + d(t) + ':' + d(n); return s; }
static std::string d(const markets::market_data_request_message &m) { return d(head(m)) + d(m.instruments) + ' ' + d(int(m.type)) + ' ' + d(m.depth); }
static std::string d(const interaction::transfer &t) { return d(head(t)) + d(t.transferor) + d(t.transferee) + d(t.transferred.items); }
static std::string d(const markets::walras::quote_message &m) { return d(head(m)) + d(int(m.binding)) + d(m.proposed); }
static std::string d(markets::impact_function::order_message::side_t s) { return std::to_string(int(s)); }
static std::string d(const markets::impact_function::order_message &m) { return d(head(m)) + d(m.side) + d(m.volumes); }
static std::string d(const finance::dividend_announcement_message &m) { return d(head(m)) + d(m.policy); }
static std::string d(const finance::dividend_record &m) { return d(head(m)) + d(m.shares_on_record); }
template<typename... t_> static std::string d(const data::output<t_...> &o) { return d(o.name) + d(bool(o.buffered)) + d(o.values); }
template<typename t_> static std::string d(const simulation::parameter::constant<t_> &p) { return d(p.choice); }
template<typename t_> static std::string d(const simulation::parameter::categorical<t_> &p) { return d(p.categories); }

static const char *formats[] = {"text", "binary", "XML"};
template<typename O, typename T> static std::string save(const std::vector<const T *> &v) { std::ostringstream s; { O o(s); for(auto x: v) o << boost::serialization::make_nvp("x", *x); } return s.str(); }
template<typename I, typename T> static void load(const std::string &s, const std::vector<T *> &v) { std::istringstream i(s); I a(i); for(auto x: v) a >> boost::serialization::make_nvp("x", *x); }
template<typename T> static std::string save(int format, const std::vector<const T *> &v) { return format == 0 ? save<ar::text_oarchive>(v) : format == 1 ? save<ar::binary_oarchive>(v) : save<ar::xml_oarchive>(v); }
template<typename T> static void load(int format, const std::string &s, const std::vector<T *> &v) { if(format == 0) load<ar::text_iarchive>(s, v); else if(format == 1) load<ar::binary_iarchive>(s, v); else load<ar::xml_iarchive>(s, v); }

// several objects in one archive, each restored into an object with another value
template<typename T> static void trip(mc::ctx &c, const std::vector<const T *> &from, const std::vector<T *> &to)
{
    std::vector<std::string> before, others; for(auto x: from) before.push_back(d(*x)); for(auto x: to) others.push_back(d(*x));
    for(int f = 0; f < 3; ++f) {
        auto text = save(f, from); c.op();
        for(size_t i = 0; i < from.size(); ++i) MC_CHECK(c, d(*from[i]) == before[i], "saved", "saving " << before[i] << " as " << formats[f] << " changes it to " << d(*from[i]));
        MC_CHECK(c, save(f, from) == text, "saved", "saving " << before[0] << " again as " << formats[f] << " gives another result");
        load(f, text, to); c.op();
        for(size_t i = 0; i < from.size(); ++i) { MC_LOG(c, formats[f] << ": " << before[i] << " restored into " << others[i] << " is " << d(*to[i])); MC_CHECK(c, d(*to[i]) == before[i], "restored", before[i] << " restored from " << formats[f] << " into " << others[i] << " is " << d(*to[i])); }
        for(size_t i = 0; i < from.size(); ++i) MC_CHECK(c, d(*from[i]) == before[i], "aliased", "restoring into another object changes " << before[i] << " to " << d(*from[i]));
    }
    for(auto &b: before) c.state(b);
}
template<typename T> static void trip(mc::ctx &c, const T &a, T b) { trip<T>(c, {&a}, {&b}); }
// all pairs of a value and the value it is restored into
template<typename T> static void pairs(mc::ctx &c, const std::vector<T> &v) { const T a = c.pick(v); T b = c.pick(v); trip<T>(c, {&a}, {&b}); }
// sequences in one archive, and as the elements of a vector
template<typename T> static void sequence(mc::ctx &c, const std::vector<T> &v, int most)
{
    int n = 1 + c.choose(most); std::vector<T> a; std::vector<T> b; for(int i = 0; i < n; ++i) { a.push_back(c.pick(v)); b.push_back(v[0]); }
    std::vector<const T *> x; std::vector<T *> y; for(int i = 0; i < n; ++i) { x.push_back(&a[i]); y.push_back(&b[i]); }
    trip<T>(c, x, y);
    if constexpr(std::is_default_constructible_v<T>) {
    trip<std::vector<T>>(c, a, {}); trip<std::vector<T>>(c, a, {v[0], v[0], v[0], v[0]});
    std::map<int, T> m, o; for(int i = 0; i < n; ++i) m.emplace(i, a[i]); o.emplace(7, v[0]); trip<std::map<int, T>>(c, m, o);
    }
}
template<typename T> static void all(mc::runner &r, const std::string &name, const std::vector<T> &v, size_t few)
{
    r.scope(name + ", into every other", [=](mc::ctx &c) { pairs(c, v); });
    std::vector<T> w; for(size_t i = 0; i < few; ++i) w.push_back(v[i * (v.size() - 1) / (few - 1)]);
    int n = r.bound(3, 4); r.scope("sequences of " + name, [=](mc::ctx &c) { sequence(c, w, n); });
}
static std::vector<std::shared_ptr<law::property>> things() { static std::vector<std::shared_ptr<law::property>> p{std::make_shared<law::property>(pid({1})), std::make_shared<law::property>(pid({2, 3})), std::make_shared<law::property>(pid({2, ~0ull}))}; return p; }

static const std::vector<aid> agents{aid(), aid({0}), aid({1}), aid({1, 0}), aid({~0ull, 2, 1ull << 63})};
static const std::vector<time_point> times{0, 1, 5, 1ull << 63, ~0ull};
template<typename M> static void header_of(mc::ctx &c, M &m, int many)
{
    m.sender = agents[c.choose(many)]; m.recipient = agents[agents.size() - 1 - c.choose(many)]; m.sent = times[c.choose(many)]; m.received = times[times.size() - 1 - c.choose(many)];
}
template<typename M> static void dirty(M &m) { m.sender = aid({9, 9}); m.recipient = aid({8}); m.sent = 77; m.received = 78; }

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C29");
    typedef std::numeric_limits<double> lim;
    const std::vector<double> reals{0, 1, -1, 0.1, -0.1, 1.0 / 3, 1e-9, 123456789.123456789, 1e300, lim::max(), -lim::max(), lim::min(), lim::epsilon(), 2.0000000000000004};
    all(r, "times", times, 4); all(r, "real numbers", reals, 4);
    { std::vector<time_interval> v; for(auto a: times) for(auto b: times) v.push_back({a, b}); all(r, "time intervals", v, 4); }
    { std::vector<mathematics::interval<double, true, true>> v; for(auto a: reals) for(auto b: reals) v.push_back({a, b}); all(r, "closed intervals of real numbers", v, 4); }
    { std::vector<mathematics::interval<int, false, true>> v; for(int a: {-2, 0, 7, INT32_MIN}) for(int b: {-1, 0, 8, INT32_MAX}) v.push_back({a, b}); all(r, "open intervals of whole numbers", v, 4); }
    { std::vector<aid> v{aid()}; const std::vector<uint64_t> g{0, 1, 10, ~0ull}; for(auto a: g) { v.push_back(aid({a})); for(auto b: g) { v.push_back(aid({a, b})); for(auto e: g) v.push_back(aid({a, b, e})); } } all(r, "identities", v, 5); }
    const std::vector<int64_t> amounts{0, 1, -1, 99, -100, 101, 12345, 1ll << 32, -(1ll << 53) - 1, INT64_MAX, INT64_MIN};
    const std::vector<iso_4217> coins{currencies::USD, currencies::EUR, iso_4217({'J', 'P', 'Y'}, 1), iso_4217({'U', 'S', 'D'}, 1000), iso_4217({'A', 'Z', 'Z'}, ~0ull), iso_4217({'Z', 'A', 'Z'}, 1ull << 32)};
    std::vector<price> prices; for(auto a: amounts) for(auto &k: coins) prices.emplace_back(a, k);
    { std::vector<quantity> v; for(uint64_t a: {0ull, 1ull, 2ull, 99ull, 1ull << 32, (1ull << 53) + 1, ~0ull}) v.emplace_back(a); all(r, "quantities", v, 4); }
    all(r, "currencies", coins, 4); all(r, "prices", prices, 4);
    { std::vector<markets::quote> v; for(auto a: amounts) for(auto &k: {coins[0], coins[2], coins[3], coins[4]}) for(uint32_t l: {1u, 2u, 100u, ~0u}) v.emplace_back(price(a, k), l); std::vector<markets::quote> w; for(size_t i = 0; i < v.size(); i += r.bound(2, 1)) w.push_back(v[i]); all(r, "quotes", w, 4); }
    { std::vector<rate<int64_t>> v; for(int64_t a: {0ll, 1ll, -1ll, 3ll, -7ll, (1ll << 40) + 1, (long long)INT64_MAX}) for(int64_t b: {1ll, 2ll, 10ll, (1ll << 40) + 3, (long long)INT64_MAX - 24}) v.emplace_back(a, b); all(r, "rates", v, 4);
      std::vector<interest_rate> w; for(auto &x: v) for(uint64_t t: {0ull, 1ull, 365ull, ~0ull}) w.emplace_back(x, t); all(r, "interest rates", w, 4); }
    { std::vector<exchange_rate> v; for(uint64_t a: {1ull, 2ull, 7ull, 100ull, (1ull << 33) + 1, ~0ull >> 1}) for(uint64_t b: {1ull, 3ull, 10ull, (1ull << 33) + 3, 1ull << 62}) v.emplace_back(a, b); all(r, "exchange rates", v, 4);
      std::vector<rate<uint64_t>> w(v.begin(), v.end()); all(r, "unsigned rates", w, 4); }
    { std::vector<markets::ticker> v; std::vector<pid> p{pid(), pid({1}), pid({1, 0}), pid({~0ull})}; for(auto &a: p) for(auto &b: p) v.emplace_back(a, b); all(r, "tickers", v, 4); }
    { std::vector<geography::iso_3166_1_alpha_2> v{geography::iso_3166_1_alpha_2("NL"), geography::iso_3166_1_alpha_2("LN"), geography::iso_3166_1_alpha_2("AA"), geography::iso_3166_1_alpha_2("ZZ")}; r.scope("countries and jurisdictions", [=](mc::ctx &c) { pairs(c, v); law::jurisdiction a(c.pick(v), c.pick(coins)), b(c.pick(v), coins[0]); trip<law::jurisdiction>(c, {&a}, {&b}); }); }
    std::vector<finance::share_class> classes; for(int i = 0; i < 256; ++i) classes.emplace_back(i & 1 ? 255 : 0, i & 2 ? 1 : 200, (i >> 2 & 3) == 0 ? 0.f : (i >> 2 & 3) == 1 ? 0.1f : (i >> 2 & 3) == 2 ? -1.5f : 1e30f, i & 16, i & 32, i & 64);
    classes.erase(std::remove_if(classes.begin(), classes.end(), [&](auto &x) { return (&x - &classes[0]) & 128; }), classes.end());
    all(r, "share classes", classes, 4);
    { std::vector<simulation::parameter::constant<double>> v; for(auto x: reals) v.emplace_back(x); r.scope("constant parameters", [=](mc::ctx &c) { pairs(c, v); }); }
    r.scope("categorical parameters", [=](mc::ctx &c) { std::vector<double> v; int n = c.choose(4); while(n--) v.push_back(reals[c.choose(4)]); simulation::parameter::categorical<double> a(v), b({5, 6}); trip(c, a, b); });
    r.scope("parameters with a range", [=](mc::ctx &c) { simulation::parameter::interval<double> a(c.pick(reals), c.pick(reals)), b(3, 4); for(int f = 0; f < 3; ++f) { std::string s = save<simulation::parameter::interval<double>>(f, {&a}); load<simulation::parameter::interval<double>>(f, s, {&b}); c.op(); MC_CHECK(c, d(b.lower) == d(a.lower) && d(b.upper) == d(a.upper), "restored", "range " << a.lower << ' ' << a.upper << " is restored as " << b.lower << ' ' << b.upper); c.state(s); } });

    const int many = r.bound(3, 5);
    r.scope("headers", [=](mc::ctx &c) { interaction::header a(c.pick(std::vector<uint64_t>{0, 1, 2, interaction::library_message_code<0xC00>(), ~0ull})), b(99); header_of(c, a, 5); dirty(b); trip(c, a, b); trip(c, a, interaction::header()); });
    r.scope("messages without contents", [=](mc::ctx &c) { if(c.flip()) { markets::logout_message a, b; header_of(c, a, 5); dirty(b); trip(c, a, b); } else { markets::order_status_request_message a, b; header_of(c, a, 5); dirty(b); trip(c, a, b); } });
    const std::vector<markets::ticker> symbols{markets::ticker(pid({1}), pid({2})), markets::ticker(pid({2}), pid({1})), markets::ticker(pid(), pid({1, 0}))};
    r.scope("logon messages", [=](mc::ctx &c) { markets::logon_message a, b; header_of(c, a, many); dirty(b); for(auto &t: symbols) if(uint32_t k = c.choose(4)) a.supply[t] = std::vector<uint64_t>{0, 1, ~0ull}[k - 1]; b.supply[symbols[1]] = 44; trip(c, a, b); });
    r.scope("market data requests", [=](mc::ctx &c) { markets::market_data_request_message a, b; header_of(c, a, many); dirty(b); int n = c.choose(4); while(n--) a.instruments.push_back(c.pick(symbols)); a.type = markets::market_data_request_message::request_t(c.choose(3)); a.depth = c.pick(std::vector<uint8_t>{0, 1, 9, 10, 255}); b.instruments = symbols; b.depth = 77; b.type = markets::market_data_request_message::cancel; trip(c, a, b); });
    r.scope("transfers", [=](mc::ctx &c) { interaction::transfer a, b; header_of(c, a, many); dirty(b); typedef identity<law::owner<law::property>> oid; a.transferor = oid(c.pick(agents).digits); a.transferee = oid(c.pick(agents).digits); for(auto &p: things()) if(uint32_t k = c.choose(3)) a.transferred.items.emplace(p, quantity(k == 1 ? 1 : ~0ull)); b.transferor = oid({7}); b.transferred.items.emplace(things()[1], quantity(5)); trip(c, a, b); });
    r.scope("quote messages", [=](mc::ctx &c) { markets::walras::quote_message a, b; header_of(c, a, many); dirty(b); a.binding = c.flip() ? markets::indication::firm : markets::indication::indicative; for(auto &p: things()) if(uint32_t k = c.choose(4)) a.proposed.emplace(p, markets::quote(price(amounts[k], coins[k]), k)); b.proposed.emplace(things()[0], markets::quote(price(5, coins[0]), 9)); b.binding = c.flip() ? markets::indication::firm : markets::indication::indicative; trip(c, a, b); });
    r.scope("orders of markets with an impact function", [=](mc::ctx &c) { typedef markets::impact_function::order_message message; message a{aid(), aid()}, b{aid(), aid()}; header_of(c, a, many); dirty(b); a.side = c.flip() ? message::buy : message::sell; b.side = c.flip() ? message::buy : message::sell; for(auto &p: things()) if(uint32_t k = c.choose(4)) a.volumes[p] = {k == 1 ? 0 : ~0ull, k & 1 ? message::buy : message::sell}; b.volumes[things()[2]] = {4, message::buy}; trip(c, a, b); });
    auto policy = [=](mc::ctx &c, int n) { finance::dividend_policy p; p.announcement_date = times[c.choose(n)]; p.ex_dividend_date = times[c.choose(n)]; p.dividend_period = {times[c.choose(n)], times[c.choose(n)]}; p.payable_date = times[c.choose(n)]; p.dividend_currency = coins[c.choose(n)]; for(int i: {0, 17, 127}) if(uint32_t k = c.choose(3)) p.dividend_per_share[classes[i]] = {k == 1 ? 1 : ~0ull, price(k == 1 ? -5 : 250, coins[k])}; return p; };
    finance::dividend_policy old(3, 4, {5, 6}, 7, coins[1], {{classes[5], std::make_tuple(3ull, price(4, coins[0]))}});
    r.scope("dividend policies", [=](mc::ctx &c) { auto a = policy(c, r.bound(2, 3)), b = old; trip(c, a, b); });
    r.scope("dividend announcements", [=](mc::ctx &c) { finance::dividend_announcement_message a, b; header_of(c, a, many); dirty(b); a.policy = policy(c, 1); b.policy = old; trip(c, a, b); });
    r.scope("dividend records", [=](mc::ctx &c) { finance::dividend_record a, b; header_of(c, a, many); dirty(b); for(int i: {0, 17, 127}) if(uint32_t k = c.choose(3)) a.shares_on_record[classes[i]] = k == 1 ? 1 : ~0ull; b.shares_on_record[classes[3]] = 6; trip(c, a, b); });
    r.scope("messages behind pointers", [=](mc::ctx &c) { auto a = std::make_shared<markets::market_data_request_message>(); header_of(c, *a, many); a->instruments.assign(c.choose(3), symbols[1]); std::vector<std::shared_ptr<markets::market_data_request_message>> v{a, a}; if(c.flip()) v[1] = std::make_shared<markets::market_data_request_message>(*a); if(c.flip()) v.emplace_back();
        for(int f = 0; f < 3; ++f) { decltype(v) w{nullptr}; auto s = save<decltype(v)>(f, {&v}); load<decltype(v)>(f, s, {&w}); c.op(); MC_CHECK(c, w.size() == v.size(), "restored", "number of messages"); for(size_t i = 0; i < v.size(); ++i) MC_CHECK(c, bool(v[i]) == bool(w[i]) && (!v[i] || d(*v[i]) == d(*w[i])), "restored", d(*a) << " behind a pointer is restored as " << (w[i] ? d(*w[i]) : "nothing")); MC_CHECK(c, (v[0] == v[1]) == (w[0] == w[1]), "restored", "messages that were one are restored as two, or vice versa"); c.state(s); } });

    const std::vector<std::string> texts{"", "a", "a b", "<x>&\"'", ",;\\", "0 5 3"};
    r.scope("outputs of real numbers", [=](mc::ctx &c) { data::output<double> a(c.pick(texts), c.flip()), b("old", c.flip()); a.streams.clear(); auto quiet = a.buffered; int n = c.choose(r.bound(3, 4)); for(int i = 0; i < n; ++i) a.put(c.pick(times), c.pick(reals)); if(c.flip()) b.put(3, 4.5); MC_CHECK(c, a.buffered == quiet, "put", "buffering changes"); trip<data::output<double>>(c, {&a}, {&b}); });
    r.scope("outputs of several variables", [=](mc::ctx &c) { typedef data::output<int, std::string, price> out; out a(c.pick(texts), c.flip()), b("old", c.flip()); int n = c.choose(r.bound(3, 4)); for(int i = 0; i < n; ++i) a.put(times[i], int(c.choose(2)) - 1, c.pick(texts), prices[c.choose(3) * 17]); if(c.flip()) b.put(3, 1, "b", prices[1]); trip<out>(c, {&a}, {&b}); });
    r.scope("outputs of lists of prices", [=](mc::ctx &c) { typedef data::output<std::vector<price>> out; out a("a", c.flip()), b("old", c.flip()); int n = c.choose(4); for(int i = 0; i < n; ++i) { std::vector<price> v; int k = c.choose(3); while(k--) v.push_back(prices[c.choose(3) * 17]); a.put(i, v); } if(c.flip()) b.put(3, {prices[0]}); trip<out>(c, {&a}, {&b}); });
    return r.finish();
}
