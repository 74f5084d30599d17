// mc-sources: 
#include "mc.hpp"
#include <array>
#include <ostream>
#include <unordered_set>
#include <esl/economics/iso_4217.hpp>
#include <esl/economics/price.hpp>
#include <esl/economics/finance/share_class.hpp>
#include <esl/economics/markets/iso_10383.hpp>
#include <esl/economics/markets/ticker.hpp>
#include <esl/geography/iso_3166_1_alpha_2.hpp>
#include <esl/law/jurisdiction.hpp>
#include <esl/quantity.hpp>
using namespace esl; using namespace esl::economics;
template<typename F> static bool throws(F f) { try { f(); } catch(const std::exception &) { return true; } return false; }

// T: value type; K: key with the intended meaning, compared by ==
template<typename T> struct type
{
    std::string name; std::vector<T> values; std::function<std::string(const T &)> show;
    std::function<int(const T &, const T &)> extra; // operators besides == and <; -1 when they are as expected
    std::function<size_t(const T &)> hash;
};

template<typename T> static void laws(mc::runner &r, const type<T> &t)
{
    r.scope("laws over all triples of " + t.name, [=](mc::ctx &c) {
        auto &v = t.values; size_t i = c.choose(v.size()), j = c.choose(v.size());
        const T &a = v[i], &b = v[j]; bool same = i == j; // the values are pairwise different
        c.op(); c.state(MC_STR(i << ' ' << j));
        MC_LOG(c, t.show(a) << " and " << t.show(b));
        MC_CHECK(c, (a == b) == same && (b == a) == same, t.name + " equality", t.show(a) << " and " << t.show(b));
        bool l = a < b, g = b < a;
        MC_CHECK(c, !(l && g) && (same ? !l && !g : l || g), t.name + " total", t.show(a) << " and " << t.show(b) << ": " << l << g);
        if(t.extra) MC_CHECK(c, t.extra(a, b) < 0, t.name + " operators", t.show(a) << " and " << t.show(b) << ": operator " << t.extra(a, b));
        if(t.hash) { T x(b); x = a; MC_CHECK(c, t.hash(x) == t.hash(a) && x == a && !(x < a) && !(a < x), t.name + " hash", t.show(a)); }
        for(auto &d: v) if(l && b < d) MC_CHECK(c, a < d, t.name + " transitive", t.show(a) << ", " << t.show(b) << ", " << t.show(d));
    });
    r.scope("containers keyed by " + t.name, [=](mc::ctx &c) {
        auto &v = t.values; size_t n = v.size(), step = 1 + c.choose(std::min<size_t>(n - 1, 12)), off = c.choose(n);
        c.op(); std::map<T, size_t> m;
        for(size_t k = 0; k < n; ++k) { size_t i = (off + k * step) % n; m.emplace(v[i], i); }
        std::set<size_t> in; for(size_t k = 0; k < n; ++k) in.insert((off + k * step) % n);
        MC_CHECK(c, m.size() == in.size(), t.name + " map size", m.size() << " of " << in.size());
        for(size_t i = 0; i < n; ++i) { auto f = m.find(v[i]); MC_CHECK(c, (f != m.end()) == (in.count(i) > 0) && (f == m.end() || f->second == i), t.name + " map lookup", t.show(v[i])); }
    });
    if constexpr(std::is_default_constructible<std::hash<T>>::value)
    r.scope("hashed containers keyed by " + t.name, [=](mc::ctx &c) {
        auto &v = t.values; size_t n = v.size(), step = 1 + c.choose(std::min<size_t>(n - 1, 12)), off = c.choose(n);
        c.op(); std::unordered_map<T, size_t> m;
        for(size_t k = 0; k < n; ++k) { size_t i = (off + k * step) % n; m.emplace(v[i], i); }
        std::set<size_t> in; for(size_t k = 0; k < n; ++k) in.insert((off + k * step) % n);
        MC_CHECK(c, m.size() == in.size(), t.name + " hash map size", m.size() << " of " << in.size());
        for(size_t i = 0; i < n; ++i) { auto f = m.find(T(v[i])); MC_CHECK(c, (f != m.end()) == (in.count(i) > 0) && (f == m.end() || f->second == i), t.name + " hash map lookup", t.show(v[i])); }
    });
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C20");
    {
        type<iso_4217> t; t.name = "currencies"; const char *l = r.thorough() ? "ABLYZ" : "ABZ";
        for(const char *a = l; *a; ++a) for(const char *b = l; *b; ++b) for(const char *d = l; *d; ++d) for(uint64_t n: {1ull, 100ull, 1000ull, ~0ull}) t.values.push_back(iso_4217({*a, *b, *d}, n));
        t.show = [](const iso_4217 &x) { return std::string(x) + "/" + std::to_string(x.denominator); };
        t.extra = [](const iso_4217 &a, const iso_4217 &b) { return (a != b) == !(a == b) ? -1 : 0; };
        t.hash = [](const iso_4217 &a) { return std::hash<iso_4217>()(a); };
        laws(r, t);
    }
    {
        typedef economics::markets::iso_10383 M; 
        r.scope("laws over all pairs of market codes", [=](mc::ctx &c) {
            static const char l[] = "09AZM"; std::string s[2];
            for(auto &x: s) for(int i = 0; i < 4; ++i) x += l[c.choose(i < 2 ? 5 : 3)];
            c.op(); c.state(s[0] + s[1]); const M a(s[0]), b(s[1]); M z(std::array<char, 4>{s[0][0], s[0][1], s[0][2], s[0][3]});
            MC_CHECK(c, (a == b) == (s[0] == s[1]) && (a != b) == (s[0] != s[1]) && (a < b) == (s[0] < s[1]) && (a > b) == (s[0] > s[1]) && (a <= b) == (s[0] <= s[1]) && (a >= b) == (s[0] >= s[1]), "market codes order", s[0] << " and " << s[1]);
            MC_CHECK(c, z == a && std::hash<M>()(z) == std::hash<M>()(a) && a.representation() == s[0] && MC_STR(a) == s[0], "market codes hash", s[0]);
        });
        r.scope("construction of market codes", [=](mc::ctx &c) {
            static const std::vector<int> edge{0, '/', '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', ' ', 127, -1};
            uint32_t len = c.choose(4) + 2; if(len == 5 && c.flip()) len = 0; std::string s;
            if(len == 4) { uint32_t p = c.choose(4), q = c.choose(4); s = "AAAA"; s[p] = char(c.choose(256)); if(q != p) s[q] = char(c.pick(edge)); }
            else for(uint32_t i = 0; i < len; ++i) s += i < 2 ? char(c.pick(edge)) : 'A';
            bool ok = s.size() == 4; for(char x: s) ok = ok && ((x >= 'A' && x <= 'Z') || (x >= '0' && x <= '9'));
            c.op(); c.state(s);
            bool err = throws([&] { M m(s); MC_CHECK(c, m.representation() == s, "market code text", s); });
            MC_CHECK(c, err == !ok, "market code accepted", "\"" << s << "\" error " << err);
            if(s.size() == 4) MC_CHECK(c, throws([&] { M m(std::array<char, 4>{s[0], s[1], s[2], s[3]}); }) == !ok, "market code accepted", s);
        });
    }
    {
        typedef finance::share_class S; type<S> t; t.name = "share classes";
        std::vector<uint8_t> ranks{0, 1, 255}; if(r.thorough()) ranks = {0, 1, 2, 127, 128, 254, 255};
        for(auto a: ranks) for(auto v: {0, 1, 10}) for(float p: {0.f, .5f, -.25f}) for(int f = 0; f < 8; ++f) t.values.push_back(S(a, v, p, f & 1, f & 2, f & 4));
        t.show = [](const S &s) { return MC_STR(+s.rank << '/' << +s.votes << '/' << s.preference << '/' << s.dividend << s.cumulative << s.redeemable); };
        t.hash = [](const S &s) { return std::hash<S>()(s); };
        laws(r, t);
    }
    {
        typedef economics::markets::ticker K; type<K> t; t.name = "tickers";
        std::vector<std::vector<uint64_t>> ids{{}, {0}, {1}, {0, 0}, {0, 1}, {1, 0}, {~0ull}, {0, ~0ull}}; if(r.thorough()) { ids.push_back({2}); ids.push_back({0, 0, 0}); ids.push_back({1, 1}); ids.push_back({2, 3, 4, 5}); }
        for(auto &a: ids) for(auto &b: ids) t.values.push_back(K(identity<law::property>(a), identity<law::property>(b)));
        t.show = [](const K &k) { return k.base.representation() + "/" + k.quote.representation(); };
        t.extra = [](const K &a, const K &b) { bool l = a < b, g = b < a, e = a == b; return (a != b) == e ? 0 : (a > b) != g ? 1 : (a <= b) != (l || e) ? 2 : (a >= b) != (g || e) ? 3 : -1; };
        t.hash = [](const K &k) { return std::hash<K>()(k); };
        laws(r, t);
    }
    {
        type<quantity> t; t.name = "quantities"; for(int i = 0; i < 40; ++i) { t.values.push_back(quantity(i)); t.values.push_back(quantity(~0ull - i)); } for(int i = 8; i < 63; ++i) t.values.push_back(quantity(1ull << i));
        t.show = [](const quantity &q) { return std::to_string(q.amount); };
        t.extra = [](const quantity &a, const quantity &b) { bool l = a < b, g = b < a, e = a == b; return (a != b) == e ? 0 : (a > b) != g ? 1 : (a <= b) != (l || e) ? 2 : (a >= b) != (g || e) ? 3 : -1; };
        laws(r, t);
    }
    {
        type<price> t; t.name = "prices"; for(int i = -40; i < 40; ++i) t.values.push_back(price(i, iso_4217({'U','S','D'}))); for(int64_t v: std::vector<int64_t>{INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 1ll << 40, -(1ll << 40)}) t.values.push_back(price(v, iso_4217({'U','S','D'})));
        t.show = [](const price &q) { return std::to_string(q.value); };
        t.extra = [](const price &a, const price &b) { bool l = a < b, g = b < a, e = a == b; return (a != b) == e ? 0 : (a > b) != g ? 1 : (a <= b) != (l || e) ? 2 : (a >= b) != (g || e) ? 3 : -1; };
        laws(r, t);
    }
    static const std::vector<int> edge{0, '0', '9', '@', 'A', 'B', 'Y', 'Z', '[', 'a', 'z', ' ', 127, -1, -128};
    r.scope("construction of currencies", [=](mc::ctx &c) {
        uint32_t p = c.choose(3), q = c.choose(3); std::array<char, 3> s{'A', 'M', 'Z'}; s[p] = char(c.choose(256)); if(q != p) s[q] = char(c.pick(edge));
        uint64_t d = c.pick(std::vector<uint64_t>{0, 1, 100, ~0ull}); bool ok = d > 0; for(char x: s) ok = ok && x >= 'A' && x <= 'Z';
        c.op(); c.state(std::string(s.data(), 3) + std::to_string(d));
        bool err = throws([&] { iso_4217 k(s, d); MC_CHECK(c, std::string(k) == std::string(s.data(), 3) && k.denominator == d && MC_STR(k).find(std::string(s.data(), 3)) != std::string::npos, "currency text", std::string(s.data(), 3)); iso_4217 z(k), y; y = z; MC_CHECK(c, z == k && y == k && std::hash<iso_4217>()(y) == std::hash<iso_4217>()(k), "currency copy", MC_STR(k)); });
        MC_CHECK(c, err == !ok, "currency accepted", "\"" << std::string(s.data(), 3) << "\" denominator " << d << " error " << err);
    });
    r.scope("construction and hashing of country codes", [=](mc::ctx &c) {
        typedef geography::iso_3166_1_alpha_2 G;
        uint32_t len = c.choose(4); std::string s;
        if(len == 2) { s = "AA"; s[0] = char(c.choose(256)); s[1] = char(c.choose(256)); } else for(uint32_t i = 0; i < len; ++i) s += char(c.pick(edge));
        bool ok = s.size() == 2; for(char x: s) ok = ok && x >= 'A' && x <= 'Z';
        c.op(); c.state(s);
        bool err = throws([&] { G g(s); MC_CHECK(c, g.representation() == s && MC_STR(g) == s, "country text", s); });
        MC_CHECK(c, err == !ok, "country accepted", "\"" << s << "\" error " << err);
        if(len == 2) {
            std::array<char, 2> a{s[0], s[1]};
            MC_CHECK(c, throws([&] { G g(a); }) == !ok, "country accepted", s);
            if(ok) {
                G g(s), h(a); MC_CHECK(c, std::hash<G>()(g) == std::hash<G>()(h), "country hash", s);
                // jurisdictions hash by their sovereign
                law::jurisdiction j(g, iso_4217()), k(h, iso_4217()); MC_CHECK(c, std::hash<law::jurisdiction>()(j) == std::hash<law::jurisdiction>()(k), "jurisdiction hash", s);
            }
        }
    });
    return r.finish();
}
