// mc-sources:
#include "mc.hpp"
#include <array>
#include <esl/economics/finance/isin.hpp>
#include <esl/economics/finance/cusip.hpp>
#include <esl/economics/finance/sedol.hpp>
#include <esl/law/legal_entity.hpp>
using namespace esl::economics::finance; using esl::geography::iso_3166_1_alpha_2; using esl::law::iso_17442;
template<typename F> static bool throws(F f) { try { f(); } catch(const std::exception &) { return true; } return false; }
template<size_t n> static std::array<char, n> arr(const std::string &s) { std::array<char, n> a; for(size_t i = 0; i < n; ++i) a[i] = s[i]; return a; }

// ---- the standards
static int val(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c == '*' ? 36 : c == '@' ? 37 : c == '#' ? 38 : -1; }
static char isin_digit(const std::string &s) // 11 symbols: digits of the expansion, from the right every second one doubled
{
    std::string e; for(char c: s) e += std::to_string(val(c));
    int sum = 0; bool twice = true; for(size_t i = e.size(); i-- > 0; twice = !twice) { int d = e[i] - '0'; if(twice) { d *= 2; if(d > 9) d -= 9; } sum += d; }
    return char('0' + (10 - sum % 10) % 10);
}
static char cusip_digit(const std::string &s)
{
    int sum = 0; for(int i = 0; i < 8; ++i) { int v = val(s[i]); if(i % 2) v *= 2; sum += v / 10 + v % 10; }
    return char('0' + (10 - sum % 10) % 10);
}
static char sedol_digit(const std::string &s)
{
    static const int w[] = {1, 3, 1, 7, 3, 9}; int sum = 0; for(int i = 0; i < 6; ++i) sum += w[i] * val(s[i]);
    return char('0' + (10 - sum % 10) % 10);
}
static std::string lei_digits(const std::string &s) // 18 symbols; ISO 7064 mod 97-10
{
    int m = 0; for(char c: s + "00") for(char d: std::to_string(val(c))) m = (m * 10 + d - '0') % 97;
    int k = 98 - m; return std::string{char('0' + k / 10), char('0' + k % 10)};
}

static const std::string alnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", lower = "abcdefghijklmnopqrstuvwxyz", letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", digits = "0123456789";

// ---- one code, constructed in every way
static void try_isin(mc::ctx &c, const std::string &s)
{
    c.op(); c.state("I" + s);
    char d = isin_digit(s); std::string full = s + d, cc = s.substr(0, 2), nsin = s.substr(2);
    MC_LOG(c, full);
    iso_3166_1_alpha_2 g(cc);
    auto see = [&](const char *how, const isin &i) {
        MC_CHECK(c, i.checksum() == d, MC_STR("isin check digit " << how), s << ": " << i.checksum() << " for " << d);
        MC_CHECK(c, i.representation() == full && MC_STR(i) == full, MC_STR("isin text " << how), s << ": " << i);
        MC_CHECK(c, i.issuer.code == arr<2>(cc) && i.code == arr<9>(nsin), MC_STR("isin parts " << how), s);
    };
    see("parts", isin(g, arr<9>(nsin))); see("11 symbols", isin(arr<11>(s))); see("country and text", isin(g, nsin)); see("country and full text", isin(g, nsin + d));
    see("two texts", isin(cc, nsin)); see("text", isin(s)); see("full text", isin(full)); isin a(s), b(a); see("copy", b);
}
static void wrong_isin(mc::ctx &c, const std::string &s)
{
    char d = isin_digit(s); std::string cc = s.substr(0, 2), nsin = s.substr(2); iso_3166_1_alpha_2 g(cc);
    for(char x: digits) if(x != d) MC_CHECK(c, throws([&] { isin(s + x); }) && throws([&] { isin(g, nsin + x); }) && throws([&] { isin(cc, nsin + x); }), "isin wrong check digit", s << x);
    for(size_t n = 0; n < 11; ++n) MC_CHECK(c, throws([&] { isin(s.substr(0, n)); }), "isin length", s.substr(0, n));
    for(auto &t: {s + d + "0", s + "000"}) MC_CHECK(c, throws([&] { isin z(t); }), "isin length", t);
    for(size_t n = 0; n < 9; ++n) MC_CHECK(c, throws([&] { isin(g, nsin.substr(0, n)); }) && throws([&] { isin(cc, nsin.substr(0, n)); }), "isin length", nsin.substr(0, n));
    MC_CHECK(c, throws([&] { isin(g, nsin + d + "0"); }) && throws([&] { isin(cc + "A", nsin); }) && throws([&] { isin("A", nsin); }) && throws([&] { isin("12", nsin); }), "isin length", s);
}
static void try_cusip(mc::ctx &c, const std::string &s)
{
    c.op(); c.state("C" + s);
    char d = cusip_digit(s); std::string full = s + d;
    MC_LOG(c, full);
    auto see = [&](const char *how, const cusip &i) {
        MC_CHECK(c, i.checksum() == d, MC_STR("cusip check digit " << how), s << ": " << i.checksum() << " for " << d);
        MC_CHECK(c, i.representation() == full && MC_STR(i) == full, MC_STR("cusip text " << how), s << ": " << i);
        MC_CHECK(c, i.issuer == arr<6>(s) && i.code == arr<2>(s.substr(6)), MC_STR("cusip parts " << how), s);
    };
    see("parts", cusip(arr<6>(s), arr<2>(s.substr(6)))); see("8 symbols", cusip(arr<8>(s))); see("9 symbols", cusip(arr<9>(full))); see("text", cusip(s)); see("full text", cusip(full));
    if(s.substr(6) == "10") see("default issue", cusip(arr<6>(s)));
    // the ISIN made from a CUSIP contains all nine symbols of it
    bool plain = true; for(char x: s) plain = plain && val(x) < 36;
    if(plain) for(auto cc: {"US", "CA", "ZA"}) { isin i{iso_3166_1_alpha_2(std::string(cc)), cusip(s)}; std::string e = cc + full; MC_CHECK(c, i.representation() == e + isin_digit(e), "isin of cusip", s << " in " << cc << " gives " << i); }
}
static void wrong_cusip(mc::ctx &c, const std::string &s)
{
    char d = cusip_digit(s);
    for(char x: digits) if(x != d) MC_CHECK(c, throws([&] { cusip(s + x); }) && throws([&] { cusip(arr<9>(s + x)); }), "cusip wrong check digit", s << x);
    for(size_t n = 0; n < 8; ++n) MC_CHECK(c, throws([&] { cusip(s.substr(0, n)); }), "cusip length", s.substr(0, n));
    MC_CHECK(c, throws([&] { cusip(s + d + '0'); }) && throws([&] { cusip(s + d + d + d); }), "cusip length", s);
}
static void try_sedol(mc::ctx &c, const std::string &s)
{
    c.op(); c.state("S" + s);
    char d = sedol_digit(s); std::string full = s + d;
    MC_LOG(c, full);
    auto see = [&](const char *how, const sedol &i) {
        MC_CHECK(c, i.checksum() == d, MC_STR("sedol check digit " << how), s << ": " << i.checksum() << " for " << d);
        MC_CHECK(c, i.representation() == full && MC_STR(i) == full && i.code == arr<6>(s), MC_STR("sedol text " << how), s << ": " << i);
    };
    see("parts", sedol(arr<6>(s))); see("text", sedol(s)); see("full text", sedol(full));
}
static void wrong_sedol(mc::ctx &c, const std::string &s)
{
    char d = sedol_digit(s);
    for(char x: digits + "AZaz ") if(x != d) MC_CHECK(c, throws([&] { sedol(s + x); }), "sedol wrong check digit", s << x);
    for(size_t n = 0; n < 6; ++n) MC_CHECK(c, throws([&] { sedol(s.substr(0, n)); }), "sedol length", s.substr(0, n));
    MC_CHECK(c, throws([&] { sedol(s + d + '0'); }) && throws([&] { sedol(s + d + d + d); }), "sedol length", s);
    for(size_t i = 0; i < 6; ++i) for(int x = -128; x < 128; ++x) if(val(char(x)) < 0 || val(char(x)) >= 36) { auto t = s; t[i] = char(x); MC_CHECK(c, throws([&] { sedol z(t); }) && throws([&] { sedol z(arr<6>(t)); }), "sedol symbol", x); }
}
static void try_lei(mc::ctx &c, const std::string &s) // 18 symbols
{
    c.op(); c.state("L" + s);
    std::string d = lei_digits(s), full = s + d;
    MC_LOG(c, full);
    auto see = [&](const char *how, const iso_17442 &i) {
        auto k = i.checksum();
        MC_CHECK(c, std::get<0>(k) == d[0] && std::get<1>(k) == d[1], MC_STR("lei check digits " << how), s << ": " << std::get<0>(k) << std::get<1>(k) << " for " << d);
        MC_CHECK(c, MC_STR(i) == full, MC_STR("lei text " << how), s << ": " << i);
        MC_CHECK(c, i.local == arr<4>(s) && i.code == arr<12>(s.substr(6)), MC_STR("lei parts " << how), s);
    };
    see("parts", iso_17442(arr<4>(s), arr<12>(s.substr(6)))); see("text", iso_17442(s)); see("full text", iso_17442(full)); iso_17442 a(s), b(a); see("copy", b);
}
static void wrong_lei(mc::ctx &c, const std::string &s)
{
    std::string d = lei_digits(s);
    for(int k = 0; k < 100; ++k) { std::string x{char('0' + k / 10), char('0' + k % 10)}; if(x != d) MC_CHECK(c, throws([&] { iso_17442 z(s + x); }), "lei wrong check digits", s << x); }
    for(size_t n = 0; n < 18; ++n) MC_CHECK(c, throws([&] { iso_17442 z(s.substr(0, n)); }), "lei length", s.substr(0, n));
    MC_CHECK(c, throws([&] { iso_17442 z(s + d[0]); }) && throws([&] { iso_17442 z(s + d + "0"); }) && throws([&] { iso_17442 z(s + d + d); }), "lei length", s);
    for(size_t i = 0; i < 18; ++i) for(int x = -128; x < 128; ++x) {
        auto t = s; t[i] = char(x); bool ok = i < 4 ? x >= '0' && x <= '9' : i < 6 ? x == '0' : (x >= '0' && x <= '9') || (x >= 'A' && x <= 'Z');
        MC_CHECK(c, throws([&] { iso_17442 z(t); }) == !ok, "lei symbol", x << " at " << i);
    }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C23");
    static const std::vector<std::string> isins{"US037833100", "AU0000XVGZA", "GB000263494", "ZZZZZZZZZZZ", "AA000000000", "MA999999999", "KQA1B2C3D4E"};
    static const std::vector<std::string> cusips{"03783310", "17275R10", "38259P50", "00BBJNQY", "00000000", "ZZZZZZZZ", "*@#*@#*@", "99999999"};
    static const std::vector<std::string> sedols{"710889", "B0YBKJ", "406566", "000000", "ZZZZZZ", "999999", "a0b1c2"};
    static const std::vector<std::string> leis{"213800WSGIIZCXF1P5", "5493000IBP32UQZ0KL", "000000000000000000", "999900ZZZZZZZZZZZZ", "123400ABCDEFGHIJKL", "000000999999999999"};
    // every pair of positions takes every pair of values
    auto pairs = [&r](const char *name, const std::vector<std::string> &bases, size_t len, std::function<std::string(size_t)> set, std::function<void(mc::ctx &, const std::string &)> f) {
        r.scope(MC_STR("every two symbols of " << name), [=](mc::ctx &c) {
            std::string s = c.pick(bases); size_t p = c.choose(len), q = p + c.choose(len - p);
            std::string a = set(p), b = set(q); if(a.empty() || b.empty()) return; if(p == q) b = "?"; char x = a[c.choose(a.size())], y = b[c.choose(b.size())];
            s[p] = x; if(p != q) s[q] = y; f(c, s);
        });
    };
    bool th = r.thorough();
    pairs("ISINs", th ? isins : std::vector<std::string>(isins.begin(), isins.begin() + 3), 11, [](size_t i) { return i < 2 ? letters : alnum; }, try_isin);
    pairs("CUSIPs", th ? cusips : std::vector<std::string>(cusips.begin(), cusips.begin() + 4), 8, [](size_t) { return alnum + "*@#"; }, try_cusip);
    pairs("SEDOLs", sedols, 6, [](size_t) { return alnum; }, try_sedol);
    pairs("LEIs", th ? leis : std::vector<std::string>(leis.begin(), leis.begin() + 2), 18, [](size_t i) { return i < 4 ? digits : i < 6 ? std::string() : alnum; }, try_lei);
    // every pattern of digits and letters, so that every alignment of the doubled digits occurs
    r.scope("every pattern of digits and letters in ISINs", [=](mc::ctx &c) {
        std::string s; for(int i = 0; i < 2; ++i) s += "AKZ"[c.choose(3)]; uint32_t v = c.choose(4);
        for(int i = 0; i < 9; ++i) s += "0597"[(v + i) % 4] + (c.flip() ? "AJKZ"[(v * 3 + i) % 4] - "0597"[(v + i) % 4] : 0);
        try_isin(c, s);
    });
    r.scope("every pattern of digits and letters in LEIs", [=](mc::ctx &c) {
        std::string s = c.flip() ? "213800" : "997900"; uint32_t v = c.choose(2);
        for(int i = 0; i < 12; ++i) s += c.flip() ? "AJKZ"[(v * 3 + i) % 4] : "0597"[(v + i) % 4];
        try_lei(c, s);
    });
    r.scope("lower case letters", [=](mc::ctx &c) {
        uint32_t k = c.choose(3); char x = lower[c.choose(26)];
        if(k == 0) { std::string s = isins[c.choose(3)]; s[2 + c.choose(9)] = x; try_isin(c, s); }
        else if(k == 1) { std::string s = cusips[c.choose(3)]; s[c.choose(8)] = x; try_cusip(c, s); }
        else { std::string s = sedols[c.choose(3)]; s[c.choose(6)] = x; try_sedol(c, s); }
    });
    r.scope("all short numbers", [=](mc::ctx &c) {
        uint32_t n = c.choose(10000); char b[8]; snprintf(b, 8, "%04u", n); std::string s = b;
        try_sedol(c, "00" + s); try_sedol(c, s + "00"); try_cusip(c, "0000" + s); try_cusip(c, s + "0000"); try_isin(c, "US00000" + s); try_isin(c, "GB" + s + "00000"); try_lei(c, s + "00000000000000"); try_lei(c, "00000000000000" + s);
    });
    r.scope("wrong codes are rejected", [=](mc::ctx &c) {
        uint32_t k = c.choose(4); c.op();
        if(k == 0) wrong_isin(c, c.pick(isins)); else if(k == 1) wrong_cusip(c, c.pick(cusips)); else if(k == 2) wrong_sedol(c, c.pick(sedols)); else wrong_lei(c, c.pick(leis));
    });
    r.scope("substitutions change the check digits when the standard's do", [=](mc::ctx &c) {
        uint32_t k = c.choose(4); c.op();
        if(k == 0) { auto s = c.pick(isins); size_t p = c.choose(11); for(char x: p < 2 ? letters : alnum) { auto t = s; t[p] = x; if(isin_digit(t) != isin_digit(s)) MC_CHECK(c, isin(t).checksum() != isin(s).checksum(), "isin substitution", s << " and " << t); } }
        else if(k == 1) { auto s = c.pick(cusips); size_t p = c.choose(8); for(char x: alnum + "*@#") { auto t = s; t[p] = x; if(cusip_digit(t) != cusip_digit(s)) MC_CHECK(c, cusip(t).checksum() != cusip(s).checksum(), "cusip substitution", s << " and " << t); } }
        else if(k == 2) { auto s = c.pick(sedols); size_t p = c.choose(6); for(char x: alnum) { auto t = s; t[p] = x; if(sedol_digit(t) != sedol_digit(s)) MC_CHECK(c, sedol(t).checksum() != sedol(s).checksum(), "sedol substitution", s << " and " << t); } }
        else { auto s = c.pick(leis); size_t p = c.choose(18); if(p == 4 || p == 5) return; for(char x: p < 4 ? digits : alnum) { auto t = s; t[p] = x; if(lei_digits(t) != lei_digits(s)) MC_CHECK(c, iso_17442(t).checksum() != iso_17442(s).checksum(), "lei substitution", s << " and " << t); } }
    });
    r.scope("defaults and generated codes are well-formed", [=](mc::ctx &c) {
        uint32_t n = c.choose(4096); c.op();
        MC_CHECK(c, MC_STR(iso_17442()) == "000000000000000000" + lei_digits("000000000000000000"), "default lei", MC_STR(iso_17442()));
        MC_CHECK(c, isin().representation() == std::string("AA000000000") + isin_digit("AA000000000") && sedol().representation() == std::string("000000") + sedol_digit("000000"), "default codes", "");
        auto l = iso_17442::create(uint64_t(n) * 0x9e3779b97f4a7c15ull, {'1', '2', '3', '4'}); auto t = MC_STR(l); MC_CHECK(c, t.size() == 20 && t.substr(0, 6) == "123400" && t.substr(18) == lei_digits(t.substr(0, 18)), "generated lei", t); iso_17442 back(t); MC_CHECK(c, back.code == l.code, "generated lei", t);
        auto a = iso_17442::create(uint64_t(n)), b = iso_17442::create(uint64_t(n + 1)); MC_CHECK(c, MC_STR(a) != MC_STR(b), "generated leis differ", MC_STR(a));
    });
    return r.finish();
}
