// mc-sources: esl/data/output_base.cpp esl/data/file.cpp esl/data/channel.cpp esl/economics/price.cpp esl/economics/iso_4217.cpp esl/exception.cpp
#include <array>
#include "mc.hpp"
#include <esl/data/file.hpp>
#include <esl/data/format/delimiter_separated_values.hpp>
#include <esl/data/output.hpp>
#include <esl/data/producer.hpp>
#include <esl/data/representation.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/price.hpp>
namespace dsv = esl::data::format::delimiter_separated_values; using namespace esl; using esl::data::output; using esl::data::producer;

// a reader of quoted and escaped fields
static std::vector<std::vector<std::string>> read(const std::string &t, char d = ',', char q = '"', char e = '\\')
{
    std::vector<std::vector<std::string>> rows; std::vector<std::string> row; std::string f; bool quoted = false, open = false;
    for(size_t i = 0; i < t.size(); ++i) { open = true; if(t[i] == e && i + 1 < t.size()) f += t[++i]; else if(t[i] == q) quoted = !quoted; else if(!quoted && t[i] == d) { row.push_back(f); f.clear(); } else if(!quoted && t[i] == '\n') { row.push_back(f); f.clear(); rows.push_back(row); row.clear(); open = false; } else f += t[i]; }
    if(quoted) { rows.push_back({"<unterminated>"}); return rows; } if(open) { row.push_back(f); rows.push_back(row); } return rows;
}
static std::string quote(const std::string &s) { std::string r = "<"; for(char c: s) if(c == '\n') r += "\\n"; else if(c == '\r') r += "\\r"; else r += c; return r + ">"; }
static std::string quote(const std::vector<std::vector<std::string>> &r) { std::string s; for(auto &x: r) { s += '{'; for(auto &f: x) s += quote(f); s += '}'; } return s; }
typedef std::vector<std::vector<std::string>> rows_;
template<typename... t_> static void row(mc::ctx &c, const std::tuple<t_...> &t, const std::vector<std::string> &expected) { std::ostringstream s; dsv::render_row(s, t); c.op(); MC_CHECK(c, read(s.str()) == rows_{expected}, "row", quote(rows_{expected}) << " is rendered as " << quote(s.str()) << " and read as " << quote(read(s.str()))); c.state(s.str()); }
static std::string text(mc::ctx &c, const std::string &alphabet, int most) { int n = c.choose(most + 1); std::string s; while(n--) s += alphabet[c.choose(alphabet.size())]; return s; }

// -- containers
template<typename t_> static std::string shown(const t_ &v) { std::ostringstream s; s << v; return s.str(); }
static std::vector<int> numbers(const std::string &s) { std::vector<int> r; bool in = false; for(char x: s) { if(isdigit(x)) { if(!in) r.push_back(0); in = true; r.back() = r.back() * 10 + (x - '0'); } else in = false; } return r; }
template<typename t_> static void listed(mc::ctx &c, const t_ &v, const std::vector<int> &expected, const char *what) { auto s = shown(v); c.op(); MC_CHECK(c, numbers(s) == expected, "elements", what << " of " << shown(expected) << " is shown as " << s); }
template<typename t_> static void listed_any(mc::ctx &c, const t_ &v, std::vector<int> expected, const char *what) { auto n = numbers(shown(v)); std::sort(n.begin(), n.end()); std::sort(expected.begin(), expected.end()); MC_CHECK(c, n == expected, "elements", what << " of " << shown(expected) << " is shown as " << shown(v)); }

// -- outputs
struct sink { std::ostringstream text; std::shared_ptr<data::stream> stream = std::make_shared<data::stream>(text); std::string expected; };
typedef std::vector<std::tuple<simulation::time_point, double>> series; typedef std::vector<std::tuple<simulation::time_point, int, std::string>> wide_series;

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C30");
    static const std::string alphabet = "a,\"\\\n\r ;";
    r.scope("one field: every text", [=](mc::ctx &c) { auto s = text(c, alphabet, r.bound(6, 7)); std::string t = dsv::render(s); c.op(); c.state(s); auto f = read(t + '\n'); MC_CHECK(c, f == rows_{{s}}, "field", quote(s) << " is rendered as " << quote(t) << " and read as " << quote(f)); });
    r.scope("one field: other delimiters, quotes and escapes", [=](mc::ctx &c) { static const char marks[][3] = {{';', '\'', '^'}, {'\t', '"', '\\'}, {'|', '\'', '\\'}, {',', '"', '!'}}; auto m = marks[c.choose(4)]; auto s = text(c, std::string("a\n") + m[0] + m[1] + m[2] + ',' + '"', r.bound(4, 5)); std::string t = dsv::render(s, m[0], m[1], m[2]); c.op(); c.state(t); auto f = read(t + m[0] + "x\n", m[0], m[1], m[2]); MC_CHECK(c, (f == rows_{{s, "x"}}), "field", quote(s) << " is rendered as " << quote(t) << " and read as " << quote(f)); });
    r.scope("rows of texts", [=](mc::ctx &c) { int most = r.bound(2, 3); auto a = text(c, "a,\"\\\n", most), b = text(c, "a,\"\\\n", most), d = text(c, "a,\"\\\n", 1); switch(c.choose(5)) { case 0: row(c, std::make_tuple(a), {a}); break; case 1: row(c, std::make_tuple(a, b), {a, b}); break; case 2: row(c, std::make_tuple(a, 5, b), {a, "5", b}); break; case 3: row(c, std::make_tuple(1, a, b, d, 2.5), {"1", a, b, d, "2.5"}); break; default: row(c, std::tuple<const char *, std::string, const char *>(a.c_str(), b, d.c_str()), {a, b, d}); } });
    r.scope("long fields and rows in regular patterns", [=](mc::ctx &c) {
        int n = c.pick(std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130, 260, 600}); char mark = alphabet[c.choose(alphabet.size())]; int every = 1 + c.choose(9), from = c.choose(3) * (n / 2 - 1); std::string s; for(int i = 0; i < n; ++i) s += i >= from && (i - from) % every == 0 ? mark : char('a' + i % 26);
        std::string t = dsv::render(s); c.op(); c.state(t); auto f = read(t + '\n'); MC_CHECK(c, f == rows_{{s}}, "field", quote(s) << " is rendered as " << quote(t) << " and read as " << quote(f)); row(c, std::make_tuple(s, n, s, std::string(), s), {s, std::to_string(n), s, "", s});
        std::vector<std::tuple<std::string, int>> v; rows_ expected; for(int i = 0; i < n; ++i) { v.emplace_back(s.substr(i), i); expected.push_back({s.substr(i), std::to_string(i)}); } std::ostringstream o; dsv::render_records(o, v); MC_CHECK(c, read(o.str()) == expected, "records", n << " records are read as " << read(o.str()).size()); });
    r.scope("many values, outputs and streams", [=](mc::ctx &c) {
        int n = c.pick(std::vector<int>{1, 7, 8, 9, 33, 65, 130, 300, 1030}), outs = c.pick(std::vector<int>{1, 3, 9, 20}), ss = c.pick(std::vector<int>{0, 1, 2, 5, 9}), on = c.choose(3); producer p; std::vector<std::shared_ptr<output<double>>> os; std::vector<sink> sinks(ss); std::vector<series> want(outs); std::vector<std::vector<int>> to(outs);
        for(int o = 0; o < outs; ++o) { os.push_back(p.create_output<double>("output " + std::to_string(o))); for(int s = 0; s < ss; ++s) if(on == 0 || (o + s) % (on + 1) == 0) { p.add_output_stream("output " + std::to_string(o), sinks[s].stream); to[o].push_back(s); } }
        for(int i = 0; i < n; ++i) { int o = (i * 7) % outs; bool buffered = i / 5 % 3 == 2; os[o]->buffered = buffered; double v = i * 0.25; simulation::time_point t = i / 3; os[o]->put(t, v); c.op(); want[o].emplace_back(t, v); if(!buffered) for(int s: to[o]) sinks[s].expected += MC_STR('(' << t << ", " << v << ")\n"); }
        for(int o = 0; o < outs; ++o) MC_CHECK(c, os[o]->values == want[o] && p.outputs.at("output " + std::to_string(o)) == os[o], "kept", os[o]->values.size() << " values of " << o << " instead of " << want[o].size()); for(int s = 0; s < ss; ++s) MC_CHECK(c, sinks[s].text.str() == sinks[s].expected, "written", "stream " << s << " has " << sinks[s].text.str().size() << " bytes instead of " << sinks[s].expected.size());
        MC_CHECK(c, int(p.outputs.size()) == outs, "outputs", p.outputs.size()); c.state(MC_STR(n << ' ' << outs << ' ' << ss << ' ' << on)); });
    r.scope("rows of other values", [=](mc::ctx &c) {
        char x = alphabet[c.choose(alphabet.size())]; int i = int(c.choose(5)) - 2; std::vector<int> v; int n = c.choose(4); while(n--) v.push_back(c.choose(3)); economics::price p(i * 150, economics::currencies::USD); std::ostringstream ps; ps << p;
        row(c, std::make_tuple(x, i), {std::string(1, x), std::to_string(i)}); row(c, std::make_tuple(i, x), {std::to_string(i), std::string(1, x)}); row(c, std::make_tuple(p, i, p), {ps.str(), std::to_string(i), ps.str()}); row(c, std::make_tuple(v, x), {shown(v), std::string(1, x)}); row(c, std::make_tuple(simulation::time_point(7), v), {"7", shown(v)}); row(c, std::make_tuple(v), {shown(v)}); });
    r.scope("records", [=](mc::ctx &c) { std::vector<std::tuple<std::string, int>> v; rows_ expected; int n = c.choose(r.bound(4, 5)); for(int i = 0; i < n; ++i) { auto s = text(c, "a,\"\n", 2); v.emplace_back(s, i); expected.push_back({s, std::to_string(i)}); } std::ostringstream s; dsv::render_records(s, v); c.op(); c.state(s.str()); MC_CHECK(c, read(s.str()) == expected, "records", quote(expected) << " are rendered as " << quote(s.str())); });
    r.scope("text of containers", [=](mc::ctx &c) {
        std::vector<int> v; int n = c.choose(r.bound(6, 8)); while(n--) v.push_back(c.choose(3) * 11 + 1); c.state(shown(v)); std::set<int> s(v.begin(), v.end()); std::vector<int> sorted(s.begin(), s.end()); std::queue<int> q; for(auto x: v) q.push(x);
        listed(c, v, v, "vector"); listed(c, std::list<int>(v.begin(), v.end()), v, "list"); listed(c, std::forward_list<int>(v.begin(), v.end()), v, "forward list"); listed(c, q, v, "queue"); listed(c, s, sorted, "set"); listed_any(c, std::unordered_set<int>(v.begin(), v.end()), sorted, "unordered set"); MC_CHECK(c, q.size() == v.size(), "argument", "showing a queue changes it");
        std::map<int, int> m; boost::container::flat_map<int, int> f; std::unordered_map<int, int> u; std::vector<int> pairs; for(auto x: sorted) { m[x] = f[x] = u[x] = x + 1; pairs.push_back(x); pairs.push_back(x + 1); } listed(c, m, pairs, "map"); listed(c, f, pairs, "flat map"); listed_any(c, u, pairs, "unordered map");
        if(v.size() >= 3) { listed(c, std::array<int, 3>{v[0], v[1], v[2]}, {v[0], v[1], v[2]}, "array"); listed(c, std::make_tuple(v[0], v[1], v[2]), {v[0], v[1], v[2]}, "tuple"); } });
    r.scope("histories of a producer with two outputs and two streams", [=](mc::ctx &c) {
        producer p; std::array<sink, 2> sinks; std::shared_ptr<output<double>> a; std::shared_ptr<output<int, std::string>> b; std::vector<int> on_a, on_b; series va; wide_series vb; bool buffered_a = false, buffered_b = false; int steps = r.bound(6, 7); simulation::time_point t = 0;
        for(int i = 0; i < steps; ++i) { uint32_t k = c.choose(11);
            c.op(); if(k == 0 || k == 1) { bool is_a = k == 0, exists = is_a ? bool(a) : bool(b), thrown = false; try { if(is_a) { auto o = p.create_output<double>("a"); a = o; } else { auto o = p.create_output<int, std::string>("b"); b = o; } } catch(const std::invalid_argument &) { thrown = true; } MC_LOG(c, "create " << (is_a ? 'a' : 'b')); MC_CHECK(c, thrown == exists, "create", "creating an output that " << (exists ? "exists is accepted" : "does not exist is refused")); MC_CHECK(c, p.outputs.count(is_a ? "a" : "b") == 1, "create", "the output is not listed"); if(is_a) MC_CHECK(c, p.outputs.find("a")->second.get() == a.get(), "create", "another output is listed"); }
            else if(k < 6) { int s = k & 1; bool to_a = k < 4; auto &on = to_a ? on_a : on_b; if(std::count(on.begin(), on.end(), s)) continue; bool  exists = to_a ? bool(a) : bool(b), thrown = false; try { p.add_output_stream(to_a ? "a" : "b", sinks[s].stream); } catch(const std::invalid_argument &) { thrown = true; } MC_LOG(c, "attach " << s << " to " << (to_a ? 'a' : 'b')); MC_CHECK(c, thrown == !exists, "attach", "attaching to an output that " << (exists ? "exists fails" : "does not exist is accepted")); if(exists) on.push_back(s); }
            else if(k == 6) { if(a) { a->buffered = buffered_a = !buffered_a; } if(b) { b->buffered = buffered_b = !buffered_b; } MC_LOG(c, "buffering changes"); }
            else if(k < 9) { if(!a) continue; t += k - 7; double v = i + 0.5; a->put(t, v); va.emplace_back(t, v); MC_LOG(c, "put " << v << " at " << t << " to a"); if(!buffered_a) for(int s: on_a) sinks[s].expected += MC_STR('(' << t << ", " << v << ")\n"); }
            else { if(!b) continue; t += k - 9; std::string w = i & 1 ? "x y" : ""; b->put(t, i, w); vb.emplace_back(t, i, w); MC_LOG(c, "put " << i << ' ' << w << " at " << t << " to b"); if(!buffered_b) for(int s: on_b) { sinks[s].expected += MC_STR('(' << t << ", " << i << ")\n"); sinks[s].expected += MC_STR('(' << t << ", " << w << ")\n"); } }
            for(int s = 0; s < 2; ++s) MC_CHECK(c, sinks[s].text.str() == sinks[s].expected, "written", "stream " << s << " has " << quote(sinks[s].text.str()) << " instead of " << quote(sinks[s].expected));
            if(a) MC_CHECK(c, a->values == va, "kept", "values of a"); if(b) MC_CHECK(c, b->values == vb, "kept", "values of b"); c.state(MC_STR(bool(a) << bool(b) << on_a.size() << on_b.size() << buffered_a << buffered_b << va.size() << ' ' << vb.size() << ' ' << t)); }
    });
    r.scope("outputs of vectors, prices and texts", [=](mc::ctx &c) {
        sink s; std::vector<economics::price> v; int n = c.choose(4); while(n--) v.emplace_back(int64_t(c.choose(3)) * 125, economics::currencies::USD); output<std::vector<economics::price>> o("prices"); o.streams.push_back(s.stream); simulation::time_point t = c.choose(3); o.put(t, v); c.op(); std::ostringstream e; e << '(' << t << ", ["; for(size_t i = 0; i < v.size(); ++i) { if(i) e << ", "; e << v[i]; } e << "])\n"; MC_CHECK(c, s.text.str() == e.str(), "written", quote(s.text.str()) << " instead of " << quote(e.str())); MC_CHECK(c, o.values.size() == 1 && std::get<1>(o.values[0]) == v && std::get<0>(o.values[0]) == t, "kept", "value"); c.state(e.str()); });
    r.scope("files", [=](mc::ctx &c) {
        char d[] = "/tmp/mc_c30_XXXXXX"; if(!mkdtemp(d)) throw std::runtime_error("mkdtemp"); std::filesystem::path dir(d); struct cleanup { std::filesystem::path p, cwd = std::filesystem::current_path(); ~cleanup() { std::filesystem::current_path(cwd); std::filesystem::remove_all(p); } } clean{dir};
        int where = c.choose(4), n = c.choose(4); std::filesystem::current_path(dir); std::filesystem::path prefix = where == 0 ? std::filesystem::path() : where == 1 ? dir : where == 2 ? dir / "x" / "y" : std::filesystem::path("rel"), at = where == 0 ? dir / "out.txt" : where == 3 ? dir / "rel" / "out.txt" : prefix / "out.txt"; std::string expected;
        { output<double> o("o"); o.streams.push_back(std::make_shared<data::file>("out.txt", prefix)); for(int i = 0; i < n; ++i) { o.put(i, i * 2); expected += MC_STR('(' << i << ", " << i * 2 << ")\n"); std::ifstream f(at); std::string now((std::istreambuf_iterator<char>(f)), {}); MC_CHECK(c, now == expected, "file", quote(now) << " instead of " << quote(expected)); } }
        MC_CHECK(c, std::filesystem::exists(at), "file", "no file " << where); c.op(); c.state(MC_STR(where << ' ' << n)); });
    return r.finish();
}
