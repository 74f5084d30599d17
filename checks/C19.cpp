// mc-sources: esl/agent.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp
#include "mc.hpp"
#include <esl/simulation/identity.hpp>
#include <esl/simulation/entity.hpp>
#include <esl/simulation/identifiable_as.hpp>
#include <esl/agent.hpp>
#include <esl/law/property.hpp>
#include <memory>
using esl::identity;

struct base : esl::entity<base> { explicit base(identity<base> i) : esl::entity<base>(i) {} };
struct child : base, esl::identifiable_as<child> { explicit child(identity<child> i) : base(i) {} };
typedef std::vector<uint64_t> digits;

static int lexical(const digits &a, const digits &b)
{
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
static std::string show(const digits &d) { std::string s; for(auto x: d) s += (s.empty() ? "" : ".") + std::to_string(x); return "<" + s + ">"; }
static std::string text(const digits &d, unsigned w)
{
    if(d.empty()) return "";
    std::string s = "\"";
    for(size_t i = 0; i < d.size(); ++i) { std::string n = std::to_string(d[i]); if(i) s += '-'; if(n.size() < w) s += std::string(w - n.size(), '0'); s += n; }
    return s + '"';
}
template<typename A, typename B> static void relate(mc::ctx &c, const A &a, const B &b, int o)
{
    MC_CHECK(c, (a == b) == (o == 0) && (a != b) == (o != 0), "equality", show(a.digits) << " and " << show(b.digits));
    MC_CHECK(c, (a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "order", show(a.digits) << " and " << show(b.digits));
}

// an entity of one of the library's kinds, seen through its identity
struct node
{
    std::unique_ptr<base> b; std::unique_ptr<child> c; std::unique_ptr<esl::agent> a;
    digits id() const { return b ? b->identifier.digits : c ? c->identifier.digits : a->identifier.digits; }
};

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C19");
    // all digit sequences up to a length
    std::vector<uint64_t> alphabet{0, 1, 9, 10, 255, ~0ull};
    std::vector<digits> all{{}};
    for(size_t from = 0, n = 0; n < 3; ++n) { size_t to = all.size(); for(size_t i = from; i < to; ++i) for(auto d: alphabet) { auto x = all[i]; x.push_back(d); all.push_back(x); } from = to; }
    size_t n1 = 1 + alphabet.size() + alphabet.size() * alphabet.size() + alphabet.size() * alphabet.size() * alphabet.size();
    r.scope("all pairs of identities: order, equality, hash, text", [=](mc::ctx &c) {
        auto &x = all[c.choose(n1)], &y = all[c.choose(n1)];
        const identity<base> a(x), b(y); const identity<child> d(y); const identity<esl::agent> e(y);
        int o = lexical(x, y);
        c.op(); c.state(MC_STR(show(x) << show(y)));
        MC_LOG(c, show(x) << " and " << show(y));
        relate(c, a, b, o); relate(c, a, d, o); relate(c, a, e, o); relate(c, d, a, -o);
        MC_CHECK(c, a.digits == x && d.digits == y, "digits", show(x));
        if(o == 0) MC_CHECK(c, std::hash<identity<base>>()(a) == std::hash<identity<base>>()(b) && std::hash<identity<base>>()(a) == std::hash<identity<child>>()(d) && std::hash<identity<base>>()(a) == std::hash<identity<esl::agent>>()(e), "hash", show(x));
        for(unsigned w: {0u, 1u, 2u, 3u, 5u, 20u}) {
            std::string s = a.representation(w), t = b.representation(w);
            MC_CHECK(c, s == text(x, w), "text", show(x) << " width " << w << ": " << s << " for " << text(x, w));
            MC_CHECK(c, (s == t) == (o == 0), "text injective", show(x) << " and " << show(y) << ": " << s);
            uint64_t limit = w >= 20 ? ~0ull : w == 0 ? 0 : uint64_t(std::pow(10., w)) - 1; bool wide = true;
            for(auto q: x) wide = wide && q <= limit; for(auto q: y) wide = wide && q <= limit;
            if(wide && w) MC_CHECK(c, (s < t) == (o < 0) && (s > t) == (o > 0), "textual order", show(x) << " and " << show(y) << " at width " << w);
        }
        MC_CHECK(c, MC_STR(a) == text(x, 0), "text", MC_STR(a));
        for(char fill: {' ', '*'}) { std::ostringstream t; t.fill(fill); t.width(3); t << a; if(x.empty()) t.width(0); t << b << '.'; t.width(2); t << 7;
            MC_CHECK(c, t.str() == text(x, 3) + text(y, 0) + "." + fill + "7", "stream", "after " << show(x) << " and " << show(y) << " the stream writes " << t.str()); }
        identity<base> z(b); z = a; relate(c, z, a, 0); identity<base> m(std::move(z)); relate(c, m, a, 0); m = identity<base>(y); relate(c, m, b, 0); relate(c, a, m, o);
        identity<base> up = d; relate(c, up, b, 0);
        for(size_t i = 0; i < x.size(); ++i) MC_CHECK(c, a[i] == x[i], "digit", i);
        base p(a), q(b); child k(d);
        MC_CHECK(c, p.representation() == text(x, 0) && (p == q) == (o == 0) && (p != q) == (o != 0) && MC_STR(p) == text(x, 0), "entity", show(x) << " and " << show(y));
        identity<child> kk = static_cast<esl::identifiable_as<child> &>(k); relate(c, kk, b, 0);
        if(o == 0) MC_CHECK(c, std::hash<esl::entity<base>>()(p) == std::hash<esl::entity<base>>()(q) && std::hash<esl::entity<base>>()(p) == std::hash<identity<base>>()(a), "entity hash", show(x));
    });
    r.scope("ordered and hashed containers of identities", [=](mc::ctx &c) {
        uint32_t step = 1 + c.choose(7), start = c.choose(7); c.op();
        std::map<identity<base>, digits> m; std::unordered_map<identity<base>, digits> u; size_t count = 0;
        for(size_t i = start; i < n1; i += step) { m.emplace(identity<base>(all[i]), all[i]); u.emplace(identity<base>(all[i]), all[i]); ++count; }
        MC_CHECK(c, m.size() == count && u.size() == count, "container size", "");
        for(auto &x: all) { auto i = m.find(identity<base>(x)); auto j = u.find(identity<base>(x)); MC_CHECK(c, (i == m.end()) == (j == u.end()) && (i == m.end() || (i->second == x && j->second == x)), "lookup", show(x)); }
        const digits *last = nullptr; for(auto &[k, v]: m) { MC_CHECK(c, !last || lexical(*last, v) < 0, "iteration order", show(v)); last = &v; }
    });
    int depth = r.bound(6, 7);
    r.scope(MC_STR("all histories of creating " << depth << " entities by any parents"), [=](mc::ctx &c) {
        std::vector<node> nodes; std::vector<uint64_t> made; std::vector<digits> ids; std::set<digits> seen;
        static const std::vector<digits> roots{{}, {0}, {7, 3}};
        auto root = c.pick(roots);
        nodes.emplace_back(); nodes.back().b = std::make_unique<base>(identity<base>(root)); made.push_back(0); ids.push_back(root); seen.insert(root);
        for(int i = 0; i < depth; ++i) {
            size_t p = c.choose(nodes.size()); uint32_t how = i < 3 ? c.choose(3) : (i + p) % 3; uint32_t kind = i < 3 ? c.choose(3) : (i + how) % 3;
            c.op();
            digits expect = ids[p]; expect.push_back(made[p]++);
            node n; node &P = nodes[p]; digits got;
            auto make = [&](auto &parent) {
                // through the entity, or through its identity (as agents are created)
                auto mk = [&](auto *t) { typedef std::decay_t<decltype(*t)> T; return how == 0 ? parent.template create<T>() : parent.identifier.template create<T>(parent); };
                if(kind == 0) { auto x = mk((base *)nullptr); got = x.digits; n.b = std::make_unique<base>(x); }
                else if(kind == 1) { auto x = mk((child *)nullptr); got = x.digits; n.c = std::make_unique<child>(x); }
                else { auto x = mk((esl::agent *)nullptr); got = x.digits; n.a = std::make_unique<esl::agent>(x); }
            };
            if(P.b) make(*P.b); else if(P.c) make(*P.c); else make(*P.a);
            MC_LOG(c, "child of " << show(ids[p]) << " is " << show(got));
            MC_CHECK(c, got == expect, "child identity", "child of " << show(ids[p]) << " is " << show(got) << ", expected " << show(expect));
            MC_CHECK(c, seen.insert(got).second, "unique", show(got) << " was created twice");
            MC_CHECK(c, n.id() == expect, "entity identity", show(n.id()));
            nodes.push_back(std::move(n)); made.push_back(0); ids.push_back(got);
            for(size_t j = 0; j < nodes.size(); ++j) MC_CHECK(c, nodes[j].id() == ids[j], "identity of others", show(nodes[j].id()));
            std::string st; for(auto &x: ids) st += show(x); c.state(st);
        }
    });
    r.scope("many children of one parent", [=](mc::ctx &c) {
        uint32_t mode = c.choose(2); c.op(); base b{identity<base>({5})}; std::string last;
        for(uint64_t i = 0; i < 70000; ++i) { digits e{5, i}; auto x = mode ? b.create<child>() : b.identifier.create<child>(b); MC_CHECK(c, x.digits == e, "child number", i << " is " << show(x.digits)); }
    });
    return r.finish();
}
