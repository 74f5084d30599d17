// mc-sources: esl/data/channel.cpp esl/data/output_base.cpp esl/law/property.cpp
#include "mc.hpp"
#include <esl/economics/accounting/inventory.hpp>
#include <esl/economics/fungibility.hpp>
#include <esl/economics/cash.hpp>
using esl::quantity; using esl::identity; using esl::law::property;
using namespace esl::economics::accounting;

struct grain : public virtual property, public esl::economics::fungible { explicit grain(identity<property> i) : property(i) {} };
struct house : public virtual property, public esl::economics::infungible { explicit house(identity<property> i) : property(i) {} };
typedef std::map<int, uint64_t> model;

static std::string show(const model &m) { std::ostringstream s; for(auto &[k, v]: m) s << k << ':' << v << ' '; return s.str(); }
template<typename P> static const std::vector<std::shared_ptr<P>> &things()
{
    // two objects that represent the same property per identity, with identities of different length, and with equal prefixes
    static const std::vector<std::shared_ptr<P>> t = [] {
        std::vector<std::shared_ptr<P>> r; std::vector<identity<property>> ids{identity<property>({1}), identity<property>({1, 0}), identity<property>({2}), identity<property>({0, 1})};
        for(auto &i: ids) { r.push_back(std::make_shared<P>(i)); r.push_back(std::make_shared<P>(i)); }
        return r; }();
    return t;
}

// the same view of any container of (property, quantity)
template<typename M> static void agree(mc::ctx &c, const M &items, const model &m, int kinds, const std::vector<std::shared_ptr<typename M::key_type::element_type>> &t, const char *where)
{
    model seen; for(auto &[k, v]: items) { int id = -1; for(int i = 0; i < kinds; ++i) if(t[2 * i]->identifier == k->identifier) id = i;
        MC_CHECK(c, id >= 0 && !seen.count(id), "iteration", where << ": foreign or repeated item " << k->identifier);
        seen[id] = v.amount; }
    MC_CHECK(c, seen == m, "contents", where << ": holds " << show(seen) << " instead of " << show(m));
    MC_CHECK(c, items.size() == m.size() && items.empty() == m.empty(), "size", where);
    for(int i = 0; i < kinds; ++i) for(int j = 0; j < 2; ++j) {
        auto f = items.find(t[2 * i + j]); MC_CHECK(c, (f != items.end()) == (m.count(i) > 0), "lookup", where << ": item " << i);
        if(f != items.end()) MC_CHECK(c, f->second.amount == m.at(i), "lookup", where << ": item " << i);
    }
}
static bool covers(const model &m, const model &w) { for(auto &[k, v]: w) { auto i = m.find(k); if(v > (i == m.end() ? 0 : i->second)) return false; } return true; }
static void add(model &m, const model &w) { for(auto &[k, v]: w) if(v) m[k] += v; }
static void sub(model &m, const model &w) { for(auto &[k, v]: w) if(v) { if((m[k] -= v) == 0) m.erase(k); } }
template<typename P> static model basket(mc::ctx &c, inventory_by_fungibility<P, true> &b, int kinds, int most, int &tick)
{
    model w; for(int k = 0; k < kinds; ++k) { uint64_t q = c.choose(most + 1); if(q == uint64_t(most)) q = k == 1 ? 5 : q; if(q) { w[k] = q; b.insert(things<P>()[2 * k + tick++ % 2], quantity(q)); } }
    return w;
}

template<typename P> static void fungible_scope(mc::ctx &c, int depth, int kinds, const std::vector<uint64_t> &qs)
{
    auto &t = things<P>(); inventory_by_fungibility<P, true> v; model m; int tick = 0;
    for(int d = 0; d < depth; ++d) {
        model before = m; std::string what; bool error = false, expected = false;
        switch(c.choose(4)) {
        case 0: { int k = c.choose(kinds); uint64_t q = c.pick(qs); what = MC_STR("insert " << k << ' ' << q); v.insert(t[2 * k + tick++ % 2], quantity(q)); add(m, {{k, q}}); break; }
        case 1: { int k = c.choose(kinds); uint64_t q = c.pick(qs); what = MC_STR("erase " << k << ' ' << q); expected = !covers(m, {{k, q}});
            try { v.erase(t[2 * k + tick++ % 2], quantity(q)); } catch(const insufficent_inventory &e) { error = true;
                MC_CHECK(c, e.before.amount == (m.count(k) ? m[k] : 0) && e.withdrawal.amount == q, "error contents", what << ": " << e.what()); }
            if(!expected) sub(m, {{k, q}}); break; }
        case 2: { inventory_by_fungibility<P, true> b; model w = basket(c, b, kinds, 2, tick); what = "insert several " + show(w); v.insert(b); add(m, w); agree(c, b.items, w, kinds, t, "argument"); break; }
        case 3: { inventory_by_fungibility<P, true> b; model w = basket(c, b, kinds, 2, tick); what = "erase several " + show(w); expected = !covers(m, w);
            try { v.erase(b); } catch(const insufficent_inventory &) { error = true; }
            if(!expected) sub(m, w); agree(c, b.items, w, kinds, t, "argument"); break; }
        }
        c.op(); MC_LOG(c, what << " -> " << (error ? "error" : show(m)));
        MC_CHECK(c, error == expected, "refusal", what << " from " << show(before) << (error ? " was refused" : " was accepted"));
        agree(c, v.items, m, kinds, t, what.c_str()); c.state(show(m));
    }
}

// moving baskets in and out of an overall inventory
template<typename P> static void map_scope(mc::ctx &c, int depth, int kinds)
{
    auto &t = things<P>(); esl::law::property_map<quantity> v; model m; int tick = 0;
    std::vector<std::shared_ptr<property>> tp(t.begin(), t.end());
    for(int d = 0; d < depth; ++d) {
        bool out = c.flip(); inventory_by_fungibility<P, true> b; model w = basket(c, b, kinds, 3, tick); bool error = false, expected = out && !covers(m, w); model before = m;
        if(c.choose(2)) { b.items[t[0]]; w[0] += 0; }   // an entry of nothing
        try { if(out) b.erase_from(v); else b.insert_into(v); } catch(const insufficent_inventory &) { error = true; }
        if(!expected) { if(out) sub(m, w); else add(m, w); }
        std::string what = (out ? "erase " : "insert ") + show(w);
        c.op(); MC_LOG(c, what << " -> " << (error ? "error" : show(m)));
        MC_CHECK(c, error == expected, "refusal", what << " from " << show(before) << (error ? " was refused" : " was accepted"));
        agree(c, v, m, kinds, tp, what.c_str()); c.state("map " + show(m));
    }
}

static void infungible_scope(mc::ctx &c, int depth, int kinds)
{
    auto &t = things<house>(); inventory_by_fungibility<house, false> v; std::set<int> m; int tick = 0;
    for(int d = 0; d < depth; ++d) {
        std::set<int> before = m; bool error = false, expected = false; std::ostringstream what;
        switch(c.choose(4)) {
        case 0: { int k = c.choose(kinds); what << "insert " << k; try { v.insert(t[2 * k + tick++ % 2]); } catch(const duplicate_infungible &) { MC_CHECK(c, m.count(k), "refusal", what.str()); } m.insert(k); break; }
        case 1: { int k = c.choose(kinds); what << "erase " << k; expected = !m.count(k);
            try { v.erase(t[2 * k + tick++ % 2]); } catch(const insufficent_inventory &) { error = true; } m.erase(k); break; }
        case 2: case 3: { bool out = c.path.back().first == 3; esl::law::property_set s; std::set<int> w; int bits = c.choose(1 << kinds);
            what << (out ? "erase several" : "insert several"); for(int k = 0; k < kinds; ++k) if(bits >> k & 1) { w.insert(k); s.insert(t[2 * k + tick++ % 2]); what << ' ' << k; }
            if(out) { for(int k: w) if(!m.count(k)) expected = true;
                try { v.erase(s); } catch(const insufficent_inventory &) { error = true; }
                if(!expected) for(int k: w) m.erase(k); }
            else { bool clash = false; for(int k: w) clash = clash || m.count(k); bool dup = false; try { v.insert(s); } catch(const duplicate_infungible &) { dup = true; MC_CHECK(c, clash, "refusal", what.str()); }
                if(!dup) m.insert(w.begin(), w.end()); }
            MC_CHECK(c, s.size() == w.size(), "argument", what.str()); break; }
        }
        c.op(); MC_LOG(c, what.str() << " -> " << (error ? "error" : "ok"));
        MC_CHECK(c, error == expected, "refusal", what.str() << (error ? " was refused" : " was accepted"));
        MC_CHECK(c, v.items.size() == m.size(), "size", what.str() << ": " << v.items.size() << " instead of " << m.size());
        std::string id = "set "; for(int k = 0; k < kinds; ++k) { id += m.count(k) ? '1' : '0'; for(int j = 0; j < 2; ++j) MC_CHECK(c, v.items.count(t[2 * k + j]) == m.count(k), "contents", what.str() << ": item " << k); }
        size_t n = 0; for(auto &i: v.items) { bool ok = false; for(int k: m) ok = ok || t[2 * k]->identifier == i->identifier; MC_CHECK(c, ok, "iteration", what.str()); ++n; }
        MC_CHECK(c, n == m.size(), "iteration", what.str());
        // into an overall inventory: all of it or, when one item is there already, nothing
        esl::law::property_map<quantity> all; int at = d + 1 < depth ? -1 : int(c.choose(kinds + 1)) - 1;
        if(at >= 0) all.insert({t[2 * at], quantity(1)});
        bool dup = false; try { v.insert_into(all); } catch(const duplicate_infungible &) { dup = true; }
        MC_CHECK(c, dup == (at >= 0 && m.count(at) > 0), "duplicate", what.str() << ": into an inventory with item " << at);
        MC_CHECK(c, all.size() == (dup ? 1 : m.size() + (at >= 0)), "duplicate", what.str() << ": " << all.size() << " items");
        for(auto &[k, q]: all) MC_CHECK(c, q.amount == 1, "duplicate", k->identifier << " has " << q.amount);
        c.state(id);
    }
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C22");
    int d = r.bound(4, 5);
    r.scope("fungible property, insertions and removals", [=](mc::ctx &c) { fungible_scope<grain>(c, d, 2, {0, 1, 2, 5}); });
    r.scope("fungible property, several kinds", [=](mc::ctx &c) { fungible_scope<grain>(c, 3, 3, {1, 3}); });
    r.scope("fungible property, large quantities", [=](mc::ctx &c) { fungible_scope<grain>(c, 3, 2, {0, 1, 1ull << 32, (1ull << 62) + 1}); });
    r.scope("property of any type", [=](mc::ctx &c) { fungible_scope<property>(c, 3, 2, {0, 1, 3}); });
    r.scope("overall inventories", [=](mc::ctx &c) { map_scope<grain>(c, d - 2, 2); });
    r.scope("overall inventories of several kinds", [=](mc::ctx &c) { map_scope<property>(c, 2, 3); });
    r.scope("infungible property", [=](mc::ctx &c) { infungible_scope(c, d, 3); });
    return r.finish();
}
