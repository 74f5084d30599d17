// C08: block pool, every operation sequence to a depth in lockstep with a map.
#include "mc.hpp"
#include <esl/computation/block_pool.hpp>

typedef esl::computation::block_pool::static_block_pool<std::uint64_t> pool_t;

struct model
{
    size_t capacity;
    std::map<uint64_t, uint64_t> live;   // index -> value
    std::map<uint64_t, const uint64_t *> where;
    std::vector<uint64_t> issued;
    uint64_t next_value = 1000;
};

static void agree(mc::ctx &c, pool_t &p, const model &m)
{
    const pool_t &cp = p;
    MC_CHECK(c, p.size() == m.live.size(), "size", "size " << p.size() << " with " << m.live.size() << " live elements");
    MC_CHECK(c, p.capacity() == m.capacity, "capacity", "capacity " << p.capacity());
    MC_CHECK(c, p.size() <= p.capacity(), "size>capacity", "");
    for(auto [i, v]: m.live) {
        MC_CHECK(c, p[i] == v, "read", "pool[" << i << "] is " << p[i] << " instead of " << v);
        MC_CHECK(c, cp[i] == v, "read const", "const pool[" << i << "] is " << cp[i] << " instead of " << v);
        MC_CHECK(c, p.at(i) == v, "at", "pool.at(" << i << ") is not " << v);
        MC_CHECK(c, &p[i] == m.where.at(i), "moved", "element " << i << " moved");
    }
}

static void insert(mc::ctx &c, pool_t &p, model &m)
{
    uint64_t v = m.next_value++;
    c.op();
    if(m.live.size() == m.capacity) {
        bool threw = false;
        try { p.emplace(v); } catch(const std::exception &) { threw = true; }
        MC_LOG(c, "emplace(" << v << ") on a full pool " << (threw ? "throws" : "returns"));
        MC_CHECK(c, threw, "full", "inserting into a full pool is not an error");
        return;
    }
    auto r = p.emplace(v);
    MC_LOG(c, "emplace(" << v << ") = " << r.first);
    if(!m.issued.empty())
        MC_CHECK(c, r.first > m.issued.back(), "increasing", "index " << r.first << " after " << m.issued.back());
    MC_CHECK(c, r.second != nullptr && r.second->data == v, "iterator", "iterator does not point at the element");
    MC_CHECK(c, r.second->index == r.first, "iterator index", "block at iterator has index " << r.second->index << " instead of " << r.first);
    m.issued.push_back(r.first); m.live[r.first] = v; m.where[r.first] = &r.second->data;
}

static void erase(mc::ctx &c, pool_t &p, model &m, uint64_t i)
{
    c.op();
    size_t expect = m.live.erase(i); m.where.erase(i);
    size_t got = p.erase(i);
    MC_LOG(c, "erase(" << i << ") = " << got);
    MC_CHECK(c, got == expect, "erase", "erase(" << i << ") returned " << got << " instead of " << expect);
}

static std::string canon(const model &m)
{
    std::ostringstream s; s << m.capacity << (m.issued.empty() ? 0 : m.issued.back() + 1) << ':';
    for(auto [i, v]: m.live) s << i << ',';
    return s.str();
}

static void finish(mc::ctx &c, pool_t &p, model &m)
{
    // from wherever the history ended, the pool can be filled up, exactly to its capacity, and emptied
    while(m.live.size() < m.capacity) insert(c, p, m);
    insert(c, p, m);
    agree(c, p, m);
    auto l = m.live;
    for(auto [i, v]: l) erase(c, p, m, i);
    agree(c, p, m);
}

int main(int argc, char **argv)
{
    mc::runner r(argc, argv, "C08");
    for(size_t cap = 1; cap <= 4; ++cap) {
        int depth = r.bound(cap < 3 ? 8 : 7, cap < 3 ? 10 : 9);
        r.scope(MC_STR("capacity " << cap << ", every emplace/erase(any index) history of length " << depth), [=](mc::ctx &c) {
            pool_t p(cap); model m{cap};
            for(int d = 0; d < depth; ++d) {
                // alphabet: emplace; erase of every index ever issued, the next ones, and extremes
                std::vector<uint64_t> idx(m.issued.rbegin(), m.issued.rend());
                uint64_t top = m.issued.empty() ? 0 : m.issued.back() + 1;
                std::vector<uint64_t> never{top, top + cap, UINT64_MAX - (cap - 1)};
                // an index that was skipped, if any
                for(uint64_t i = 0; i < top; ++i) if(!std::count(m.issued.begin(), m.issued.end(), i)) { never.push_back(i); break; }
                idx.insert(idx.end(), never.begin(), never.end());
                uint32_t k = c.choose(1 + idx.size());
                if(k == 0) insert(c, p, m); else erase(c, p, m, idx[k - 1]);
                agree(c, p, m);
                c.state(canon(m));
            }
            finish(c, p, m);
        });
    }
    for(size_t cap: {2, 3, 5}) {
        int depth = r.bound(13, 16);
        r.scope(MC_STR("capacity " << cap << ", every emplace/erase(oldest, newest, stale) history of length " << depth), [=](mc::ctx &c) {
            pool_t p(cap); model m{cap}; uint64_t stale = UINT64_MAX;
            for(int d = 0; d < depth; ++d) {
                uint32_t k = c.choose(m.live.size() > 1 ? 4 : m.live.size() == 1 ? 3 : 2);
                if(k == 0) insert(c, p, m);
                else if(k == 1) erase(c, p, m, stale);
                else if(k == 2) { uint64_t i = m.live.begin()->first; erase(c, p, m, i); stale = i; }
                else { uint64_t i = m.live.rbegin()->first; erase(c, p, m, i); stale = i; }
                agree(c, p, m);
                c.state(canon(m));
            }
            finish(c, p, m);
        });
    }
    return r.finish();
}
