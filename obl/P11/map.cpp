// std: 17
// min: 200
// shards: 1 2 3 4 5 6 7 8 9 10
// thorough-shards: 11 12 13 14 15 16
// peel: 1
// rounds: 8
#include <estd/functional.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include "obl.h"

// Fixed-capacity hash containers against a plain table of what they should hold. Keys are chosen by bucket
// (key % 2 * 4), values and the memory around the container are unknown.
// in halves, as the bookkeeping of empty slots overlays the first
struct T
{
    short a, b;
    T() = default;
    constexpr T(short a, short b) : a(a), b(b) {}
    T(const T& o) : a(o.a), b(o.b) {}
    T& operator=(const T& o) { a = o.a; b = o.b; return *this; }
    bool operator==(const T& o) const { return a == o.a && b == o.b; }
};
enum { N = 8, KEYS = 24 };
struct M { bool in[KEYS] = {}; T v[KEYS]; const void* at[KEYS] = {}; int n = 0; };
struct pod { int k; T v; };
struct box
{
    pod g0;
    estd::layer1::unordered_map<int, T, N> m;
    pod g1;
    box(int k, T v) : g0{k, v}, g1{k, v} {}
};
enum { IN = 100, EK = 200, EI = 300, EG = 400, IA = 500, EM = 600, TE = 700, SU = 800, CL = 900, GA = 1000, IM = 1100, FI = 1200, EL = 1300 };

// no bucket ever held more than it is sure to have room for
static inline bool roomy(const M& m, int k)
{
    int c[2] = {};
    for(int i = 0; i < KEYS; i++) if(m.in[i]) c[i & 1]++;
    c[k & 1]++;
    return c[0] <= 4 && c[1] <= 4;
}
template <int k, class Map> static inline void agree_key(Map& map, const M& m, bool moved)
{
    const Map& c = map;
    OBL_REQUIRE(c.contains(k) == m.in[k]);
    auto it = map.find(k);
    OBL_REQUIRE((it == c.end()) == !m.in[k]);
    if(m.in[k])
    {
        OBL_REQUIRE(it->first == k && it->second == m.v[k]);
        if(!moved) OBL_REQUIRE(&*it == m.at[k]);      // items stay where they are
    }
}
template <class Map> static inline void agree_all(Map& map, const M& m)
{
    const Map& c = map;
    OBL_REQUIRE((int)c.size() == m.n && c.empty() == (m.n == 0));
    bool seen[KEYS] = {};
    auto it = map.begin();
    for(int n = 0; n < m.n; n++)
    {
        OBL_REQUIRE(it != map.end());
        const int k = it->first;
        OBL_REQUIRE(k > 0 && k < KEYS && m.in[k] && !seen[k] && (*it).second == m.v[k]);
        seen[k] = true;
        ++it;
    }
    OBL_REQUIRE(it == map.end());
}
template <int b, class Map> static inline void agree_bucket(Map& map, const M& m)
{
    const Map& c = map;
    int want = 0, got = 0;
    for(int k = b; k < KEYS; k += 2) if(m.in[k]) want++;
    OBL_REQUIRE((int)c.bucket_size(b * 4) == want);
}
template <int o> static inline void step(estd::layer1::unordered_map<int, T, N>& map, M& m, T v, bool& moved)
{
    constexpr int code = o / 100 * 100, k = o % 100;
    const bool had = m.in[k], must = roomy(m, k);
    const int before = (int)map.size();
    if constexpr(code == IN || code == EM || code == TE || code == IM)
    {
        const auto r = [&] {
            if constexpr(code == IN) { const estd::pair<const int, T> p(k, v); return map.insert(p); }
            else if constexpr(code == IM) return map.insert({k, v});
            else if constexpr(code == EM) return map.emplace(k, v);
            else return map.try_emplace(k, v);
        }();
        if(had) OBL_REQUIRE(!r.second && r.first->first == k && r.first->second == m.v[k]);
        else if(must) OBL_REQUIRE(r.second);
        if(r.second)
        {
            OBL_REQUIRE(r.first->first == k && r.first->second == v);
            m.in[k] = true; m.v[k] = v; m.n++; m.at[k] = &*r.first;
        }
    }
    else if constexpr(code == IA)
    {
        const auto r = map.insert_or_assign(k, v);
        if(had || must) OBL_REQUIRE(r.second == !had && r.first->second == v);
        if(had) m.v[k] = v;
        else if(r.second) { m.in[k] = true; m.v[k] = v; m.n++; m.at[k] = &*r.first; }
    }
    else if constexpr(code == SU)
    {
        if(!had && !must) return;       // there is no telling of failure
        map[k] = v;
        if(!had) { m.in[k] = true; m.n++; m.at[k] = &*map.find(k); }
        m.v[k] = v;
    }
    else if constexpr(code == EK)
    {
        OBL_REQUIRE(map.erase(k) == (had ? 1u : 0u));
        if(had) { m.in[k] = false; m.n--; }
    }
    else if constexpr(code == EI)
    {
        if(had)
        {
            auto next = map.find(k); ++next;
            const bool last = next == map.end();
            const int follower = last ? 0 : next->first;
            auto it = map.erase(map.find(k));
            OBL_REQUIRE((it == map.end()) == last);
            if(!last) OBL_REQUIRE(it->first == follower);
            m.in[k] = false; m.n--;
        }
    }
    else if constexpr(code == EG || code == EL)
    {
        if(had)
        {
            if constexpr(code == EG) map.erase_and_gc(map.find(k));
            else
            {
                auto it = map.begin(map.bucket(k));
                while(it->first != k) ++it;
                map.erase_and_gc(it);
            }
            m.in[k] = false; m.n--; moved = true;
        }
    }
    else if constexpr(code == GA)
    {
        if(had)
        {
            auto it = map.gc_active(map.find(k));
            OBL_REQUIRE(it->first == k && it->second == m.v[k]);
            m.at[k] = &*it;
        }
    }
    else if constexpr(code == CL) { map.clear(); for(int i = 0; i < KEYS; i++) m.in[i] = false; m.n = 0; }
    else if constexpr(code == FI)
    {
        if(had) { map.find(k)->second = v; m.v[k] = v; }
    }
    OBL_REQUIRE((int)map.size() == m.n);
    (void)before;
}
namespace oblt {
template <int... os> void map(short a, short b, short c, short d, int gk, short g)
{
    const T gv(g, b);
    const T in[] = {{a, b}, {c, d}, {b, c}, {d, a}, {a, d}, {b, a}, {c, b}, {d, c}};
    box x(gk, gv); M m; bool moved = false; int i = 0;
    (step<os>(x.m, m, in[i++], moved), ...);
    agree_all(x.m, m);
    (agree_key<(os % 100)>(x.m, m, moved), ...);
    constexpr int last[] = {os...};
    constexpr int bk = last[sizeof...(os) - 1] & 1;
    agree_bucket<bk>(x.m, m);
    agree_key<bk + 20>(x.m, m, moved);
    OBL_REQUIRE(x.g0.k == gk && x.g0.v == gv && x.g1.k == gk && x.g1.v == gv);
    OBL_END;
}
}
#define F(...) (void*)&oblt::map<__VA_ARGS__>,
// operations on a key of a bucket, after a common start
#define OPS(k, ...) F(__VA_ARGS__, IN + k) F(__VA_ARGS__, EK + k) F(__VA_ARGS__, EI + k) F(__VA_ARGS__, EG + k) F(__VA_ARGS__, IA + k) F(__VA_ARGS__, SU + k) F(__VA_ARGS__, GA + k)
#define CYCLE(k, l, ...) OPS(k, __VA_ARGS__) OPS(l, __VA_ARGS__) F(__VA_ARGS__, TE + k) F(__VA_ARGS__, EM + l) F(__VA_ARGS__, IM + k)  F(__VA_ARGS__, FI + k) F(__VA_ARGS__, CL) F(__VA_ARGS__, EL + l)
#define THREE(a, b, c) IN + a, IN + b, IN + c
OBL_INSTANCES(all,
#if SHARD == 1
    CYCLE(1, 3, IN + 1) CYCLE(2, 3, IN + 2) CYCLE(1, 3, IN + 1, IN + 3)
#elif SHARD == 2
    CYCLE(2, 4, IN + 2, IN + 4) CYCLE(1, 5, THREE(1, 3, 5))
#elif SHARD == 3
    CYCLE(4, 1, THREE(2, 4, 6))
#elif SHARD == 4
    CYCLE(6, 7, THREE(1, 2, 4))
#elif SHARD == 5
    // after an erase: what follows in the bucket stays reachable, and is not inserted twice
    CYCLE(3, 5, THREE(1, 3, 5), EK + 1)
#elif SHARD == 6
    CYCLE(5, 3, THREE(2, 3, 5), EI + 3)
#elif SHARD == 7
    CYCLE(4, 6, THREE(2, 4, 6), EG + 2)
#elif SHARD == 8
    // a full bucket, at the end of the table and within
    CYCLE(9, 3, THREE(1, 3, 5), IN + 7)
#elif SHARD == 9
    CYCLE(10, 2, THREE(2, 4, 6), IN + 8)
#elif SHARD == 10
    // into the next bucket
    CYCLE(10, 1, THREE(2, 4, 6), IN + 8, IN + 10)
#elif SHARD == 11
    CYCLE(3, 1, THREE(2, 4, 6), IN + 8, IN + 1, EK + 8) CYCLE(5, 1, THREE(1, 3, 5), CL, IN + 1)
#elif SHARD == 12
    CYCLE(5, 3, THREE(1, 3, 5), EK + 1, EK + 3) CYCLE(5, 3, THREE(1, 3, 5), EK + 3, EK + 1)
#elif SHARD == 13
    CYCLE(5, 1, THREE(1, 3, 5), EI + 1, IN + 7) CYCLE(5, 1, THREE(1, 3, 5), EG + 1, IN + 1)
#elif SHARD == 14
    CYCLE(6, 4, THREE(2, 4, 6), EK + 4, EG + 2) CYCLE(8, 2, THREE(2, 4, 6), EG + 4, IN + 8) CYCLE(6, 2, THREE(2, 4, 6), EK + 2, GA + 6)
#elif SHARD == 15
    CYCLE(3, 7, THREE(1, 3, 5), IN + 7, EK + 1) CYCLE(7, 5, THREE(1, 3, 5), IN + 7, EG + 1)
#elif SHARD == 16
    CYCLE(7, 9, THREE(1, 3, 5), IN + 7, EK + 5) CYCLE(8, 10, THREE(2, 4, 6), IN + 8, EK + 2)
#endif
    nullptr)
