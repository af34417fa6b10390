// std: 17
// min: 190
// shards: 1 2 3 4 5
// peel: 1
// rounds: 8
#include <estd/functional.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include "obl.h"

// Sets of unknown keys, known only to differ, which all meet in one bucket.
template <int b> struct collide { constexpr size_t operator()(int) const { return b; } };
enum { IN = 10, ER = 20 };
struct M { bool in[8] = {}; int n = 0; };
struct keys { int at[6]; };

template <int B, int N> struct sut
{
    int g0[4];
    estd::layer1::unordered_set<int, N, collide<B>> s;
    int g1[4];
    sut(int g) : g0{g, g, g, g}, g1{g, g, g, g} {}
};
template <int o, class Set> static inline void step(Set& s, M& m, const keys& k)
{
    constexpr int code = o / 10 * 10, i = o % 10;
    if constexpr(code == IN)
    {
        const auto r = s.insert(k.at[i]);
        if(m.in[i]) OBL_REQUIRE(!r.second && *r.first == k.at[i]);
        else if(m.n < 4) OBL_REQUIRE(r.second);
        if(r.second) { OBL_REQUIRE(*r.first == k.at[i]); m.in[i] = true; m.n++; }
    }
    else if constexpr(code == ER)
    {
        OBL_REQUIRE(s.erase(k.at[i]) == (m.in[i] ? 1u : 0u));
        if(m.in[i]) { m.in[i] = false; m.n--; }
    }
    OBL_REQUIRE((int)s.size() == m.n && s.empty() == (m.n == 0));
}
template <class Set> static inline void agree(Set& set, const M& m, const keys& k)
{
    const Set& s = set;
    for(int i = 0; i < 6; i++)
    {
        OBL_REQUIRE(s.contains(k.at[i]) == m.in[i] && s.count(k.at[i]) == (m.in[i] ? 1u : 0u));
    }
    bool seen[6] = {};
    auto it = set.begin();
    for(int n = 0; n < m.n; n++)
    {
        OBL_REQUIRE(it != set.end());
        const int v = *it;
        int w = 6;
        for(int i = 0; i < 6; i++) if(m.in[i] && !seen[i] && v == k.at[i]) { w = i; break; }
        OBL_REQUIRE(w != 6);
        seen[w] = true;
        ++it;
    }
    OBL_REQUIRE(it == set.end());
}
// keys which differ from each other and from the null key
#define DISTINCT(x, i) int((unsigned)(x) << 3 | i)
namespace oblt {
template <int B, int N, int... os> void set(int a, int b, int c, int d, int e, int f, int g)
{
    const keys k{{DISTINCT(a, 1), DISTINCT(b, 2), DISTINCT(c, 3), DISTINCT(d, 4), DISTINCT(e, 5), DISTINCT(f, 6)}};
    sut<B, N> x(g); M m;
    (step<os>(x.s, m, k), ...);
    agree(x.s, m, k);
    for(int i = 0; i < 4; i++) OBL_REQUIRE(x.g0[i] == g && x.g1[i] == g);
    OBL_END;
}
// equal exactly when they hold the same keys, whatever the order and history
template <int B, int bits, int lbits, int x, int y, int z> void equal(int a, int b, int c, int d, int e, int f)
{
    const keys k{{DISTINCT(a, 1), DISTINCT(b, 2), DISTINCT(c, 3), DISTINCT(d, 4), DISTINCT(e, 5), DISTINCT(f, 6)}};
    estd::layer1::unordered_map<int, int, 8, collide<B>> p, q;
    for(int i = 0; i < 3; i++) if(lbits & 1 << i) p.try_emplace(k.at[i], e);
    if(bits & 8) { q.try_emplace(k.at[3], e); }
    if(bits & 1 << x) q.try_emplace(k.at[x], e);
    if(bits & 1 << y) q.try_emplace(k.at[y], f);    // keys alone count
    if(bits & 1 << z) q.try_emplace(k.at[z], e);
    if(bits & 8) q.erase(k.at[3]);
    OBL_REQUIRE((p == q) == ((bits & 7) == lbits) && (q == p) == ((bits & 7) == lbits));
    OBL_END;
}
// a bucket far into a larger table: erased slots still belong to it
template <int e1, int e2, int B> void far(int a, int b, int c, int d, int e)
{
    const int k[] = {DISTINCT(a, 1), DISTINCT(b, 2), DISTINCT(c, 3)};
    estd::layer1::unordered_map<int, int, 80, collide<B>> m;
    OBL_REQUIRE(m.try_emplace(k[0], d).second && m.try_emplace(k[1], e).second && m.try_emplace(k[2], d).second);
    m.erase(k[e1]);
    for(int i = 0; i < 3; i++)
    {
        OBL_REQUIRE(m.contains(k[i]) == (i != e1));
        if(i != e1) OBL_REQUIRE(m.find(k[i])->second == (i == 1 ? e : d));
    }
    m.erase(k[e2]);
    OBL_REQUIRE(m.contains(k[3 - e1 - e2]) && m.size() == 1);
    OBL_REQUIRE(!m.try_emplace(k[3 - e1 - e2], a).second);
    OBL_REQUIRE(m.try_emplace(k[e1], b).second && !m.try_emplace(k[e1], c).second && m.size() == 2);
    OBL_REQUIRE(m.find(k[e1])->second == b);
    OBL_END;
}
}
#define S(B, ...) (void*)&oblt::set<B, 8, __VA_ARGS__>,
#define ALL(B, ...) S(B, __VA_ARGS__, IN+0) S(B, __VA_ARGS__, IN+1) S(B, __VA_ARGS__, IN+4) S(B, __VA_ARGS__, ER+0) S(B, __VA_ARGS__, ER+1) S(B, __VA_ARGS__, ER+2)
#define AGAIN(B, ...) ALL(B, __VA_ARGS__, ER+0) ALL(B, __VA_ARGS__, ER+1)
#define EQ1(B, b, l) (void*)&oblt::equal<B, b, l, 0, 1, 2>, (void*)&oblt::equal<B, b, l, 2, 1, 0>, (void*)&oblt::equal<B, b, l, 1, 2, 0>,
#define EQ(B, l) EQ1(B, 0, l) EQ1(B, 1, l) EQ1(B, 3, l) EQ1(B, 6, l) EQ1(B, 7, l) EQ1(B, 15, l) EQ1(B, 13, l)
OBL_INSTANCES(all,
#if SHARD == 1
    S(0, IN+0) ALL(0, IN+0) ALL(1, IN+0) ALL(0, IN+0, IN+1) ALL(1, IN+0, IN+1) ALL(0, IN+0, IN+1, IN+2) ALL(1, IN+0, IN+1, IN+2) ALL(1, IN+0, IN+1, IN+2, IN+3)
#elif SHARD == 2
    AGAIN(0, IN+0, IN+1) AGAIN(1, IN+0, IN+1, IN+2) AGAIN(1, IN+0, IN+1, IN+2, IN+3) AGAIN(0, IN+0, IN+1, IN+2, IN+3)
#elif SHARD == 3
    EQ(0, 0) EQ(0, 1) EQ(0, 3) EQ(0, 7) EQ(1, 7)
#elif SHARD == 4
    (void*)&oblt::far<0, 1, 18>, (void*)&oblt::far<1, 0, 16>, (void*)&oblt::far<0, 2, 19>,
#elif SHARD == 5
    (void*)&oblt::far<2, 0, 17>, (void*)&oblt::far<1, 2, 18>, (void*)&oblt::far<2, 1, 19>,
#endif
    nullptr)
