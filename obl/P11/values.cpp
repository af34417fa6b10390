// std: 17
// min: 20
// peel: 1
// rounds: 8
#include <estd/functional.h>
#include <estd/tuple.h>
#include <estd/unordered_map.h>
#include "obl.h"

// What becomes of values on their way in, in place, and out; and the many ways to look at them
typedef obl::tracked<0> T;
enum { N = 8 };
typedef estd::layer1::unordered_map<int, T, N> Map;
using estd::is_same;
#define PRE const int t0 = T::live; OBL_ASSUME(t0 >= 0 && t0 < 1000); T::copies = 0
#define LIVE(n) OBL_REQUIRE(T::live == t0 + (n))

namespace oblt {
template <int k, int l> void moved_in(int a, int b)
{
    PRE;
    Map m;
    LIVE(0);
    {
        T t(a), u(b);
        auto r = m.emplace(k, std::move(t));
        OBL_REQUIRE(r.second && r.first->first == k && r.first->second.v == a && t.v == -1 && T::copies == 0);
        auto q = m.emplace(l, u);
        OBL_REQUIRE(q.second && q.first->first == l && q.first->second.v == b && u.v == b && T::copies == 1);
        LIVE(4);
        auto d = m.emplace(k, std::move(u));           // nothing is inserted
        OBL_REQUIRE(!d.second && d.first->second.v == a && m.size() == 2 && T::copies == 1);
        LIVE(4);
    }
    LIVE(2);
    OBL_REQUIRE(m.find(k)->second.v == a && m.find(l)->second.v == b);
    OBL_REQUIRE(m.erase(k) == 1 && m.erase(k) == 0);
    LIVE(1);
    OBL_REQUIRE(m.find(l)->second.v == b && !m.contains(k));
    m.clear();
    LIVE(0);
    OBL_REQUIRE(m.empty());
    OBL_END;
}
template <int k, int l> void tried(int a, int b, int c)
{
    PRE;
    Map m;
    {
        T t(a);
        auto r = m.try_emplace(k, std::move(t));
        OBL_REQUIRE(r.second && r.first->first == k && r.first->second.v == a && t.v == -1 && T::copies == 0);
        T u(b);
        auto d = m.try_emplace(k, std::move(u));
        OBL_REQUIRE(!d.second && u.v == b && d.first->second.v == a && T::copies == 0);      // not moved from, as not inserted
        auto e = m.try_emplace(l, b, c);
        OBL_REQUIRE(e.second && e.first->first == l && e.first->second.v == (b ^ c) && T::copies == 0);
    }
    LIVE(2);
    OBL_END;
}
template <int k, int l> void pieces(int a, int b)
{
    PRE;
    Map m;
    auto r = m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(k), estd::forward_as_tuple(a, b));
    OBL_REQUIRE(r.second && r.first->first == k && r.first->second.v == (a ^ b) && T::copies == 0);
    LIVE(1);
    auto d = m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(k), estd::forward_as_tuple(b));
    OBL_REQUIRE(!d.second && &*d.first == &*r.first && d.first->second.v == (a ^ b));
    LIVE(1);
    auto e = m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(l), estd::forward_as_tuple(b));
    OBL_REQUIRE(e.second && e.first->first == l && e.first->second.v == b && m.size() == 2);
    LIVE(2);
    OBL_END;
}
template <int k, int l> void inserted(int a, int b, int c)
{
    PRE;
    Map m;
    {
        typedef estd::pair<const int, T> P;
        P p(k, T(a));
        T::copies = 0;
        auto r = m.insert(std::move(p));
        OBL_REQUIRE(r.second && r.first->second.v == a && p.second.v == -1 && T::copies == 0);
        const P q(l, T(b));
        T::copies = 0;
        auto s = m.insert(q);
        OBL_REQUIRE(s.second && s.first->second.v == b && q.second.v == b && T::copies == 1);
        P z(k, T(c));
        T::copies = 0;
        auto d = m.insert(std::move(z));
        OBL_REQUIRE(!d.second && d.first->second.v == a && z.second.v == c && T::copies == 0);
        T o(c);
        auto x = m.insert_or_assign(k, std::move(o));
        OBL_REQUIRE(!x.second && x.first->first == k && x.first->second.v == c && o.v == -1 && T::copies == 0);
    }
    LIVE(2);
    OBL_REQUIRE(m.find(k)->second.v == c && m.find(l)->second.v == b);
    OBL_END;
}
// three keys of a bucket, one perhaps erased, seen from every side
template <int gone> void looked_at(int a, int b, int c, int d)
{
    PRE;
    Map m;
    const Map& k = m;
    m.emplace(2, a); m.emplace(4, b); m.emplace(6, c); m.emplace(1, d);
    const int v[4] = {a, b, c, d}, key[4] = {2, 4, 6, 1};
    for(int i = 0; i < 4; i++) OBL_REQUIRE(k.find(key[i]) != k.end() && k.find(key[i])->first == key[i] && (*k.find(key[i])).second.v == v[i] && &*k.find(key[i]) == &*m.find(key[i]));
    OBL_REQUIRE(k.find(8) == k.end() && k.find(3) == k.end() && m.find(5) == m.end());
    if constexpr(gone >= 0) m.erase(key[gone]);
    LIVE(gone < 0 ? 4 : 3);
    // the bucket, in order of insertion
    int n = 0;
    const size_t bucket = k.bucket(2);
    OBL_REQUIRE(bucket == k.bucket(4) && bucket == k.bucket(6) && bucket != k.bucket(1));
    auto it = m.begin(bucket);
    for(int i = 0; i < 3; i++)
    {
        if(i == gone) continue;
        OBL_REQUIRE(it != m.end(bucket) && !(it == m.end(bucket)));
        OBL_REQUIRE(it->first == key[i] && (*it).second.v == v[i]);
        if(i == 1) it++;
        else ++it;
        n++;
    }
    OBL_REQUIRE(it == m.end(bucket) && !(it != m.end(bucket)));
    OBL_REQUIRE((int)k.bucket_size(bucket) == n && (int)k.bucket_size(k.bucket(1)) == (gone == 3 ? 0 : 1));
    // all of it, without change
    int sum = 0, count = 0;
    auto ci = k.begin();
    for(int i = 0; i < (gone < 0 ? 4 : 3); i++)
    {
        OBL_REQUIRE(ci != k.end());
        sum += ci->first; count++;
        ++ci;
    }
    OBL_REQUIRE(ci == k.end() && sum == 13 - (gone < 0 ? 0 : key[gone < 0 ? 0 : gone]) && count == (int)k.size());
    OBL_STATIC(looks, is_same<decltype(*k.find(2)), const estd::pair<const int, T>&>::value || is_same<decltype(*k.find(2)), typename Map::const_reference>::value);
    OBL_REQUIRE(k.max_size() == N);
    OBL_END;
}
}
#define KEYS(f) OBL_INSTANCES(f, (void*)&oblt::f<1, 2>, (void*)&oblt::f<1, 3>, (void*)&oblt::f<2, 1>, (void*)&oblt::f<4, 2>)
KEYS(moved_in) KEYS(tried) KEYS(pieces) KEYS(inserted)
OBL_INSTANCES(looked_at, (void*)&oblt::looked_at<-1>, (void*)&oblt::looked_at<0>, (void*)&oblt::looked_at<1>, (void*)&oblt::looked_at<2>, (void*)&oblt::looked_at<3>)
