// std: 17
// thorough: 20
// min: 50
// peel: 2
// rounds: 6
#include <estd/array.h>
#include <estd/map.h>
#include "obl.h"

typedef int64_t I;
namespace L = estd::legacy;
namespace oblt {
// the key sought is that of the pair `at` and of none before it (of none at all when at < 0)
#define SOUGHT(n) do { for(int i = 0; i < (at < 0 ? n : at); i++) OBL_ASSUME(keys[i] != key); if(at >= 0) OBL_ASSUME(keys[at] == key); } while(0)
template <class K, class V, int at> void map1(K k0, V v0, K k1, V v1, K k2, V v2, K key, V w)
{
    typedef estd::pair<K, V> P;
    const K keys[] = {k0, k1, k2};
    const V values[] = {v0, v1, v2};
    SOUGHT(3);
    estd::layer1::map<K, V, 3> m{P{k0, v0}, P{k1, v1}, P{k2, v2}};
    V* const p = m[key];
    OBL_REQUIRE((p == nullptr) == (at < 0));
    if(at >= 0)
    {
        OBL_REQUIRE(*p == values[at]);
        *p = w;
        OBL_REQUIRE(*m[key] == w && m[key] == p);
        // the other pairs keep theirs
        for(int i = 0; i < at; i++)
        {
            bool first = true;
            for(int j = 0; j < i; j++) first = first && keys[j] != keys[i];
            if(first) OBL_REQUIRE(*m[keys[i]] == values[i]);
        }
    }
    OBL_END;
}
template <class K, class V, int at> void map1_of_array(K k0, V v0, K k1, V v1, K key)
{
    typedef estd::pair<K, V> P;
    const K keys[] = {k0, k1};
    const V values[] = {v0, v1};
    SOUGHT(2);
    estd::array<P, 2> a{P{k0, v0}, P{k1, v1}};
    estd::layer1::map<K, V, 2> m(a);
    V* const p = m[key];
    OBL_REQUIRE((p == nullptr) == (at < 0));
    if(at >= 0)
    {
        OBL_REQUIRE(*p == values[at]);
        *p = V(values[at] + 1);
        OBL_REQUIRE(a[0].second == v0 && a[1].second == v1);
    }
    OBL_END;
}
template <class K, class V, int at> void map2(K k0, V v0, K k1, V v1, K k2, V v2, K key, V w)
{
    typedef estd::pair<K, V> P;
    const K keys[] = {k0, k1, k2};
    const V values[] = {v0, v1, v2};
    SOUGHT(3);
    P a[3] = {P{k0, v0}, P{k1, v1}, P{k2, v2}};
    estd::layer2::map<K, V, 3> m(a);
    V* const p = m[key];
    OBL_REQUIRE(p == (at < 0 ? nullptr : &a[at < 0 ? 0 : at].second));
    if(at >= 0) *p = w;
    for(int i = 0; i < 3; i++) OBL_REQUIRE(a[i].second == (i == at ? w : values[i]) && a[i].first == keys[i]);
    OBL_END;
}
template <class K, class V, int at> void map3(K k0, V v0, K k1, V v1, K k2, V v2, K key, V w)
{
    typedef estd::pair<K, V> P;
    const K keys[] = {k0, k1, k2};
    const V values[] = {v0, v1, v2};
    SOUGHT(3);
    P a[3] = {P{k0, v0}, P{k1, v1}, P{k2, v2}};
    estd::layer3::map<K, V> m(a);
    V* const p = m[key];
    OBL_REQUIRE(p == (at < 0 ? nullptr : &a[at < 0 ? 0 : at].second));
    if(at >= 0) *p = w;
    for(int i = 0; i < 3; i++) OBL_REQUIRE(a[i].second == (i == at ? w : values[i]) && a[i].first == keys[i]);
    OBL_END;
}
OBL_INSTANCES(maps, (void*)&oblt::map1<int, int, -1>, (void*)&oblt::map1<int, int, 0>, (void*)&oblt::map1<int, int, 1>, (void*)&oblt::map1<int, int, 2>,
    (void*)&oblt::map1<uint8_t, I, -1>, (void*)&oblt::map1<uint8_t, I, 0>, (void*)&oblt::map1<uint8_t, I, 1>, (void*)&oblt::map1<uint8_t, I, 2>,
    (void*)&oblt::map1<I, char, -1>, (void*)&oblt::map1<I, char, 0>, (void*)&oblt::map1<I, char, 1>, (void*)&oblt::map1<I, char, 2>,
    (void*)&oblt::map1_of_array<int, int, -1>, (void*)&oblt::map1_of_array<int, int, 0>, (void*)&oblt::map1_of_array<int, int, 1>, (void*)&oblt::map1_of_array<char, I, -1>,
    (void*)&oblt::map1_of_array<char, I, 0>, (void*)&oblt::map1_of_array<char, I, 1>, (void*)&oblt::map2<int, int, -1>, (void*)&oblt::map2<int, int, 0>,
    (void*)&oblt::map2<int, int, 1>, (void*)&oblt::map2<int, int, 2>, (void*)&oblt::map2<uint8_t, I, -1>, (void*)&oblt::map2<uint8_t, I, 0>,
    (void*)&oblt::map2<uint8_t, I, 1>, (void*)&oblt::map2<uint8_t, I, 2>, (void*)&oblt::map2<I, char, -1>, (void*)&oblt::map2<I, char, 0>,
    (void*)&oblt::map2<I, char, 1>, (void*)&oblt::map2<I, char, 2>, (void*)&oblt::map3<int, int, -1>, (void*)&oblt::map3<int, int, 0>,
    (void*)&oblt::map3<int, int, 1>, (void*)&oblt::map3<int, int, 2>, (void*)&oblt::map3<uint8_t, I, -1>, (void*)&oblt::map3<uint8_t, I, 0>,
    (void*)&oblt::map3<uint8_t, I, 1>, (void*)&oblt::map3<uint8_t, I, 2>, (void*)&oblt::map3<I, char, -1>, (void*)&oblt::map3<I, char, 0>,
    (void*)&oblt::map3<I, char, 1>, (void*)&oblt::map3<I, char, 2>)

// ---- legacy arrays: owning (N elements inside), and references to an array of known or runtime size
template <class A, class T> void legacy_range(A& a, T* p, unsigned n)
{
    const A& c = a;
    OBL_REQUIRE(a.size() == n && a.data() == p && c.data() == p && a.begin() == p && a.end() == p + n && c.begin() == p && c.end() == p + n);
    OBL_REQUIRE(&a.front() == p && &c.front() == p && &a[n - 1] == p + n - 1 && &c[n - 1] == p + n - 1);
    unsigned i = 0;
    for(T& e : a) { OBL_REQUIRE(&e == p + i); i++; }
    OBL_REQUIRE(i == n);
}
template <class T, unsigned N> void legacy1(T v, T w)
{
    L::array<T, N, size_t> a;
    legacy_range(a, a.data(), N);
    OBL_REQUIRE((char*)a.data() >= (char*)&a && (char*)a.end() <= (char*)(&a + 1));
    a.fill(v);
    for(unsigned i = 0; i < N; i++) OBL_REQUIRE(a[i] == v);
    L::array<T, N, size_t> b(a);
    b[0] = w;
    OBL_REQUIRE(a[0] == v && b[0] == w && b[N - 1] == (N == 1 ? w : v));
    a = b;
    OBL_REQUIRE(a[0] == w);
    OBL_END;
}
template <class T, unsigned N> void legacy23(unsigned n)
{
    OBL_ASSUME(n > 0 && n <= N);
    T s[N];
    L::layer2::array<T, N> a(s);
    legacy_range(a, s, N);
    auto b = L::layer2::make_array(s);
    legacy_range(b, s, N);
    L::layer3::array<T> c(s);
    legacy_range(c, s, N);
    OBL_REQUIRE(&c.back() == s + N - 1);
    auto d = L::layer3::make_array(s);
    legacy_range(d, s, N);
    const auto& e = d;
    OBL_REQUIRE(&d.back() == s + N - 1 && &e.back() == s + N - 1);
    L::layer3::array<T> f(s, n);
    OBL_REQUIRE(f.size() == n && f.data() == s && f.end() == s + n && &f.back() == s + n - 1);
    OBL_END;
}
OBL_INSTANCES(legacy, (void*)&oblt::legacy1<int, 1>, (void*)&oblt::legacy1<int, 4>, (void*)&oblt::legacy1<uint8_t, 3>, (void*)&oblt::legacy1<I, 5>, (void*)&oblt::legacy23<int, 1>, (void*)&oblt::legacy23<int, 4>, (void*)&oblt::legacy23<uint8_t, 3>, (void*)&oblt::legacy23<I, 5>)
OBL(legacy_list, int a, int b, int c)
{
    L::array<int, 3, size_t> s{a, b, c};
    OBL_REQUIRE(s[0] == a && s[1] == b && s[2] == c);
    OBL_END;
}
}
