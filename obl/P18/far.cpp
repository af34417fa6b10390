// std: 17
// thorough: 20
// min: 15
// Arrays, spans and maps of more than 256 elements.
#include <estd/array.h>
#include <estd/span.h>
#include <estd/map.h>
#include "obl.h"
enum { N = 270, At = 265 };
OBL_STATIC(static_extent, estd::span<int, 300>::extent == 300 && estd::span<int, 300>::size() == 300 && estd::span<char, 70000>::size() == 70000 && estd::span<char, 70000>::extent == 70000);
OBL_STATIC(dynamic, sizeof(estd::span<int>) == 2 * sizeof(void*) && estd::detail::dynamic_extent::value == size_t(-1));
OBL_STATIC(array_size, estd::array<int, 300>::size() == 300 && estd::array<char, 70000>::max_size() == 70000 && !estd::array<int, 256>::empty() && !estd::array<char, 65536>::empty());
namespace oblt {
template <class T, size_t n> void far_array(size_t i, T v)
{
    estd::array<T, n> a;
    OBL_ASSUME(i < n);
    a[i] = v;
    const estd::array<T, n>& c = a;
    OBL_REQUIRE(&a[i] == a.data() + i && &c[i] == a.data() + i && c.data()[i] == v);
    OBL_REQUIRE(a.end() == a.data() + n && c.end() == a.data() + n && c.cend() == a.data() + n && &a.back() == a.data() + (n - 1) && &c.back() == a.data() + (n - 1));
    OBL_REQUIRE(a.size() == n && a.max_size() == n && !a.empty());
    OBL_END;
}
template <int op> void far_contents(unsigned char v)
{
    struct { unsigned char g; estd::array<unsigned char, N> a; unsigned char h; } r;
    r.g = r.h = 7;
    r.a.fill(v);
    OBL_REQUIRE(r.a.data()[0] == v && r.a.data()[N - 1] == v && r.a.data()[256] == v && r.g == 7 && r.h == 7);
    if(op == 1)
    {
        int n = 0;
        for(unsigned char& e : r.a) e = (unsigned char)(n++);
        OBL_REQUIRE(n == N && r.a[At] == (unsigned char)At && r.a[3] == 3);
        estd::array<unsigned char, N> b(r.a);
        OBL_REQUIRE(b[At] == (unsigned char)At && b == r.a);
        b[At] = 1;
        OBL_REQUIRE(b != r.a && !(b == r.a));
    }
    OBL_END;
}
template <class T, size_t n> void far_span(size_t i, size_t k, T v)
{
    static T m[n];
    estd::span<T, n> s(m);
    estd::span<T> d(m);
    const estd::span<T> e(s);
    OBL_REQUIRE(s.size() == n && d.size() == n && e.size() == n && s.data() == m && e.data() == m);
    OBL_REQUIRE(s.size_bytes() == n * sizeof(T) && d.size_bytes() == n * sizeof(T));
    OBL_REQUIRE(s.end() == m + n && d.end() == m + n && e.cend() == m + n && !s.empty() && !d.empty());
    OBL_REQUIRE(estd::as_bytes(s).size() == n * sizeof(T) && estd::as_bytes(d).size() == n * sizeof(T) && estd::as_writable_bytes(d).size() == n * sizeof(T));
    OBL_ASSUME(i < n);
    OBL_REQUIRE(&s[i] == m + i && &e[i] == m + i);
    d[i] = v;
    OBL_REQUIRE(m[i] == v);
    OBL_ASSUME(k <= n - i);
    estd::span<T> u = d.subspan(i, k), w = d.subspan(i), f = d.first(k);
    OBL_REQUIRE(u.data() == m + i && u.size() == k && w.data() == m + i && w.size() == n - i && f.data() == m && f.size() == k);
    estd::span<T> x(m + i, k);
    OBL_REQUIRE(x.size() == k && x.data() == m + i);
    OBL_END;
}
template <int at> void far_map(int v, int w)
{
    typedef estd::layer3::map<int, int> L3;
    static estd::pair<int, int> p[N];
    for(int i = 0; i < N; ++i) { p[i].first = i; p[i].second = 5; }
    p[at].second = v;
    L3 m(p);
    OBL_REQUIRE(m[at] == &p[at].second && *m[at] == v && m[N] == nullptr && m[-1] == nullptr);
    *m[at] = w;
    OBL_REQUIRE(p[at].second == w && p[at].first == at);
    OBL_END;
}
}
#define A(T, n) (void*)&oblt::far_array<T, n>
OBL_INSTANCES(far_array, A(int, 256), A(int, 300), A(int64_t, 300), A(char, 65536), A(char, 70000))
OBL_INSTANCES(far_contents, (void*)&oblt::far_contents<0>, (void*)&oblt::far_contents<1>)
#define S(T, n) (void*)&oblt::far_span<T, n>
OBL_INSTANCES(far_span, S(int, 256), S(int, 300), S(int64_t, 300), S(char, 65536), S(char, 70000))
OBL_INSTANCES(far_map, (void*)&oblt::far_map<0>, (void*)&oblt::far_map<At>, (void*)&oblt::far_map<N - 1>)
