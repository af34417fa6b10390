// std: 17
// thorough: 20
// min: 50
// peel: 2
// rounds: 6
#include <estd/array.h>
#include <estd/span.h>
#include <estd/map.h>
#include "obl.h"

typedef int64_t I;
namespace oblt {

// ---- array: N elements, each where it should be, nothing else touched
template <class T, size_t N> void array_elements(T v, T w)
{
    struct { T before; estd::array<T, N> a; T after; } s;
    s.before = v; s.after = w;
    OBL_REQUIRE(s.a.size() == N && s.a.max_size() == N && s.a.empty() == (N == 0));
    OBL_REQUIRE(size_t(s.a.end() - s.a.begin()) == N && s.a.begin() == s.a.data() && s.a.cend() == s.a.end() && s.a.cbegin() == s.a.begin());
    OBL_REQUIRE(sizeof(s.a) == N * sizeof(T));
    for(size_t i = 0; i < N; i++) s.a[i] = T(v + T(i));
    OBL_REQUIRE(&s.a.front() == s.a.data() && &s.a.back() == s.a.data() + (N - 1));
    const estd::array<T, N>& c = s.a;
    OBL_REQUIRE(&c.front() == s.a.data() && &c.back() == s.a.data() + (N - 1) && c.data() == s.a.data());
    size_t n = 0;
    for(const T& e : c)
    {
        OBL_REQUIRE(e == T(v + T(n)) && &e == &s.a[n] && &e == &c[n]);
        n++;
    }
    OBL_REQUIRE(n == N && s.before == v && s.after == w);
    OBL_END;
}
template <class T, size_t N> void array_fill(T v, T w, T x)
{
    struct { T before; estd::array<T, N> a; T after; } s;
    s.before = v; s.after = w;
    s.a.fill(x);
    for(size_t i = 0; i < N; i++) OBL_REQUIRE(s.a.data()[i] == x);
    OBL_REQUIRE(s.before == v && s.after == w);
    OBL_END;
}
// the whole of a large one, seen at any position
template <size_t N> void array_large(unsigned at, char x)
{
    OBL_STATIC(holds_its_size, size_t(estd::array<char, N>().size()) == N && size_t(estd::array<char, N>().max_size()) == N);
    OBL_ASSUME(at < N);
    estd::array<char, N> a;
    OBL_REQUIRE(size_t(a.end() - a.begin()) == N && &a[at] == a.data() + at);
    OBL_REQUIRE(&a.back() == a.data() + N - 1);
    a[at] = x;
    OBL_REQUIRE(a.data()[at] == x);
    OBL_END;
}
template <class T> void array_compare(T a0, T a1, T a2, T b0, T b1, T b2)
{
    const estd::array<T, 3> a{a0, a1, a2}, b{b0, b1, b2};
    OBL_REQUIRE(a[0] == a0 && a[1] == a1 && a[2] == a2);
    const bool same = a0 == b0 && a1 == b1 && a2 == b2;
    OBL_REQUIRE((a == b) == same);
    OBL_REQUIRE((a != b) == !same);
    OBL_REQUIRE(a == a && !(a != a));
    estd::array<T, 3> c(a);
    OBL_REQUIRE(c[0] == a0 && c[1] == a1 && c[2] == a2 && c.data() != a.data());
    c[1] = b1;
    OBL_REQUIRE(a[1] == a1 && c[1] == b1);
    c = b;
    OBL_REQUIRE(c[0] == b0 && c[1] == b1 && c[2] == b2 && c == b);
    c = c;
    OBL_REQUIRE(c == b);
    OBL_END;
}
template <class T> void array_of_other_size(T a0, T a1, T a2)
{
    const estd::array<T, 2> a{a0, a1};
    const estd::array<T, 3> b{a0, a1, a2};
    OBL_REQUIRE(!(a == b) && !(b == a) && a != b && b != a);
    OBL_END;
}
template <class T> void array_of_array(T a0, T a1, T a2)
{
    T src[3] = {a0, a1, a2};
    estd::array<T, 3> a = estd::to_array(src);
    OBL_REQUIRE(a[0] == a0 && a[1] == a1 && a[2] == a2 && a.data() != src);
    a[1] = T(a1 + 1);
    OBL_REQUIRE(src[1] == a1);
    const T csrc[2] = {a2, a0};
    estd::array<T, 2> b = estd::to_array(csrc);
    OBL_REQUIRE(b[0] == a2 && b[1] == a0);
    OBL_END;
}
struct counted { int v; counted(int v) : v(v) {} counted() : v(17) {} bool operator==(const counted& o) const { return v == o.v; } };
struct big { int64_t a, b; char c[3]; big(int); };
// storage without objects: elements do not overlap and lie inside
template <class T, unsigned N, unsigned i> void raw_storage()
{
    typedef estd::internal::uninitialized_array<T, N> A;
    A a;
    const A& c = a;
    OBL_REQUIRE(a.size() == N && size_t(a.end() - a.begin()) == N && (const char*)a.begin() == (const char*)&a && (const char*)a.end() <= (const char*)(&a + 1));
    OBL_REQUIRE(&a[i] == a.begin() + i && &c[i] == a.begin() + i && c.data() == a.data() && a.data() == a.begin());
    OBL_REQUIRE(&a.back() == a.end() - 1 && &a.front() == a.begin());
    OBL_END;
}
// ---- spans
template <class T> void span_basics(T* p, uint16_t n, uint16_t i)
{
    OBL_ASSUME(i < n);
    estd::span<T> s(p, size_t(n));
    OBL_REQUIRE(s.data() == p && s.size() == n && s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0));
    OBL_REQUIRE(s.begin() == p && s.end() == p + n && s.cbegin() == p && s.cend() == p + n);
    OBL_REQUIRE(&s[i] == p + i);
    const estd::span<T>& c = s;
    OBL_REQUIRE(&c[i] == p + i && c.size() == n && c.data() == p);
    estd::span<T> t(p, p + n);
    OBL_REQUIRE(t.data() == p && t.size() == n && t.end() == p + n);
    estd::span<T> u(t);
    OBL_REQUIRE(u.data() == p && u.size() == n);
    OBL_END;
}
template <class T> void span_empty(T* p)
{
    estd::span<T> s;
    OBL_REQUIRE(s.size() == 0 && s.empty() && s.begin() == s.end() && s.size_bytes() == 0 && s.data() == nullptr);
    estd::span<T> t(p, size_t(0));
    OBL_REQUIRE(t.empty() && t.data() == p && t.begin() == t.end());
    estd::span<T> u(p, p);
    OBL_REQUIRE(u.empty() && u.size() == 0);
    OBL_END;
}
template <class T> void span_parts(T* p, uint16_t n, uint16_t off, uint16_t cnt)
{
    OBL_ASSUME(off <= n && cnt <= n - off);
    estd::span<T> s(p, size_t(n));
    estd::span<T> f = s.first(cnt);
    OBL_REQUIRE(f.data() == p && f.size() == cnt && f.end() == p + cnt);
    estd::span<T> u = s.subspan(off, cnt);
    OBL_REQUIRE(u.data() == p + off && u.size() == cnt && u.end() == p + off + cnt);
    estd::span<T> r = s.subspan(off);
    OBL_REQUIRE(r.data() == p + off && r.size() == size_t(n - off) && r.end() == p + n);
    OBL_REQUIRE(s.data() == p && s.size() == n);
    OBL_END;
}
template <class T, size_t C> void span_first_fixed(T* p, uint16_t n)
{
    OBL_ASSUME(n >= C);
    estd::span<T> s(p, size_t(n));
    estd::span<T, C> f = s.template first<C>();
    OBL_REQUIRE(f.data() == p && f.size() == C && f.end() == p + C && f.size_bytes() == C * sizeof(T));
    estd::span<T> d(f);
    OBL_REQUIRE(d.data() == p && d.size() == C);
    OBL_END;
}
template <class T> void span_assign(T* p, T* q, uint16_t n, uint16_t m)
{
    estd::span<T> s(p, size_t(n)), t(q, size_t(m));
    estd::span<T>& r = (s = t);
    OBL_REQUIRE(&r == &s && s.data() == q && s.size() == m && t.data() == q && t.size() == m);
    t = estd::span<T>(p, size_t(n));
    OBL_REQUIRE(t.data() == p && t.size() == n && s.data() == q && s.size() == m);
    OBL_END;
}
template <class T, size_t N> void span_of_array(T v)
{
    T a[N];
    estd::span<T> s(a);
    OBL_REQUIRE(s.data() == a && s.size() == N && s.end() == a + N);
    estd::span<T, N> f(a);
    OBL_REQUIRE(f.data() == a && f.size() == N && f.end() == a + N && f.begin() == a && !f.empty() && f.size_bytes() == sizeof(a));
    f[N - 1] = v;
    OBL_REQUIRE(a[N - 1] == v && s[N - 1] == v && &s[0] == &f[0]);
    estd::span<T> d(f);
    OBL_REQUIRE(d.data() == a && d.size() == N);
    estd::span<T> g = f.first(N - 1);
    OBL_REQUIRE(g.data() == a && g.size() == N - 1);
    estd::span<T> r = f.subspan(1);
    OBL_REQUIRE(r.data() == a + 1 && r.size() == N - 1 && r.end() == a + N);
    size_t n = 0;
    for(T& e : f) { OBL_REQUIRE(&e == a + n); n++; }
    OBL_REQUIRE(n == N);
    OBL_END;
}
template <class T, size_t N> void span_bytes(T* p, uint16_t n)
{
    estd::span<T> s(p, size_t(n));
    estd::span<const estd::byte> b = estd::as_bytes(s);
    OBL_REQUIRE((const void*)b.data() == p && b.size() == n * sizeof(T) && b.size() == s.size_bytes());
    estd::span<estd::byte> w = estd::as_writable_bytes(estd::span<typename estd::remove_const<T>::type>(const_cast<typename estd::remove_const<T>::type*>(p), size_t(n)));
    OBL_REQUIRE((void*)w.data() == p && w.size() == n * sizeof(T));
    typename estd::remove_const<T>::type a[N];
    estd::span<typename estd::remove_const<T>::type, N> f(a);
    auto fb = estd::as_bytes(f);
    OBL_REQUIRE((const void*)fb.data() == a && fb.size() == sizeof(a));
    auto fw = estd::as_writable_bytes(f);
    OBL_REQUIRE((void*)fw.data() == a && fw.size() == sizeof(a));
    OBL_END;
}
OBL_INSTANCES(array, (void*)&oblt::array_elements<int, 1>, (void*)&oblt::array_elements<int, 4>, (void*)&oblt::array_elements<uint8_t, 3>, (void*)&oblt::array_elements<uint8_t, 7>, (void*)&oblt::array_elements<I, 5>,
    (void*)&oblt::array_fill<int, 1>, (void*)&oblt::array_fill<int, 4>, (void*)&oblt::array_fill<uint8_t, 5>, (void*)&oblt::array_fill<I, 3>,
    (void*)&oblt::array_large<255>, (void*)&oblt::array_large<256>, (void*)&oblt::array_large<257>, (void*)&oblt::array_large<65535>, (void*)&oblt::array_large<65536>, (void*)&oblt::array_large<65537>,
    (void*)&oblt::array_compare<int>, (void*)&oblt::array_compare<uint8_t>, (void*)&oblt::array_compare<I>, (void*)&oblt::array_of_other_size<int>, (void*)&oblt::array_of_array<int>, (void*)&oblt::array_of_array<uint8_t>, (void*)&oblt::array_of_array<I>,
    (void*)&oblt::raw_storage<counted, 2, 1>, (void*)&oblt::raw_storage<counted, 7, 3>, (void*)&oblt::raw_storage<counted, 7, 6>, (void*)&oblt::raw_storage<counted, 300, 299>, (void*)&oblt::raw_storage<counted, 300, 256>, (void*)&oblt::raw_storage<big, 100, 99>, (void*)&oblt::raw_storage<big, 5, 4>, (void*)&oblt::raw_storage<int, 7, 6>, (void*)&oblt::raw_storage<uint8_t, 300, 257>)
OBL_INSTANCES(span, (void*)&oblt::span_basics<int>, (void*)&oblt::span_basics<const int>, (void*)&oblt::span_basics<uint8_t>, (void*)&oblt::span_basics<const char>, (void*)&oblt::span_basics<I>, (void*)&oblt::span_empty<int>, (void*)&oblt::span_empty<const char>,
    (void*)&oblt::span_parts<int>, (void*)&oblt::span_parts<const int>, (void*)&oblt::span_parts<uint8_t>, (void*)&oblt::span_parts<const char>, (void*)&oblt::span_parts<I>,
    (void*)&oblt::span_first_fixed<int, 1>, (void*)&oblt::span_first_fixed<int, 5>, (void*)&oblt::span_first_fixed<const char, 3>, (void*)&oblt::span_first_fixed<uint8_t, 1>,
    (void*)&oblt::span_assign<int>, (void*)&oblt::span_assign<const char>, (void*)&oblt::span_of_array<int, 2>, (void*)&oblt::span_of_array<int, 5>, (void*)&oblt::span_of_array<char, 3>, (void*)&oblt::span_of_array<I, 4>,
    (void*)&oblt::span_bytes<int, 3>, (void*)&oblt::span_bytes<char, 4>, (void*)&oblt::span_bytes<I, 2>, (void*)&oblt::span_bytes<const int, 5>)
}
