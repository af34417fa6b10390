// std: 17
// thorough: 20
// min: 75
// peel: 2
// rounds: 6
#include <estd/allocators/fixed.h>
#include <estd/allocators/handle_desc.h>
#include <estd/vector.h>
#include <estd/string.h>
#include "obl.h"

typedef int64_t I;
using estd::is_same;

namespace oblt {
// ---- allocators of one buffer: grant what fits, and every position of it is the element there
template <class T, size_t N> void own_buffer(size_t n, unsigned p, T v)
{
    typedef estd::layer1::allocator<T, N> A;
    typedef estd::allocator_traits<A> traits;
    A a;
    OBL_REQUIRE(sizeof(A) == N * sizeof(T));
    OBL_REQUIRE(a.max_size() == N && traits::max_size(a) == N && a.size(true) == N);
    OBL_REQUIRE(bool(a.allocate(n)) == (n <= N));
    OBL_REQUIRE(a.valid() != a.invalid() && traits::invalid() == a.invalid());
    const A& c = a;
    T* base = &a.lock(a.valid());
    OBL_REQUIRE(reinterpret_cast<const char*>(base) == reinterpret_cast<const char*>(&a));
    OBL_ASSUME(p < N);
    OBL_REQUIRE(&a.lock(a.valid(), int(p)) == base + p && &c.clock(a.valid(), int(p)) == base + p);
    OBL_REQUIRE(&traits::lock(a, a.valid(), p, 1) == base + p && &traits::clock(c, a.valid(), p, 1) == base + p);
    a.lock(a.valid(), int(p)) = v;
    a.unlock(a.valid());
    OBL_REQUIRE(c.clock(a.valid(), int(p)) == v && base[p] == v);
    c.cunlock(a.valid());
    OBL_END;
}
template <class T, size_t N, unsigned M, int order> void positions(unsigned a_, unsigned b_)
{
    typedef estd::layer1::allocator<T, N> A;
    const unsigned p = a_ & (M - 1), q = b_ & (M - 1);
    OBL_ASSUME(order < 0 ? p < q : order > 0 ? p > q : p == q);
    A a;
    T* base = &a.lock(a.valid());
    typename A::handle_with_offset h = a.offset(a.valid(), p), g = a.offset(a.valid(), q);
    OBL_REQUIRE(h.offset() == p && g.offset() == q && h.handle() == a.valid());
    OBL_REQUIRE((h == g) == (order == 0) && (h < g) == (order < 0) && (h > g) == (order > 0) && (h >= g) == (order >= 0));
    OBL_REQUIRE(h - g == ptrdiff_t(p) - ptrdiff_t(q));
    OBL_REQUIRE(&a.lock(h) == base + p && &a.clock(h) == base + p);
    OBL_REQUIRE(&a.lock(h, int(q)) == &a.lock(a.offset(a.valid(), p + q)));
    h += typename A::size_type(q);
    OBL_REQUIRE(h.offset() == p + q);
    h -= typename A::size_type(p);
    OBL_REQUIRE(h == g);
    OBL_END;
}
// of memory elsewhere: with a size known at compile time, or at run time
template <class T, size_t N> void referred_buffer(size_t n, unsigned p)
{
    typedef estd::layer2::allocator<T, N> A;
    T buf[N];
    A a(buf);
    OBL_REQUIRE(a.max_size() == N && sizeof(A) == sizeof(T*) && bool(a.allocate(n)) == (n <= N) && bool(a.reallocate_ext(a.valid(), n)) == (n <= N));
    OBL_ASSUME(p < N);
    OBL_REQUIRE(&a.lock(a.valid()) == buf && &a.lock(a.valid(), int(p)) == buf + p && &static_cast<const A&>(a).clock(a.offset(a.valid(), p)) == buf + p);
    OBL_END;
}
template <class T> void runtime_buffer(T* buf, uint16_t size, uint16_t n, uint16_t p, int16_t by)
{
    typedef estd::layer3::allocator<T> A;
    A a(buf, size);
    OBL_REQUIRE(a.max_size() == size && a.size(true) == size && bool(a.allocate(n)) == (n <= size) && bool(a.reallocate_ext(a.valid(), n)) == (n <= size));
    OBL_REQUIRE(&a.lock(a.valid()) == buf && &a.lock(a.valid(), p) == buf + p && &a.lock(a.offset(a.valid(), p), 1) == buf + (p + 1) && &static_cast<const A&>(a).clock(a.valid(), p) == buf + p);
    A b(a);
    OBL_REQUIRE(&b.lock(b.valid()) == buf && b.max_size() == size);
    // moved along: the end stays where it was
    b.adjust_offset_exp(b.valid(), p);
    OBL_REQUIRE(&b.lock(b.valid()) == buf + p && b.max_size() == size_t(size) - p);
    b.adjust_offset_exp(b.valid(), -ptrdiff_t(p));
    OBL_REQUIRE(&b.lock(b.valid()) == buf && b.max_size() == size);
    b.set_size_exp(b.valid(), n);
    OBL_REQUIRE(b.max_size() == n && &b.lock(b.valid()) == buf && a.max_size() == size);
    OBL_END;
}
// ---- descriptors: an allocator with what it has allocated
template <class T, size_t N> void described(size_t n, unsigned p, T v, T w)
{
    typedef estd::layer1::allocator<T, N> A;
    A a;
    T* base = &a.lock(a.valid());
    estd::handle_descriptor<A&> d(a);
    OBL_REQUIRE(&d.get_allocator() == &a && d.size() == N && d.max_size() == N);
    OBL_ASSUME(p < N - 1);
    OBL_REQUIRE(&d.lock(p) == base + p && &d.clock(p) == base + p);
    d.unlock(); d.cunlock();
    const T src[2] = {v, w};
    d.copy_into(src, p, 2);
    OBL_REQUIRE(base[p] == v && base[p + 1] == w);
    OBL_END;
}
}
#define EACH(f) (void*)&oblt::f<char, 1>, (void*)&oblt::f<char, 10>, (void*)&oblt::f<int, 10>, (void*)&oblt::f<I, 255>, (void*)&oblt::f<char, 256>, (void*)&oblt::f<short, 300>, (void*)&oblt::f<char, 65535>, (void*)&oblt::f<int, 65536>
OBL_INSTANCES(own_buffer, EACH(own_buffer))
#define ORDERS(...) (void*)&oblt::positions<__VA_ARGS__, -1>, (void*)&oblt::positions<__VA_ARGS__, 0>, (void*)&oblt::positions<__VA_ARGS__, 1>
OBL_INSTANCES(positions, ORDERS(char, 10, 4), ORDERS(I, 200, 64), ORDERS(char, 256, 128), ORDERS(short, 300, 128), ORDERS(char, 65535, 0x8000), ORDERS(int, 65536, 0x8000))
OBL_INSTANCES(referred_buffer, EACH(referred_buffer))
OBL_INSTANCES(runtime_buffer, (void*)&oblt::runtime_buffer<char>, (void*)&oblt::runtime_buffer<int>, (void*)&oblt::runtime_buffer<I>)
OBL_INSTANCES(described, (void*)&oblt::described<int, 10>, (void*)&oblt::described<char, 300>)

// ---- positions in containers over these allocators
namespace oblt {
template <class V, unsigned p, unsigned q> void walked(V& v)
{
    constexpr int order = p < q ? -1 : p > q;
    typedef typename V::iterator It;
    It b = v.begin(), i = b + ptrdiff_t(p), j = b + ptrdiff_t(q);
    auto* base = &*b;
    OBL_REQUIRE(&*i == base + p && &*j == base + q);
    OBL_REQUIRE((i == j) == (order == 0) && (i != j) == (order != 0) && (i < j) == (order < 0) && (i > j) == (order > 0) && (i >= j) == (order >= 0));
    OBL_REQUIRE(i - j == ptrdiff_t(p) - ptrdiff_t(q) && i - b == ptrdiff_t(p) && b - i == -ptrdiff_t(p));
    It k(i);
    OBL_REQUIRE(k == i && &*k == base + p);
    It& r = ++k;
    OBL_REQUIRE(&r == &k && &*k == base + (p + 1) && k - i == 1 && i < k && k != i);
    It was = k++;
    OBL_REQUIRE(&*was == base + (p + 1) && k - i == 2);
    It& l = --k;
    OBL_REQUIRE(&l == &k && k == was);
    was = k--;
    OBL_REQUIRE(&*was == base + (p + 1) && k == i);
    k += 3;
    OBL_REQUIRE(k - i == 3);
    k -= 2;
    OBL_REQUIRE(k - i == 1 && k - 1 == i && (k - 1) - i == 0 && k - i == 1);
    OBL_END;
}
template <class T, size_t N, unsigned p, unsigned q> void vector_walked() { estd::layer1::vector<T, N> v; walked<estd::layer1::vector<T, N>, p, q>(v); }
template <size_t N, unsigned p, unsigned q> void string_walked() { estd::layer1::string<N> v; walked<estd::layer1::string<N>, p, q>(v); }
template <unsigned p, unsigned q> void layer2_walked() { char buf[40]; estd::layer2::string<40> v(buf); walked<decltype(v), p, q>(v); }
}
#define AT(f, ...) (void*)&oblt::f<__VA_ARGS__, 0, 0>, (void*)&oblt::f<__VA_ARGS__, 0, 1>, (void*)&oblt::f<__VA_ARGS__, 3, 1>, (void*)&oblt::f<__VA_ARGS__, 2, 5>, (void*)&oblt::f<__VA_ARGS__, 4, 4>
OBL_INSTANCES(vector_walked, AT(vector_walked, int, 10), AT(vector_walked, char, 254), AT(vector_walked, short, 300), (void*)&oblt::vector_walked<char, 254, 250, 130>, (void*)&oblt::vector_walked<char, 254, 1, 249>,
    (void*)&oblt::vector_walked<short, 300, 290, 3>, (void*)&oblt::vector_walked<short, 300, 254, 256>, (void*)&oblt::vector_walked<int, 70000, 65535, 65536>, (void*)&oblt::vector_walked<int, 70000, 69990, 1>)
OBL_INSTANCES(string_walked, AT(string_walked, 16), AT(string_walked, 254), (void*)&oblt::string_walked<254, 200, 100>, (void*)&oblt::string_walked<300, 254, 257>)
OBL_INSTANCES(layer2_walked, (void*)&oblt::layer2_walked<0, 0>, (void*)&oblt::layer2_walked<1, 3>, (void*)&oblt::layer2_walked<30, 3>)
