// std: 17
// thorough: 20
// min: 30
// peel: 2
// rounds: 6
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/optional.h>
#include <estd/variant.h>
#include "obl.h"

typedef int64_t I;
typedef obl::tracked<0> T;
using estd::is_same;
struct S { int v; I w; int f(int x) { return v ^ x; } int k(int x) const { return v + x; } S* self() & { return this; } };
static int plain(int a, I b) { return a ^ int(b); }
static int& pass(int& a) { return a; }

namespace oblt {
// ---- comparing function objects
template <class V> void compares(V a, V b)
{
    OBL_REQUIRE(estd::less<V>()(a, b) == (a < b) && estd::greater<V>()(a, b) == (a > b));
    OBL_REQUIRE(estd::equal_to<V>()(a, b) == (a == b) && estd::not_equal_to<V>()(a, b) == (a != b));
    OBL_REQUIRE(estd::equal_to<>()(a, b) == (a == b) && estd::not_equal_to<>()(a, b) == (a != b));
    OBL_END;
}
// ---- hash of integers is their value
template <class V> void hash_of_integer(V a)
{
    OBL_REQUIRE(estd::hash<V>()(a) == size_t(a));
    OBL_END;
}
// ---- FNV as published: multiplication by the prime and exclusive or, per octet, in the order of the flavor
template <size_t n, estd::internal::fnv_modes mode, class C> void fnv32(C c0, C c1, C c2, C c3, uint32_t start)
{
    const C s[4] = {c0, c1, c2, c3};
    uint32_t h = 0x811c9dc5u, g = start;
    for(size_t i = 0; i < n; i++)
    {
        if(mode == estd::internal::FNV_1) { h = uint32_t(h * 16777619u); h ^= uint8_t(s[i]); g = uint32_t(g * 16777619u); g ^= uint8_t(s[i]); }
        else { h ^= uint8_t(s[i]); h = uint32_t(h * 16777619u); g ^= uint8_t(s[i]); g = uint32_t(g * 16777619u); }
    }
    const uint32_t r = estd::internal::fnv_hash<uint32_t, mode>::hash(s, s + n);
    OBL_REQUIRE(r == h);
    const uint32_t q = estd::internal::fnv_hash<uint32_t, mode>::hash(s, s + n, start);
    OBL_REQUIRE(q == g);
    OBL_END;
}
template <size_t n, estd::internal::fnv_modes mode, class C> void fnv64(C c0, C c1, C c2, C c3, uint64_t start)
{
    const C s[4] = {c0, c1, c2, c3};
    uint64_t h = 0xcbf29ce484222325ull, g = start;
    for(size_t i = 0; i < n; i++)
    {
        if(mode == estd::internal::FNV_1) { h *= 1099511628211ull; h ^= uint8_t(s[i]); g *= 1099511628211ull; g ^= uint8_t(s[i]); }
        else { h ^= uint8_t(s[i]); h *= 1099511628211ull; g ^= uint8_t(s[i]); g *= 1099511628211ull; }
    }
    const uint64_t r = estd::internal::fnv_hash<uint64_t, mode>::hash(s, s + n);
    OBL_REQUIRE(r == h);
    const uint64_t q = estd::internal::fnv_hash<uint64_t, mode>::hash(s, s + n, start);
    OBL_REQUIRE(q == g);
    OBL_END;
}
// texts of equal content hash alike, whatever holds them
template <size_t n> void hash_of_text(char c0, char c1, char c2)
{
    const char s[4] = {c0, c1, c2, 0};
    OBL_ASSUME(c0 && c1 && c2);
    const size_t h = estd::internal::fnv_hash<uint32_t>::hash(s, s + n);
    estd::string_view v(s, n);
    OBL_REQUIRE(estd::hash<estd::string_view>()(v) == h);
    OBL_END;
}
}
#define INTS(f) OBL_INSTANCES(f, (void*)&oblt::f<char>, (void*)&oblt::f<signed char>, (void*)&oblt::f<unsigned char>, (void*)&oblt::f<short>, (void*)&oblt::f<unsigned short>, (void*)&oblt::f<int>, (void*)&oblt::f<unsigned>, \
    (void*)&oblt::f<long>, (void*)&oblt::f<unsigned long>, (void*)&oblt::f<long long>, (void*)&oblt::f<bool>)
INTS(compares) INTS(hash_of_integer)
#define FNV(f, C) (void*)&oblt::f<0, estd::internal::FNV_1, C>, (void*)&oblt::f<1, estd::internal::FNV_1, C>, (void*)&oblt::f<2, estd::internal::FNV_1, C>, (void*)&oblt::f<4, estd::internal::FNV_1, C>, \
    (void*)&oblt::f<0, estd::internal::FNV_1A, C>, (void*)&oblt::f<1, estd::internal::FNV_1A, C>, (void*)&oblt::f<2, estd::internal::FNV_1A, C>, (void*)&oblt::f<4, estd::internal::FNV_1A, C>
OBL_INSTANCES(fnv32, FNV(fnv32, char), FNV(fnv32, unsigned char))
OBL_INSTANCES(fnv64, FNV(fnv64, char), FNV(fnv64, unsigned char))
OBL_INSTANCES(hash_of_text, (void*)&oblt::hash_of_text<0>, (void*)&oblt::hash_of_text<1>, (void*)&oblt::hash_of_text<3>)
// reference values of the FNV authors
OBL(fnv_vectors)
{
    const char s[] = "foobar", a[] = "a";
    OBL_REQUIRE(estd::internal::fnv_hash<uint32_t>::hash(s, s + 6) == 0xbf9cf968u);
    OBL_REQUIRE(estd::internal::fnv_hash<uint32_t>::hash(a, a + 1) == 0xe40c292cu);
    OBL_REQUIRE((estd::internal::fnv_hash<uint32_t, estd::internal::FNV_1>::hash(s, s + 6) == 0x31f0b262u));
    OBL_REQUIRE(estd::internal::fnv_hash<uint64_t>::hash(s, s + 6) == 0x85944171f73967e8ull);
    OBL_REQUIRE((estd::internal::fnv_hash<uint64_t, estd::internal::FNV_1>::hash(s, s + 6) == 0x340d8765a4dda9c2ull));
    OBL_REQUIRE(estd::hash<estd::string_view>()(estd::string_view(s, 6)) == 0xbf9cf968u);
    OBL_END;
}
OBL(hash_of_optional, int a)
{
    const estd::optional<int> o(a);
    OBL_REQUIRE(estd::hash<estd::optional<int> >()(o) == estd::hash<int>()(a));
    OBL_END;
}
// ---- references as objects
OBL(reference_wrapper, int a, int b)
{
    auto r = estd::ref(a);
    OBL_STATIC(ref_type, is_same<decltype(r), estd::reference_wrapper<int> >::value && is_same<decltype(estd::cref(a)), estd::reference_wrapper<const int> >::value);
    OBL_REQUIRE(&r.get() == &a && &static_cast<int&>(r) == &a && &estd::cref(a).get() == &a);
    auto s = r;
    OBL_REQUIRE(&s.get() == &a);
    auto t = estd::ref(b);
    const int was = a;
    s = t;
    OBL_REQUIRE(&s.get() == &b && &r.get() == &a && a == was);
    r.get() = 5;
    OBL_REQUIRE(a == 5);
    const auto k = s;
    k.get() = was;
    OBL_REQUIRE(b == was && a == 5);
    OBL_END;
}
struct odd_address { int v; odd_address* operator&() { return nullptr; } };
OBL(reference_of_odd, int v)
{
    struct { int before; odd_address o; } s = {v, {v}};
    auto r = estd::ref(s.o);
    r.get().v = 7;
    OBL_REQUIRE(s.o.v == 7 && s.before == v);
    OBL_END;
}
// ---- invoke
OBL(invokes, int a, I b, int x)
{
    S s{a, b};
    const S k{a, b};
    S* p = &s;
    OBL_REQUIRE(estd::invoke(plain, a, b) == (a ^ int(b)) && estd::invoke(&plain, a, b) == (a ^ int(b)));
    OBL_REQUIRE(&estd::invoke(pass, x) == &x);
    OBL_REQUIRE(estd::invoke(&S::f, s, x) == (a ^ x) && estd::invoke(&S::f, p, x) == (a ^ x) && estd::invoke(&S::f, estd::ref(s), x) == (a ^ x));
    OBL_REQUIRE(estd::invoke(&S::k, k, x) == int(unsigned(a) + unsigned(x)) && estd::invoke(&S::k, p, x) == int(unsigned(a) + unsigned(x)));
    OBL_REQUIRE(estd::invoke(&S::self, s) == &s && estd::invoke(&S::self, estd::ref(s)) == &s && estd::invoke(&S::self, p) == &s);
    OBL_REQUIRE(&estd::invoke(&S::w, s) == &s.w && &estd::invoke(&S::w, p) == &s.w && &estd::invoke(&S::w, k) == &k.w && &estd::invoke(&S::w, estd::ref(s)) == &s.w);
    int calls = 0;
    int& r = estd::invoke([&](int& y) -> int& { calls++; return y; }, x);
    OBL_REQUIRE(&r == &x && calls == 1);
    estd::invoke([&]() { calls++; });
    OBL_REQUIRE(calls == 2);
    OBL_STATIC(invoke_results, is_same<estd::invoke_result_t<decltype(&S::f), S&, int>, int>::value && is_same<estd::invoke_result_t<decltype(&S::w), S&>, I&>::value
        && is_same<estd::invoke_result_t<decltype(&S::w), const S&>, const I&>::value && is_same<estd::invoke_result_t<decltype(&S::w), S*>, I&>::value
        && is_same<estd::invoke_result_t<decltype(&plain), int, I>, int>::value && is_same<estd::invoke_result_t<decltype(&S::self), estd::reference_wrapper<S> >, S*>::value);
    OBL_END;
}
OBL(invoke_moves, int a)
{
    const int t0 = T::live; OBL_ASSUME(t0 >= 0 && t0 < 1000);
    T::copies = 0;
    {
        T t(a);
        T r = estd::invoke([](T x) { return x; }, std::move(t));
        OBL_REQUIRE(r.v == a && t.v == -1 && T::copies == 0);
    }
    OBL_REQUIRE(T::live == t0);
    OBL_END;
}
// the object keeps its value category on the way to the call
struct Q { int v; int f() & { return v ^ 1; } int f() && { return v ^ 2; } int g() const & { return v ^ 4; } int g() && { return v ^ 8; } int operator()(int x) & { return v ^ x; } int operator()(int x) && { return ~(v ^ x); } };
struct to_q { Q* q; Q& operator*() & { return q[0]; } Q& operator*() && { return q[1]; } };
OBL(invoke_categories, int a, int b, int x)
{
    Q q{a};
    int (Q::* lf)() & = &Q::f; int (Q::* rf)() && = &Q::f;
    int (Q::* rg)() && = &Q::g; int (Q::* kg)() const & = &Q::g;
    OBL_REQUIRE(estd::invoke(lf, q) == (a ^ 1) && estd::invoke(rf, Q{b}) == (b ^ 2) && estd::invoke(rf, std::move(q)) == (a ^ 2));
    OBL_REQUIRE(estd::invoke(rg, Q{b}) == (b ^ 8) && estd::invoke(kg, q) == (a ^ 4));
    OBL_REQUIRE(estd::invoke(q, x) == (a ^ x) && estd::invoke(Q{b}, x) == ~(b ^ x));
    Q two[2] = {{a}, {b}};
    to_q t{two};
    OBL_REQUIRE(estd::invoke(lf, t) == (a ^ 1) && estd::invoke(lf, to_q{two}) == (b ^ 1) && &estd::invoke(&Q::v, t) == &two[0].v && &estd::invoke(&Q::v, to_q{two}) == &two[1].v);
    OBL_STATIC(invoke_keeps_category, is_same<decltype(estd::invoke(&Q::v, Q{1})), int&&>::value && is_same<decltype(estd::invoke(&Q::v, std::declval<const Q&>())), const int&>::value
        && is_same<decltype(estd::invoke(&Q::v, std::declval<const Q*>())), const int&>::value && is_same<decltype(estd::invoke(pass, std::declval<int&>())), int&>::value);
    OBL_END;
}
struct takes { int v; int eat(T x, T&& y) { T z(std::move(y)); v = x.v ^ z.v; return v; } };
OBL(invoke_method_moves, int a, int b)
{
    const int t0 = T::live; OBL_ASSUME(t0 >= 0 && t0 < 1000);
    T::copies = 0;
    {
        T t(a), u(b);
        takes k{0};
        OBL_REQUIRE(estd::invoke(&takes::eat, k, std::move(t), std::move(u)) == (a ^ b));
        OBL_REQUIRE(t.v == -1 && u.v == -1 && T::copies == 0 && k.v == (a ^ b));
        T w(b), y(a);
        takes* p = &k;
        OBL_REQUIRE(estd::invoke(&takes::eat, p, w, std::move(y)) == (a ^ b));
        OBL_REQUIRE(w.v == b && T::copies == 1);
    }
    OBL_REQUIRE(T::live == t0);
    OBL_END;
}
struct built { T t; int* where; built(T&& x, int& y) : t(std::move(x)), where(&y) {} built(const T& x, int& y) : t(x), where(&y) {} };
OBL(instance_wrapper_forwards, int a, int b)
{
    const int t0 = T::live; OBL_ASSUME(t0 >= 0 && t0 < 1000);
    T::copies = 0;
    {
        T t(a);
        estd::experimental::instance_wrapper<built> w;
        built& r = w.construct(std::move(t), b);
        OBL_REQUIRE(r.t.v == a && t.v == -1 && r.where == &b && T::copies == 0);
        w.destroy();
        T u(b);
        built& q = w.construct(u, a);
        OBL_REQUIRE(q.t.v == b && u.v == b && q.where == &a && T::copies == 1);
        w.destroy();
    }
    OBL_REQUIRE(T::live == t0);
    OBL_END;
}
// ---- what a signature consists of
template <class F, class R, size_t n, bool method> constexpr bool signature()
{
    typedef estd::function_traits<F> t;
    return is_same<typename t::return_type, R>::value && t::nargs == n && t::is_method == method && t::is_function;
}
static auto a_lambda = [](int, const char*) -> long { return 0; };
OBL_STATIC(signatures, signature<int(char, long), int, 2, false>() && signature<void(), void, 0, false>() && signature<decltype(&S::f), int, 1, true>() && signature<decltype(&S::k), int, 1, true>()
    && signature<int (&)(int&), int, 1, false>() && signature<estd::detail::function<I(int, I)>, I, 2, false>() && signature<decltype(a_lambda), long, 2, true>());
OBL_STATIC(signature_arguments, is_same<estd::function_traits<int(char, long&)>::arg<0>, char>::value && is_same<estd::function_traits<int(char, long&)>::arg<1>, long&>::value
    && is_same<estd::function_traits<decltype(a_lambda)>::arg<1>, const char*>::value && is_same<estd::function_traits<decltype(&S::k)>::class_type, S>::value
    && is_same<estd::function_traits<decltype(&S::f)>::arg<0>, int>::value && is_same<estd::function_traits<decltype(&S::k)>::function_type, int (S::*)(int) const>::value);
// ---- an object in place
OBL(instance_wrapper, int a, int b)
{
    const int t0 = T::live; OBL_ASSUME(t0 >= 0 && t0 < 1000);
    T::copies = 0;
    {
        struct { int before; estd::experimental::instance_wrapper<T> w; int after; } s;
        s.before = a; s.after = b;
        OBL_REQUIRE(T::live == t0);
        T& t = s.w.construct(a, b);
        OBL_REQUIRE(T::live == t0 + 1 && &t == &s.w.value() && t.v == (a ^ b) && s.before == a && s.after == b);
        s.w = T(b);
        OBL_REQUIRE(t.v == b && T::live == t0 + 1);
        OBL_REQUIRE(&static_cast<T&>(s.w) == &t);
        s.w.destroy();
        OBL_REQUIRE(T::live == t0);
    }
    OBL_STATIC(wrapper_room, sizeof(estd::experimental::instance_wrapper<T>) == sizeof(T) && alignof(estd::experimental::instance_wrapper<I>) == alignof(I) && alignof(estd::experimental::instance_wrapper<long double>) == alignof(long double));
    OBL_END;
}
