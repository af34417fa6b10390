// std: 17
// thorough: 20
// min: 40
// peel: 2
// rounds: 6
#include <estd/utility.h>
#include <estd/tuple.h>
#include <estd/functional.h>
#include <estd/algorithm.h>
#include "obl.h"

typedef int64_t I;
typedef obl::tracked<0> T;
typedef obl::tracked<1> U;
struct only_moves
{
    I v;
    explicit only_moves(I v) : v(v) {}
    only_moves(only_moves&& o) : v(o.v) { o.v = -1; }
    only_moves& operator=(only_moves&& o) { I w = o.v; o.v = -1; v = w; return *this; }
};
#define START() const int t0 = T::live, u0 = U::live; T::copies = T::moves = U::copies = U::moves = 0; OBL_ASSUME(t0 >= 0 && t0 < 1000 && u0 >= 0 && u0 < 1000)
#define ENDED() OBL_REQUIRE(T::live == t0 && U::live == u0)
#define NO_COPIES() OBL_REQUIRE(T::copies == 0 && U::copies == 0)

// ---- swap, exchange
template <class N> void swap_numbers(N a, N b)
{
    struct { N before, x, between, y, after; } s = {a, a, b, b, b};
    estd::swap(s.x, s.y);
    OBL_REQUIRE(s.x == b && s.y == a && s.before == a && s.between == b && s.after == b);
    estd::swap(s.x, s.x);
    OBL_REQUIRE(s.x == b);
    OBL_END;
}
namespace oblt {
template <class N> void swapped(N a, N b) { swap_numbers(a, b); }
template <class N> void exchanged(N a, N b)
{
    N x = a;
    const N old = estd::exchange(x, b);
    OBL_REQUIRE(old == a && x == b);
    const N again = estd::exchange(x, x);
    OBL_REQUIRE(again == b && x == b);
    OBL_END;
}
}
OBL_INSTANCES(swapped, (void*)&oblt::swapped<char>, (void*)&oblt::swapped<signed char>, (void*)&oblt::swapped<unsigned char>, (void*)&oblt::swapped<short>, (void*)&oblt::swapped<unsigned short>,
    (void*)&oblt::swapped<int>, (void*)&oblt::swapped<unsigned>, (void*)&oblt::swapped<long>, (void*)&oblt::swapped<unsigned long>, (void*)&oblt::swapped<long long>, (void*)&oblt::swapped<bool>,
    (void*)&oblt::swapped<const char*>)
OBL_INSTANCES(exchanged, (void*)&oblt::exchanged<char>, (void*)&oblt::exchanged<int>, (void*)&oblt::exchanged<unsigned long>, (void*)&oblt::exchanged<const char*>)
OBL(swap_objects, int a, int b)
{
    START();
    {
        T x(a), y(b);
        estd::swap(x, y);
        OBL_REQUIRE(x.v == b && y.v == a && T::live == t0 + 2);
        NO_COPIES();
        only_moves m(a), n(b);
        estd::swap(m, n);
        OBL_REQUIRE(m.v == b && n.v == a);
        only_moves o = estd::exchange(m, only_moves(7));
        OBL_REQUIRE(o.v == b && m.v == 7);
    }
    ENDED();
    OBL_END;
}
OBL(exchange_objects, int a, int b)
{
    START();
    {
        T x(a), y(b);
        T z = estd::exchange(x, std::move(y));
        OBL_REQUIRE(z.v == a && x.v == b && y.v == -1 && T::live == t0 + 3);
        NO_COPIES();
        T w = estd::exchange(x, {});
        OBL_REQUIRE(w.v == b && x.v == 0);
        NO_COPIES();
        T q = estd::exchange(x, z);
        OBL_REQUIRE(q.v == 0 && x.v == a && z.v == a && T::copies == 1);
    }
    ENDED();
    OBL_END;
}

// ---- pair
OBL(pair_made, int a, int b)
{
    START();
    {
        const T x(a); const U y(b);
        estd::pair<T, U> p(x, y);
        OBL_REQUIRE(p.first.v == a && p.second.v == b && x.v == a && y.v == b && T::live == t0 + 2 && U::live == u0 + 2);
        OBL_REQUIRE(T::copies == 1 && U::copies == 1);
        estd::pair<T, U> q(p);
        OBL_REQUIRE(q.first.v == a && q.second.v == b && p.first.v == a && p.second.v == b);
        const estd::pair<T, U> r(q);
        estd::pair<T, U> s(r);
        OBL_REQUIRE(s.first.v == a && s.second.v == b && r.first.v == a && r.second.v == b);
    }
    ENDED();
    OBL_END;
}
OBL(pair_moved, int a, int b)
{
    START();
    {
        T x(a); U y(b);
        estd::pair<T, U> p(std::move(x), std::move(y));
        OBL_REQUIRE(p.first.v == a && p.second.v == b && x.v == -1 && y.v == -1);
        NO_COPIES();
        estd::pair<T, U> q(std::move(p));
        OBL_REQUIRE(q.first.v == a && q.second.v == b && p.first.v == -1 && p.second.v == -1);
        NO_COPIES();
        estd::pair<T, U> r;
        OBL_REQUIRE(r.first.v == 0 && r.second.v == 0);
        r = std::move(q);
        OBL_REQUIRE(r.first.v == a && r.second.v == b && q.first.v == -1 && q.second.v == -1);
        NO_COPIES();
        r = p;
        OBL_REQUIRE(r.first.v == -1 && r.second.v == -1 && T::copies == 1 && U::copies == 1);
    }
    ENDED();
    OBL_END;
}
// of which one is moved and the other copied
OBL(pair_mixed, int a, int b)
{
    START();
    {
        T x(a); U y(b);
        estd::pair<T, U> p(x, std::move(y));
        OBL_REQUIRE(p.first.v == a && p.second.v == b && x.v == a && y.v == -1 && T::copies == 1 && U::copies == 0);
        estd::pair<T, U> q(std::move(x), p.second);
        OBL_REQUIRE(q.first.v == a && q.second.v == b && x.v == -1 && p.second.v == b && T::copies == 1 && U::copies == 1);
        estd::pair<T, U> r(a, b);
        OBL_REQUIRE(r.first.v == a && r.second.v == b && T::copies == 1);
    }
    ENDED();
    OBL_END;
}
OBL(pair_make, int a, int b)
{
    START();
    {
        auto p = estd::make_pair(T(a), U(b));
        OBL_REQUIRE(p.first.v == a && p.second.v == b);
        NO_COPIES();
        auto q = estd::make_pair(p.first, U(b));
        OBL_REQUIRE(q.first.v == a && p.first.v == a && T::copies == 1 && U::copies == 0);
        auto m = estd::make_pair(only_moves(a), 5);
        OBL_REQUIRE(m.first.v == a && m.second == 5);
    }
    ENDED();
    OBL_END;
}
OBL(pair_piecewise, int a, int b, int c)
{
    START();
    {
        estd::pair<T, U> p(estd::piecewise_construct_t{}, estd::forward_as_tuple(std::move(a), std::move(b)), estd::forward_as_tuple(std::move(c)));
        OBL_REQUIRE(p.first.v == (a ^ b) && p.second.v == c);
        NO_COPIES();
    }
    ENDED();
    OBL_END;
}
template <class P> void swap_pairs(int a, int b, int c, int d)
{
    START();
    {
        P p(a, b), q(c, d);
        estd::swap(p, q);
        OBL_REQUIRE(p.first.v == c && p.second.v == d && q.first.v == a && q.second.v == b);
        NO_COPIES();
        p.swap(q);
        OBL_REQUIRE(p.first.v == a && p.second.v == b && q.first.v == c && q.second.v == d);
        NO_COPIES();
    }
    ENDED();
    OBL_END;
}
OBL(pair_swap, int a, int b, int c, int d) { swap_pairs<estd::pair<T, U> >(a, b, c, d); }
OBL(pair_swap_numbers, int a, I b, int c, I d)
{
    struct { int before; estd::pair<int, I> p; int between; estd::pair<int, I> q; int after; } s = {a, {a, b}, b > 0, {c, d}, c};
    s.p.swap(s.q);
    OBL_REQUIRE(s.p.first == c && s.p.second == d && s.q.first == a && s.q.second == b && s.before == a && s.after == c && s.between == (b > 0));
    s.p.swap(s.p);
    OBL_REQUIRE(s.p.first == c && s.p.second == d);
    OBL_END;
}
// compared by the first, then by the second
namespace oblt {
template <int first, int second, class A, class B> void pair_compared(A a, B b, A c, B d)
{
    OBL_ASSUME(first < 0 ? a < c : first > 0 ? c < a : a == c);
    OBL_ASSUME(second < 0 ? b < d : second > 0 ? d < b : b == d);
    constexpr int order = first ? first : second;
    const estd::pair<A, B> p(a, b), q(c, d);
    OBL_REQUIRE((p == q) == (order == 0));
    OBL_REQUIRE((p != q) == (order != 0));
    OBL_REQUIRE((p < q) == (order < 0));
    OBL_REQUIRE((p > q) == (order > 0));
    OBL_REQUIRE((q == p) == (order == 0));
    OBL_REQUIRE((q != p) == (order != 0));
    OBL_REQUIRE((q < p) == (order > 0));
    OBL_REQUIRE((q > p) == (order < 0));
    OBL_END;
}
}
#define PAIRS2(f, ...) (void*)&oblt::pair_compared<f, -1, __VA_ARGS__>, (void*)&oblt::pair_compared<f, 0, __VA_ARGS__>, (void*)&oblt::pair_compared<f, 1, __VA_ARGS__>
#define PAIRS(...) PAIRS2(-1, __VA_ARGS__), PAIRS2(0, __VA_ARGS__), PAIRS2(1, __VA_ARGS__)
OBL_INSTANCES(pair_compared, PAIRS(int, int), PAIRS(unsigned char, I), PAIRS(I, char), PAIRS(short, unsigned))
OBL(pair_get, int a, I b, int c, I d)
{
    estd::pair<int, I> p(a, b);
    const estd::pair<int, I>& k = p;
    OBL_REQUIRE(&estd::get<0>(p) == &p.first && &estd::get<1>(p) == &p.second && &estd::get<0>(k) == &p.first && &estd::get<1>(k) == &p.second);
    estd::get<0>(p) = c;
    estd::get<1>(p) = d;
    OBL_REQUIRE(p.first == c && p.second == d);
    typedef estd::pair<int, I> P;
    OBL_STATIC(pair_size, estd::tuple_size<P>::value == 2);
    OBL_STATIC(pair_element, estd::is_same<estd::tuple_element<0, P>::type, int>::value && estd::is_same<estd::tuple_element<1, P>::type, I>::value);
    OBL_STATIC(pair_types, estd::is_same<P::first_type, int>::value && estd::is_same<P::second_type, I>::value);
    OBL_END;
}

// ---- tuple
OBL(tuple_elements, int a, I b, char c, int d)
{
    struct { I before; estd::tuple<int, I, char> t; I after; } s = {b, estd::tuple<int, I, char>(int(a), I(b), char(c)), b};
    auto& t = s.t;
    const auto& k = t;
    OBL_REQUIRE(estd::get<0>(t) == a && estd::get<1>(t) == b && estd::get<2>(t) == c);
    OBL_REQUIRE(&estd::get<0>(k) == &estd::get<0>(t) && &estd::get<1>(k) == &estd::get<1>(t) && &estd::get<2>(k) == &estd::get<2>(t));
    OBL_REQUIRE(&estd::get<int>(t) == &estd::get<0>(t) && &estd::get<I>(t) == &estd::get<1>(t) && &estd::get<char>(t) == &estd::get<2>(t));
    OBL_REQUIRE(&estd::get<int>(k) == &estd::get<0>(t) && &estd::get<I>(k) == &estd::get<1>(t) && &estd::get<char>(k) == &estd::get<2>(t));
    estd::get<0>(t) = d;
    OBL_REQUIRE(estd::get<0>(t) == d && estd::get<1>(t) == b && estd::get<2>(t) == c);
    estd::get<2>(t) = char(d);
    OBL_REQUIRE(estd::get<0>(t) == d && estd::get<1>(t) == b && estd::get<2>(t) == char(d) && s.before == b && s.after == b);
    estd::get<1>(t) = d;
    OBL_REQUIRE(estd::get<0>(t) == d && estd::get<1>(t) == d && estd::get<2>(t) == char(d) && s.before == b && s.after == b);
    OBL_END;
}
// elements of one type are distinct objects
OBL(tuple_same_type, int a, int b, int c, int d)
{
    estd::tuple<int, int, int> t{int(a), int(b), int(c)};
    OBL_REQUIRE(estd::get<0>(t) == a && estd::get<1>(t) == b && estd::get<2>(t) == c);
    estd::get<1>(t) = d;
    OBL_REQUIRE(estd::get<0>(t) == a && estd::get<1>(t) == d && estd::get<2>(t) == c);
    const estd::tuple<int, int, int> u(t);
    estd::get<0>(t) = d;
    OBL_REQUIRE(estd::get<0>(u) == a && estd::get<1>(u) == d && estd::get<2>(u) == c);
    OBL_END;
}
OBL(tuple_objects, int a, int b)
{
    START();
    {
        T x(a);
        estd::tuple<T, U> t(std::move(x), U(b));
        OBL_REQUIRE(estd::get<0>(t).v == a && estd::get<1>(t).v == b && x.v == -1 && U::live == u0 + 1 && T::live == t0 + 2);
        NO_COPIES();
        estd::tuple<T, U> u(std::move(t));
        OBL_REQUIRE(estd::get<0>(u).v == a && estd::get<1>(u).v == b && estd::get<0>(t).v == -1 && estd::get<1>(t).v == -1);
        NO_COPIES();
    }
    ENDED();
    OBL_END;
}
OBL(tuple_copied, int a, int b)
{
    START();
    {
        T x(a);
        estd::tuple<T, U> t(x, U(b));
        OBL_REQUIRE(estd::get<0>(t).v == a && x.v == a && T::copies == 1 && U::copies == 0);
        const estd::tuple<T, U> u(t);
        OBL_REQUIRE(estd::get<0>(u).v == a && estd::get<1>(u).v == b && estd::get<0>(t).v == a && estd::get<1>(t).v == b);
        OBL_REQUIRE(T::copies == 2 && U::copies == 1);
        estd::tuple<T, U> d;
        OBL_REQUIRE(estd::get<0>(d).v == 0 && estd::get<1>(d).v == 0);
    }
    ENDED();
    OBL_END;
}
OBL(tuple_taken, int a, int b)
{
    START();
    {
        estd::tuple<T, U> t{T(a), U(b)};
        T x(estd::get<0>(std::move(t)));
        OBL_REQUIRE(x.v == a && estd::get<0>(t).v == -1 && estd::get<1>(t).v == b);
        U y(estd::get<U>(std::move(t)));
        OBL_REQUIRE(y.v == b && estd::get<1>(t).v == -1);
        NO_COPIES();
    }
    ENDED();
    OBL_END;
}
OBL(tuple_references, int a, I b, int c, I d)
{
    estd::tuple<int&, I&> t(a, b);
    OBL_REQUIRE(&estd::get<0>(t) == &a && &estd::get<1>(t) == &b);
    const estd::tuple<int&, I&> u(t);
    OBL_REQUIRE(&estd::get<0>(u) == &a && &estd::get<1>(u) == &b);
    estd::get<0>(t) = c;
    estd::get<1>(u) = d;
    OBL_REQUIRE(a == c && b == d);
    auto f = estd::forward_as_tuple(a, static_cast<const I&>(b));
    OBL_STATIC(forwarded_lvalues, estd::is_same<decltype(f), estd::tuple<int&, const I&> >::value);
    OBL_REQUIRE(&estd::get<0>(f) == &a && &estd::get<1>(f) == &b);
    OBL_STATIC(forwarded_rvalues, estd::is_same<decltype(estd::forward_as_tuple(std::move(a), std::move(b))), estd::tuple<int&&, I&&> >::value);
    OBL_END;
}
OBL(tuple_made, int a, int b)
{
    START();
    {
        auto t = estd::make_tuple(T(a), U(b), 5);
        OBL_STATIC(made_of_values, estd::is_same<decltype(t), estd::tuple<T, U, int> >::value);
        OBL_REQUIRE(estd::get<0>(t).v == a && estd::get<1>(t).v == b && estd::get<2>(t) == 5 && T::live == t0 + 1);
        NO_COPIES();
    }
    ENDED();
    OBL_END;
}
// ---- apply: elements as arguments in order, as they are (references, moved from only when the tuple is a temporary)
OBL(tuple_apply, int a, I b, char c)
{
    estd::tuple<int, I, char> t{int(a), I(b), char(c)};
    const auto& k = t;
    int calls = 0;
    const I r = estd::apply([&](int& x, I& y, char& z)
    {
        calls++;
        OBL_REQUIRE(&x == &estd::get<0>(t) && &y == &estd::get<1>(t) && &z == &estd::get<2>(t));
        x++;
        return y;
    }, t);
    OBL_REQUIRE(calls == 1 && r == b && estd::get<0>(t) == int(unsigned(a) + 1) && estd::get<1>(t) == b && estd::get<2>(t) == c);
    estd::apply([&](const int& x, const I& y, const char& z)
    {
        calls++;
        OBL_REQUIRE(&x == &estd::get<0>(t) && &y == &estd::get<1>(t) && &z == &estd::get<2>(t));
    }, k);
    I& ref = estd::apply([&](int, I& y, char) -> I& { calls++; return y; }, t);
    OBL_REQUIRE(&ref == &estd::get<1>(t) && calls == 3);
    const int none = estd::apply([&]() { return ++calls; }, estd::tuple<>());
    OBL_REQUIRE(none == 4 && calls == 4);
    OBL_END;
}
OBL(tuple_apply_moved, int a, int b)
{
    START();
    {
        estd::tuple<T, U> t{T(a), U(b)};
        int calls = 0;
        estd::apply([&](T&& x, U&& y)
        {
            calls++;
            OBL_REQUIRE(&x == &estd::get<0>(t) && &y == &estd::get<1>(t));
        }, std::move(t));
        OBL_REQUIRE(calls == 1 && estd::get<0>(t).v == a);
        const int sum = estd::apply([&](T x, U y) { calls++; OBL_REQUIRE(x.v == a && y.v == b); return x.v ^ y.v; }, std::move(t));
        OBL_REQUIRE(calls == 2 && sum == (a ^ b) && estd::get<0>(t).v == -1 && estd::get<1>(t).v == -1);
        NO_COPIES();
    }
    ENDED();
    OBL_END;
}
OBL(from_tuple, int a, int b)
{
    START();
    {
        auto t = estd::make_from_tuple<T>(estd::forward_as_tuple(std::move(a), std::move(b)));
        OBL_REQUIRE(t.v == (a ^ b) && T::live == t0 + 1 && T::copies == 0);
        auto p = estd::make_from_tuple<estd::pair<T, U> >(estd::make_tuple(T(a), U(b)));
        OBL_REQUIRE(p.first.v == a && p.second.v == b && T::live == t0 + 2 && U::live == u0 + 1);
        NO_COPIES();
        auto d = estd::make_from_tuple<U>(estd::tuple<>());
        OBL_REQUIRE(d.v == 0 && U::live == u0 + 2);
    }
    ENDED();
    OBL_END;
}
// ---- empty members take no room and keep out of the way of the others
struct E { int f() const { return 5; } };
struct E2 {};
OBL_STATIC(empty_takes_no_room, sizeof(estd::tuple<E, int>) == sizeof(int) && sizeof(estd::tuple<int, E>) == sizeof(int) && sizeof(estd::tuple<E, int, E>) == sizeof(int)
    && sizeof(estd::tuple<E, int, E2, char>) == 2 * sizeof(int) && sizeof(estd::tuple<E, E2>) <= 2);
OBL_STATIC(tuple_sizes, estd::tuple_size<estd::tuple<> >::value == 0 && estd::tuple_size<estd::tuple<E> >::value == 1 && estd::tuple_size<estd::tuple<E, int, E> >::value == 3);
OBL_STATIC(tuple_element_types, estd::is_same<estd::tuple_element_t<0, estd::tuple<int, E, char> >, int>::value && estd::is_same<estd::tuple_element_t<1, estd::tuple<int, E, char> >, E>::value
    && estd::is_same<estd::tuple_element_t<2, estd::tuple<int, E, char&> >, char&>::value && estd::is_same<estd::tuple_element_t<1, const estd::tuple<int, E, char> >, const E>::value);
OBL(tuple_sparse, int a, char b, int c)
{
    struct { int before; estd::tuple<E, int, E2, char, E> t; int after; } s = {a, estd::tuple<E, int, E2, char, E>(E(), int(a), E2(), char(b), E()), c};
    OBL_REQUIRE(estd::get<1>(s.t) == a && estd::get<3>(s.t) == b && estd::get<0>(s.t).f() == 5 && estd::get<4>(s.t).f() == 5);
    estd::get<1>(s.t) = c;
    OBL_REQUIRE(estd::get<1>(s.t) == c && estd::get<3>(s.t) == b && s.before == a && s.after == c);
    estd::get<3>(s.t) = char(c);
    OBL_REQUIRE(estd::get<1>(s.t) == c && estd::get<3>(s.t) == char(c) && s.before == a && s.after == c);
    const auto u = s.t;
    OBL_REQUIRE(estd::get<1>(u) == c && estd::get<3>(u) == char(c));
    int calls = 0;
    estd::apply([&](E x, int& i, E2, char& j, E) { calls++; OBL_REQUIRE(x.f() == 5 && &i == &estd::get<1>(s.t) && &j == &estd::get<3>(s.t)); }, s.t);
    OBL_REQUIRE(calls == 1);
    OBL_END;
}
// ---- visiting: each element in order with its index until one says it is the last; tells its index, or -1
namespace oblt {
template <int stop> void tuple_visit(int a, int b, int c)
{
    estd::tuple<int, int, int> t{int(a), int(b), int(c)};
    const auto& k = t;
    int n = 0;
    const int* const at[] = {&estd::get<0>(t), &estd::get<1>(t), &estd::get<2>(t)};
    const int which = t.visit([&](auto vi, int extra)
    {
        OBL_REQUIRE(int(vi.index) == n && &vi.value == at[n] && extra == b);
        n++;
        return n - 1 == stop;
    }, b);
    OBL_REQUIRE(n == (stop < 0 ? 3 : stop + 1));
    OBL_REQUIRE(which == stop);
    n = 0;
    const int kwhich = k.visit([&](auto vi)
    {
        OBL_REQUIRE(int(vi.index) == n && &vi.value == at[n]);
        n++;
        return n - 1 == stop;
    });
    OBL_REQUIRE(n == (stop < 0 ? 3 : stop + 1));
    OBL_REQUIRE(kwhich == stop);
    OBL_REQUIRE(estd::get<0>(t) == a && estd::get<1>(t) == b && estd::get<2>(t) == c);
    OBL_END;
}
}
OBL_INSTANCES(tuple_visit, (void*)&oblt::tuple_visit<-1>, (void*)&oblt::tuple_visit<0>, (void*)&oblt::tuple_visit<1>, (void*)&oblt::tuple_visit<2>)
OBL(tuple_visit_changes, int a, I b, int c)
{
    estd::tuple<int, E, I> t{int(a), E(), I(b)};
    int n = 0;
    t.visit([&](auto vi) { n++; if constexpr(vi.index != 1) vi.value = c; return false; });
    OBL_REQUIRE(n == 3 && estd::get<0>(t) == c && estd::get<2>(t) == c);
    const int none = estd::tuple<>().visit([&](auto) { n++; return true; });
    OBL_REQUIRE(n == 3 && none == -1);
    OBL_END;
}
