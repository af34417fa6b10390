// std: 17
// thorough: 20
// min: 31
// peel: 2
// rounds: 4
#include <estd/functional.h>
#include <new>
#include "obl.h"

typedef int64_t I;
typedef obl::tracked<0> T;
using estd::is_same;
#define START() const int t0 = T::live; T::copies = T::moves = 0; OBL_ASSUME(t0 >= 0 && t0 < 1000)
#define ENDED() OBL_REQUIRE(T::live == t0)
namespace di = estd::detail::impl;
namespace ii = estd::internal::impl;
struct adder
{
    I total; int calls;
    I add(int a, I b) { calls++; total += b; return total + a; }
    void note(int a) { calls += a; }
    T pass(T t) { calls++; return t; }
    int& at(int& i) { calls++; return i; }
    I sub(int a, I b) { calls++; return b - a; }
};

namespace oblt {
// ---- a function calls what its model holds: once, with its arguments, yielding its result
template <template <class> class Impl> void calls_callable(int a, I b, I k)
{
    typedef estd::detail::function<I(int, I), Impl<I(int, I)> > F;
    int calls = 0, seen = 0; I other = 0;
    auto l = [&](int x, I y) { calls++; seen = x; other = y; return y ^ k; };
    typename F::template model<decltype(l)> m(std::move(l));
    F f(&m);
    OBL_REQUIRE(bool(f) && calls == 0);
    const I r = f(a, b);
    OBL_REQUIRE(r == (b ^ k) && calls == 1 && seen == a && other == b);
    // a copy calls the same, and one assigned does
    F g(f);
    OBL_REQUIRE(g(a, k) == 0 && calls == 2 && other == k);
    F h;
    OBL_REQUIRE(!bool(h));
    h = g;
    OBL_REQUIRE(bool(h) && h(a, b) == r && calls == 3 && f.getm() == h.getm());
    F n(nullptr);
    OBL_REQUIRE(!bool(n));
    h = n;
    OBL_REQUIRE(!bool(h) && bool(f));
    OBL_END;
}
// the callable keeps its state from call to call
template <template <class> class Impl> void keeps_state(int a, int b)
{
    typedef estd::detail::function<int(int), Impl<int(int)> > F;
    auto m = F::make_model([sum = a](int x) mutable { sum ^= x; return sum; });
    F f(&m);
    OBL_REQUIRE(f(b) == (a ^ b));
    OBL_REQUIRE(f(b) == a);
    F g(f);
    OBL_REQUIRE(g(b) == (a ^ b));
    OBL_REQUIRE(f(0) == (a ^ b));
    OBL_END;
}
template <template <class> class Impl> void returns_nothing(int a)
{
    typedef estd::detail::function<void(int), Impl<void(int)> > F;
    int seen = 0, calls = 0;
    auto m = F::make_model([&](int x) { seen = x; calls++; });
    F f(&m);
    f(a);
    OBL_REQUIRE(seen == a && calls == 1);
    typedef estd::detail::function<void(), Impl<void()> > N;
    auto n = N::make_model([&]() { calls++; });
    N g(&n);
    g();
    OBL_REQUIRE(calls == 2);
    OBL_END;
}
// arguments and results: references stay references, objects are moved on, not copied
template <template <class> class Impl> void passes_references(int a, int b)
{
    typedef estd::detail::function<int&(int&, const int&), Impl<int&(int&, const int&)> > F;
    auto m = F::make_model([&](int& x, const int& y) -> int& { OBL_REQUIRE(&x == &a && &y == &b); x = y; return x; });
    F f(&m);
    const int was = b;
    int& r = f(a, b);
    OBL_REQUIRE(&r == &a && a == was && b == was);
    OBL_END;
}
template <template <class> class Impl> void passes_objects(int a)
{
    START();
    {
        typedef estd::detail::function<T(T), Impl<T(T)> > F;
        int calls = 0;
        auto m = F::make_model([&](T t) { calls++; OBL_REQUIRE(t.v == a); return t; });
        F f(&m);
        T r = f(T(a));
        OBL_REQUIRE(r.v == a && calls == 1 && T::copies == 0 && T::live == t0 + 1);
        T s(a);
        T u = f(s);
        OBL_REQUIRE(u.v == a && s.v == a && T::copies == 1 && T::live == t0 + 3);
    }
    ENDED();
    OBL_END;
}
// what a model holds is made from what is given (moved when it may be) and ends with the model
template <template <class> class Impl> void holds_callable(int a)
{
    START();
    {
        typedef estd::detail::function<int(), Impl<int()> > F;
        T t(a);
        auto l = [t = std::move(t)]() { return t.v; };
        T::copies = 0;
        auto m = F::make_model(std::move(l));
        OBL_REQUIRE(T::copies == 0);
        F f(&m);
        OBL_REQUIRE(f() == a && T::live == t0 + 3);
    }
    ENDED();
    OBL_END;
}
// method of an object
template <template <class> class Impl> void calls_method(int a, I b, I total)
{
    adder x{total, 0}, y{total, 0};
    typedef estd::detail::function<I(int, I), Impl<I(int, I)> > F;
    typename Impl<I(int, I)>::template method_model<adder, &adder::add> m(&x);
    F f(&m);
    OBL_REQUIRE(f(a, b) == total + b + a && x.total == total + b && x.calls == 1 && y.calls == 0 && y.total == total);
    typename Impl<I(int, I)>::template method_model<adder, &adder::sub> s(&y);
    f = F(&s);
    OBL_REQUIRE(f(a, b) == b - a && x.calls == 1 && y.calls == 1);
    OBL_END;
}
}
#define PER_IMPL(f) OBL_INSTANCES(f, (void*)&oblt::f<di::function_fnptr1>, (void*)&oblt::f<di::function_fnptr2>, (void*)&oblt::f<di::function_virtual>)
PER_IMPL(calls_callable) PER_IMPL(keeps_state) PER_IMPL(returns_nothing) PER_IMPL(passes_references) PER_IMPL(passes_objects) PER_IMPL(holds_callable) PER_IMPL(calls_method)
OBL_STATIC(default_function, estd::is_base_of<estd::detail::function<int(int)>, estd::experimental::static_function<int(int)> >::value);

// models which are used once end their callable themselves
OBL(used_once, int a, int b)
{
    START();
    {
        typedef di::function_fnptr2_opt<int(int)> Impl;
        typedef estd::detail::function<int(int), Impl> F;
        T t(a);
        auto l = [t](int x) { return t.v ^ x; };
        typedef Impl::model<decltype(l)> M;
        alignas(M) char room[sizeof(M)];
        M* m = new (room) M(std::move(l));
        OBL_REQUIRE(T::live == t0 + 3);
        F f(m);
        OBL_REQUIRE(f(b) == (a ^ b) && T::live == t0 + 2);
    }
    ENDED();
    {
        typedef di::function_fnptr2_opt<void(int)> Impl;
        typedef estd::detail::function<void(int), Impl> F;
        T t(a);
        int seen = 0;
        auto l = [t, &seen](int x) { seen = t.v ^ x; };
        typedef Impl::model<decltype(l)> M;
        alignas(M) char room[sizeof(M)];
        M* m = new (room) M(std::move(l));
        F f(m);
        f(b);
        OBL_REQUIRE(seen == (a ^ b) && T::live == t0 + 2);
    }
    ENDED();
    OBL_END;
}
// ---- object and method as a function; copies call the object too, whatever became of the original
OBL(method_models, int a, I b, I total)
{
    adder x{total, 0};
    ii::method_model<I(int, I), adder, &adder::add> m(&x);
    typedef estd::detail::function<I(int, I), di::function_fnptr1<I(int, I)> > F;
    F f(&m);
    OBL_REQUIRE(f(a, b) == total + b + a && x.calls == 1);
    OBL_REQUIRE(m(a, b) == total + b + b + a && x.calls == 2);
    OBL_END;
}
OBL(context_function, int a, I b, I total)
{
    adder x{total, 0}, y{total, 0};
    typedef estd::experimental::context_function<decltype(&adder::add), &adder::add> F;
    F f(&x);
    OBL_REQUIRE(bool(f) && f(a, b) == total + b + a && x.calls == 1 && y.calls == 0);
    F g(&y);
    OBL_REQUIRE(g(a, b) == total + b + a && x.calls == 1 && y.calls == 1);
    estd::detail::v2::function<I(int, I), di::function_fnptr1>& base = g;
    OBL_REQUIRE(base(a, 0) == total + b + a && y.calls == 2 && x.calls == 1);
    OBL_END;
}
OBL(thisify_function, int a, int b)
{
    adder x{0, a}, y{0, a};
    typedef estd::internal::thisify_function<void(int)> F;
    F f(F::model<adder, &adder::note>{&x});
    f(b);
    OBL_REQUIRE(x.calls == int(unsigned(a) + unsigned(b)) && y.calls == a);
    F g(F::create<adder, &adder::note>(&y));
    g(b);
    OBL_REQUIRE(x.calls == int(unsigned(a) + unsigned(b)) && y.calls == x.calls);
    OBL_END;
}
// a copy stands on its own: what it calls lies within it
template <class F> bool own_model(const F& f)
{
    return static_cast<const void*>(f.getm()) >= static_cast<const void*>(&f) && static_cast<const void*>(f.getm()) < static_cast<const void*>(&f + 1);
}
OBL(context_function_copied, int a, I b, I total)
{
    adder x{total, 0};
    typedef estd::experimental::context_function<decltype(&adder::add), &adder::add> F;
    F f(&x);
    OBL_REQUIRE(own_model(f));
    F g(f);
    OBL_REQUIRE(own_model(g) && own_model(f));
    F h(std::move(f));
    OBL_REQUIRE(own_model(h));
    OBL_REQUIRE(f(a, b) == total + b + a && x.calls == 1);
    OBL_END;
}
OBL(thisify_function_copied, int a)
{
    adder x{0, a};
    typedef estd::internal::thisify_function<void(int)> F;
    F f(F::model<adder, &adder::note>{&x});
    F g(f);
    OBL_REQUIRE(own_model(g) && own_model(f));
    OBL_END;
}
OBL(inline_function_copied, int a, int b)
{
    auto l = [a](int x) { return a ^ x; };
    typedef estd::experimental::inline_function<decltype(l), int(int)> F;
    F f(std::move(l));
    F g(f);
    F h(std::move(f));
    OBL_REQUIRE(own_model(g) && own_model(h) && own_model(f));
    OBL_REQUIRE(f(b) == (a ^ b));
    OBL_END;
}
OBL(inline_function_life, int a)
{
    START();
    {
        T t(a);
        auto l = [t]() { return t.v; };
        T::copies = 0;
        estd::experimental::inline_function<decltype(l), int()> f(std::move(l));
        OBL_REQUIRE(f() == a && T::copies == 0 && T::live == t0 + 3);
    }
    ENDED();
    OBL_END;
}
struct from_any { I seen[3]; int n; };
I with_context(int a, I b, from_any* x) { x->seen[0] = a; x->seen[1] = b; x->n++; return a ^ b; }
I with_contexts(int a, from_any* x, char c, I d) { x->seen[0] = a; x->seen[1] = c; x->seen[2] = d; x->n++; return a ^ d; }
OBL(contextify, int a, I b, char c)
{
    from_any x = {{0, 0, 0}, 0};
    typedef estd::internal::contextify_function<I(int, I)> F;
    F::model<from_any*, &with_context> m(&x);
    estd::detail::function<I(int, I), di::function_fnptr1<I(int, I)> > f(&m);
    OBL_REQUIRE(f(a, b) == (a ^ b) && x.n == 1 && x.seen[0] == a && x.seen[1] == b);
    OBL_REQUIRE(f(a, 0) == a && x.n == 2 && x.seen[1] == 0);
    typedef estd::internal::contextify_function<I(int), char, I> G;
    G::model<from_any*, &with_contexts> n(&x, char(c), I(b));
    estd::detail::function<I(int), di::function_fnptr1<I(int)> > g(&n);
    OBL_REQUIRE(g(a) == (a ^ b) && x.n == 3 && x.seen[0] == a && x.seen[1] == c && x.seen[2] == b);
    OBL_END;
}
OBL(static_function, int a, int b)
{
    struct once { int operator()(int x) { n++; return x ^ k; } int k; int n; };
    estd::experimental::static_function<int(int)> f(once{a, 0});
    OBL_REQUIRE(bool(f));
    OBL_END;
}
