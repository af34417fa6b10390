// std: 17
// thorough: 20
// min: 30
// peel: 2
// rounds: 4
#include <estd/bit.h>
#include <estd/flags.h>
#include <estd/cstddef.h>
#include <estd/internal/cstdlib.h>
#include <estd/internal/raise_and_add.h>
#include <estd/internal/value_evaporator.h>
#include <type_traits>
#include "obl.h"

typedef int64_t I;
typedef obl::tracked<0> T;
using estd::is_same;

namespace oblt {
// ---- byteswap: octets in opposite order, the type kept
template <class N> void swapped_bytes(N v, N w)
{
    OBL_STATIC(keeps_the_type, is_same<decltype(estd::byteswap(v)), N>::value);
    typedef typename std::conditional<sizeof(N) == 1, uint8_t, typename std::conditional<sizeof(N) == 2, uint16_t, typename std::conditional<sizeof(N) == 4, uint32_t, uint64_t>::type>::type>::type U;
    U expected = 0;
    for(size_t i = 0; i < sizeof(N); i++) expected = U(expected | (U(U(U(v) >> (8 * i)) & 0xff) << (8 * (sizeof(N) - 1 - i))));
    OBL_REQUIRE(U(estd::byteswap(v)) == expected);
    OBL_REQUIRE(estd::byteswap(estd::byteswap(w)) == w);
    OBL_END;
}
// ---- value = value * base + addend, unless it does not fit: then false
template <class N, class D> void raised_and_added(N v, unsigned short base, D add)
{
    N x = v;
    const bool fits = estd::internal::raise_and_add(x, base, add);
    N y = 0, z = 0;
    const bool lost = __builtin_mul_overflow(v, base, &y) || __builtin_add_overflow(y, add, &z);
    OBL_REQUIRE(fits == !lost);
    if(fits) OBL_REQUIRE(x == z);
    OBL_END;
}
template <class N, class D> void raised_and_subtracted(N v, unsigned short base, D sub)
{
    N x = v;
    const bool fits = estd::internal::raise_and_sub(x, base, sub);
    N y = 0, z = 0;
    const bool lost = __builtin_mul_overflow(v, base, &y) || __builtin_sub_overflow(y, sub, &z);
    OBL_REQUIRE(fits == !lost);
    if(fits) OBL_REQUIRE(x == z);
    OBL_END;
}
}
#define INTS(f) OBL_INSTANCES(f, (void*)&oblt::f<char>, (void*)&oblt::f<signed char>, (void*)&oblt::f<unsigned char>, (void*)&oblt::f<short>, (void*)&oblt::f<unsigned short>, (void*)&oblt::f<int>, (void*)&oblt::f<unsigned>, \
    (void*)&oblt::f<long>, (void*)&oblt::f<unsigned long>, (void*)&oblt::f<long long>, (void*)&oblt::f<unsigned long long>, (void*)&oblt::f<char16_t>)
INTS(swapped_bytes)
OBL_INSTANCES(raised_and_added, (void*)&oblt::raised_and_added<int, unsigned char>, (void*)&oblt::raised_and_added<unsigned, unsigned char>, (void*)&oblt::raised_and_added<short, int>, (void*)&oblt::raised_and_added<unsigned char, unsigned char>,
    (void*)&oblt::raised_and_added<I, int>, (void*)&oblt::raised_and_added<signed char, unsigned char>, (void*)&oblt::raised_and_added<unsigned short, int>, (void*)&oblt::raised_and_added<uint64_t, unsigned char>)
OBL_INSTANCES(raised_and_subtracted, (void*)&oblt::raised_and_subtracted<int, unsigned char>, (void*)&oblt::raised_and_subtracted<signed char, unsigned char>, (void*)&oblt::raised_and_subtracted<short, int>, (void*)&oblt::raised_and_subtracted<I, int>)
OBL_STATIC(endians, estd::endian::little != estd::endian::big && estd::endian::native == estd::endian::little);

// ---- flags of an enumeration
enum class Plain { none, a = 1, b = 2, c = 4, top = -0x7fffffff - 1 };
enum class Narrow : unsigned char { none, a = 1, b = 2, top = 0x80 };
enum Old { old_none, old_a = 1, old_b = 2, old_c = 4 };
ESTD_FLAGS(Plain)
ESTD_FLAGS(Narrow)
namespace oblt {
template <class E> void flag_operations(typename estd::underlying_type<E>::type x, typename estd::underlying_type<E>::type y)
{
    typedef typename estd::underlying_type<E>::type N;
    typedef estd::detail::flags<E> F;
    const F f{x}, g{y};
    OBL_REQUIRE(f.value() == E(x) && static_cast<E>(f) == E(x) && static_cast<bool>(f) == (x != 0) && F(E(x)) == f);
    OBL_REQUIRE((f == g) == (x == y) && (f != g) == (x != y) && (f == E(y)) == (x == y));
    OBL_REQUIRE((f | E(y)).value() == E(N(x | y)) && (f & E(y)).value() == E(N(x & y)) && (f ^ E(y)).value() == E(N(x ^ y)) && (~f).value() == E(N(~x)));
    OBL_REQUIRE((f | g).value() == E(N(x | y)) && (f & g).value() == E(N(x & y)) && (f ^ g).value() == E(N(x ^ y)));
    OBL_REQUIRE(f.value() == E(x) && g.value() == E(y));
    F h(f);
    F& r = (h |= g);
    OBL_REQUIRE(&r == &h && h.value() == E(N(x | y)) && g.value() == E(y));
    h = f;
    OBL_REQUIRE(h == f);
    h |= E(y);
    OBL_REQUIRE(h.value() == E(N(x | y)));
    OBL_END;
}
template <class E> void enum_operations(typename estd::underlying_type<E>::type x, typename estd::underlying_type<E>::type y)
{
    typedef typename estd::underlying_type<E>::type N;
    OBL_REQUIRE((E(x) | E(y)).value() == E(N(x | y)) && (E(x) & E(y)).value() == E(N(x & y)) && (E(x) ^ E(y)).value() == E(N(x ^ y)) && (~E(x)).value() == E(N(~x)));
    OBL_REQUIRE(static_cast<bool>(E(x) & E(y)) == ((x & y) != 0));
    const E back = E(x) | E(y);
    OBL_REQUIRE(back == E(N(x | y)));
    OBL_END;
}
}
OBL_INSTANCES(flags, (void*)&oblt::flag_operations<Plain>, (void*)&oblt::flag_operations<Narrow>, (void*)&oblt::enum_operations<Plain>, (void*)&oblt::enum_operations<Narrow>)
OBL_STATIC(flag_room, sizeof(estd::detail::flags<Narrow>) == 1 && sizeof(estd::detail::flags<Plain>) == sizeof(int) && is_same<estd::detail::flags<Narrow>::int_type, unsigned char>::value);

// ---- values which are stored only when they vary
OBL(evaporators, int a, int b)
{
    typedef estd::internal::value_evaporator<int, true> P;
    typedef estd::internal::value_evaporator<int, false, int, 7> Q;
    const P p(a); const Q q(b);
    OBL_REQUIRE(p.value() == a && q.value() == 7 && P(b).value() == b);
    OBL_STATIC(evaporated, !P::is_evaporated && Q::is_evaporated && sizeof(P) == sizeof(int) && estd::is_empty<Q>::value);
    struct E { int f() const { return 3; } };
    struct V { int v; };
    typedef estd::internal::struct_evaporator<E> SE;
    typedef estd::internal::struct_evaporator<V> SV;
    SV v(V{a});
    OBL_REQUIRE(v.value().v == a);
    v.value().v = b;
    const SV& k = v;
    OBL_REQUIRE(k.value().v == b && &k.value() == &v.value());
    const SE e;
    OBL_REQUIRE(e.value().f() == 3);
    OBL_STATIC(struct_evaporated, SE::is_evaporated && !SV::is_evaporated && estd::is_empty<SE>::value && sizeof(SV) == sizeof(V));
    estd::internal::reference_evaporator<int, true> r(a);
    OBL_REQUIRE(&r.value() == &a);
    estd::internal::reference_evaporator<E, false> n{E()};
    OBL_REQUIRE(n.value().f() == 3);
    OBL_END;
}
namespace ex = estd::experimental;
static int global_value;
OBL(providers, int a, int b)
{
    ex::instance_provider<int> p(a);
    const auto& kp = p;
    OBL_REQUIRE(p.value() == a && &kp.value() == &p.value());
    p.value(b);
    OBL_REQUIRE(kp.value() == b);
    p.value() = a;
    OBL_REQUIRE(kp.value() == a);
    ex::instance_from_pointer_provider<int> q(&b);
    const auto& kq = q;
    OBL_REQUIRE(&q.value() == &b && &kq.value() == &b && q.value_ptr() == &b);
    q.value_ptr(&a);
    OBL_REQUIRE(&q.value() == &a && kq.value_ptr() == &a);
    ex::pointer_from_instance_provider<int> r(b);
    const auto& kr = r;
    OBL_REQUIRE(*r.value() == b && r.value() == kr.value());
    *r.value() = a;
    OBL_REQUIRE(*kr.value() == a);
    OBL_REQUIRE((ex::global_pointer_provider<int, &global_value>::value() == &global_value));
    typedef ex::global_provider<int&, global_value> G;
    G::value(b);
    OBL_REQUIRE(&G::value() == &global_value && global_value == b);
    OBL_REQUIRE((ex::temporary_provider<int, 9>::value() == 9 && ex::temporary_provider<int>::value() == 0));
    struct { int before; ex::raw_instance_provider<int> w; int after; } s;
    s.before = a; s.after = b;
    s.w.value(a);
    OBL_REQUIRE(s.w.value() == a && s.before == a && s.after == b && sizeof(s.w) == sizeof(int));
    s.w.value() = b;
    const auto& kw = s.w;
    OBL_REQUIRE(kw.value() == b && s.before == a && s.after == b);
    OBL_END;
}
// ---- values which move in and stay movable
OBL(provider_moves, int a, int b)
{
    const int t0 = T::live; OBL_ASSUME(t0 >= 0 && t0 < 1000);
    T::copies = 0;
    {
        T t(a), u(b);
        ex::instance_provider<T> p(std::move(t));
        OBL_REQUIRE(p.value().v == a && t.v == -1 && T::copies == 0);
        p.value(std::move(u));
        OBL_REQUIRE(p.value().v == b && u.v == -1 && T::copies == 0);
        const T k(a);
        p.value(k);
        OBL_REQUIRE(p.value().v == a && k.v == a && T::copies == 1);
        ex::instance_provider<T> q(a, b);
        OBL_REQUIRE(q.value().v == (a ^ b) && T::copies == 1);
        struct alignas(T) { ex::raw_instance_provider<T> w; } h;
        auto& w = h.w;
        new (&w.value()) T(b);
        T m(a);
        w.value(std::move(m));
        OBL_REQUIRE(w.value().v == a && m.v == -1 && T::copies == 1);
        w.value(q.value());
        OBL_REQUIRE(w.value().v == (a ^ b) && q.value().v == (a ^ b) && T::copies == 2);
        w.value().~T();
    }
    OBL_REQUIRE(T::live == t0);
    OBL_END;
}
// ---- octets are bits, not numbers
namespace oblt {
template <class N> void octets(unsigned char x, unsigned char y, N v)
{
    const estd::byte b = estd::byte(x), c = estd::byte(y);
    OBL_REQUIRE(estd::to_integer<N>(b) == N(x) && estd::to_byte(v) == estd::byte((unsigned char)(v)));
    OBL_REQUIRE((b | c) == estd::byte(x | y));
    estd::byte d = b;
    OBL_REQUIRE(&(d |= c) == &d && d == estd::byte(x | y));
    OBL_ASSUME(v >= N(0));
    OBL_ASSUME(v < N(16));
    OBL_REQUIRE((b << v) == estd::byte((unsigned char)(unsigned(x) << unsigned(v))));
    estd::byte e = b, f = b;
    OBL_REQUIRE(&(e <<= v) == &e && e == (b << v));
    OBL_REQUIRE(&(f >>= v) == &f && f == estd::byte((unsigned char)(unsigned(x) >> unsigned(v))));
    OBL_STATIC(octet_types, is_same<decltype(b << v), estd::byte>::value && is_same<decltype(b | c), estd::byte>::value && sizeof(estd::byte) == 1 && is_same<decltype(estd::to_integer<N>(b)), N>::value
        && !estd::is_convertible<estd::byte, int>::value);
    OBL_END;
}
// quotient and remainder together, for every width
template <class N> void divided(N x, N y)
{
    OBL_ASSUME(y != 0);
    OBL_ASSUME(y != N(-1) || x >= 0);
    const auto r = estd::internal::div<N>::eval(x, y);
    OBL_REQUIRE(r.quot == N(x / y));
    OBL_REQUIRE(r.rem == N(x % y));
    OBL_STATIC(parts_keep_the_type, is_same<typename estd::remove_cv<decltype(r.quot)>::type, N>::value && is_same<typename estd::remove_cv<decltype(r.rem)>::type, N>::value);
    OBL_END;
}
}
OBL_INSTANCES(octets, (void*)&oblt::octets<int>, (void*)&oblt::octets<unsigned char>, (void*)&oblt::octets<unsigned short>, (void*)&oblt::octets<I>)
OBL_INSTANCES(divided, (void*)&oblt::divided<short>, (void*)&oblt::divided<unsigned char>, (void*)&oblt::divided<unsigned>, (void*)&oblt::divided<signed char>, (void*)&oblt::divided<long long>, (void*)&oblt::divided<unsigned long>, (void*)&oblt::divided<char16_t>)
