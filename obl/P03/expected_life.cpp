// std: 17
// thorough: 14 20
// min: 16
// allow: throw
#include <estd/expected.h>
#include "obl.h"

typedef obl::tracked<0> T;
typedef obl::tracked<1> E;
typedef estd::expected<T, E> X;
typedef estd::expected<int, short> XI;
typedef estd::expected<void, E> XV;
typedef estd::unexpected<E> U;
struct MO { // move only
    obl::tracked<2> t;
    MO(int v) : t(v) {}
    MO(MO&& o) : t(static_cast<obl::tracked<2>&&>(o.t)) {}
    MO& operator=(MO&& o) { t = static_cast<obl::tracked<2>&&>(o.t); return *this; }
    MO(const MO&) = delete; MO& operator=(const MO&) = delete;
};

#define PRE int a0 = T::live, b0 = E::live; (void)a0; (void)b0
#define LIVE(a, b) do { OBL_REQUIRE(T::live == a0 + (a)); OBL_REQUIRE(E::live == b0 + (b)); } while(0)

template <bool e> static inline bool holds(const X& x, int v) { return x.has_value() == e && bool(x) == e && (e ? (*x).v == v && (*x).state == obl::ALIVE && x.operator->()->v == v : x.error().v == v && x.error().state == obl::ALIVE); }
template <bool e> struct mk; 
template <> struct mk<true> { typedef estd::in_place_t t; }; template <> struct mk<false> { typedef estd::unexpect_t t; };
template <bool e> using k = typename mk<e>::t;

template <bool e> static inline void ctor(int v)
{
    PRE;
    { X x(k<e>{}, v); OBL_REQUIRE(holds<e>(x, v)); LIVE(e, !e); }
    LIVE(0, 0);
    { X x(k<e>{}, v, v + 1); OBL_REQUIRE(holds<e>(x, v ^ (v + 1))); LIVE(e, !e); }
    LIVE(0, 0);
    { X x(k<e>{}, v); X y(x); OBL_REQUIRE(holds<e>(x, v)); OBL_REQUIRE(holds<e>(y, v)); LIVE(2 * e, 2 * !e); }
    LIVE(0, 0);
    { X x(k<e>{}, v); int c = T::copies + E::copies; X y(static_cast<X&&>(x)); OBL_REQUIRE(holds<e>(y, v)); LIVE(2 * e, 2 * !e);
      OBL_REQUIRE(x.has_value() == e); OBL_REQUIRE(T::copies + E::copies == c); }
    LIVE(0, 0);
}
OBL(exp_ctor_v, int v) { ctor<true>(v); OBL_END; }
OBL(exp_ctor_e, int v) { ctor<false>(v); OBL_END; }
OBL(exp_default, int) { PRE; { X x; OBL_REQUIRE(x.has_value()); LIVE(1, 0); } LIVE(0, 0); OBL_END; }
OBL(exp_from_value, int v) { PRE; { T t(v); X x(t); OBL_REQUIRE(holds<true>(x, v) && t.v == v); X y(static_cast<T&&>(t)); OBL_REQUIRE(holds<true>(y, v) && t.v == -1); LIVE(3, 0); } LIVE(0, 0); OBL_END; }
OBL(exp_from_unexpected, int v) { PRE; { U u{E(v)}; OBL_REQUIRE(u.error().v == v); X x(u); OBL_REQUIRE(holds<false>(x, v) && u.error().v == v); LIVE(0, 2); } LIVE(0, 0); OBL_END; }

template <bool e> static inline void assign(int v, int w)
{
    PRE;
    { X x(k<e>{}, v); T t(w); X& r = (x = t); OBL_REQUIRE(&r == &x); OBL_REQUIRE(holds<true>(x, w) && t.v == w); LIVE(2, 0); }
    LIVE(0, 0);
    { X x(k<e>{}, v); x = T(w); OBL_REQUIRE(holds<true>(x, w)); LIVE(1, 0); }
    LIVE(0, 0);
    { X x(k<e>{}, v); U u{E(w)}; X& r = (x = u); OBL_REQUIRE(&r == &x); OBL_REQUIRE(holds<false>(x, w) && u.error().v == w); LIVE(0, 2); }
    LIVE(0, 0);
    { X x(k<e>{}, v); T& r = x.emplace(w); OBL_REQUIRE(holds<true>(x, w)); OBL_REQUIRE(&r == &*x); LIVE(1, 0); }
    LIVE(0, 0);
    { X x(k<e>{}, v); U u{E(w)}; x = u; x = T(v); OBL_REQUIRE(holds<true>(x, v)); x = u; OBL_REQUIRE(holds<false>(x, w)); x.emplace(v); OBL_REQUIRE(holds<true>(x, v)); LIVE(1, 1); }
    LIVE(0, 0);
}
OBL(exp_assign_v, int v, int w) { assign<true>(v, w); OBL_END; }
OBL(exp_assign_e, int v, int w) { assign<false>(v, w); OBL_END; }

template <bool e> static inline void access(int v, int d)
{
    typedef estd::expected<T, int> XT;   // error type without a destructor: exception objects are not modelled across the runtime
    XT x(k<e>{}, v); const XT& c = x;
    bool threw = false; int got = 0;
    try { got = x.value().v; } catch(const estd::bad_expected_access<int>& b) { threw = true; }
    OBL_REQUIRE(threw == !e); OBL_REQUIRE(!e || got == v);
    threw = false;
    try { got = c.value().v; } catch(const estd::bad_expected_access<void>&) { threw = true; }
    OBL_REQUIRE(threw == !e); OBL_REQUIRE(!e || got == v);
    XI xi(k<e>{}, e ? v : (short)v); const XI& ci = xi;
    OBL_REQUIRE(ci.value_or(d) == (e ? v : d));
    OBL_REQUIRE(ci.has_value() == e && (e ? *ci == v : ci.error() == (short)v));
    XI yi(xi); OBL_REQUIRE(yi.has_value() == e && (e ? *yi == v : yi.error() == (short)v));
    XI zi(static_cast<XI&&>(xi)); OBL_REQUIRE(zi.has_value() == e && (e ? *zi == v : zi.error() == (short)v));
}
OBL(exp_access_v, int v, int d) { access<true>(v, d); OBL_END; }
OBL(exp_access_e, int v, int d) { access<false>(v, d); OBL_END; }

OBL(exp_rvalue_deref, int v)
{
    X x(k<true>{}, v);
    T t(*static_cast<X&&>(x)); OBL_REQUIRE(t.v == v && (*x).v == -1);
    const X y(k<true>{}, v);
    T s(*static_cast<const X&&>(y)); OBL_REQUIRE(s.v == v && (*y).v == v);
    OBL_END;
}

// the error carried by the exception is the stored one
OBL(exp_bad_access_error, int v) { estd::bad_expected_access<E> b{E(v)}; OBL_REQUIRE(b.error().v == v); OBL_END; }

// void value
OBL(exp_void_ok, int v)
{
    PRE;
    { XV x; OBL_REQUIRE(x.has_value() && bool(x)); LIVE(0, 0); XV y(x); OBL_REQUIRE(y.has_value());
      U u{E(v)}; x = u; OBL_REQUIRE(!x.has_value() && x.error().v == v); LIVE(0, 2); XV z(x); OBL_REQUIRE(!z.has_value() && z.error().v == v); LIVE(0, 3); }
    LIVE(0, 0); OBL_END;
}
OBL(exp_void_err, int v) { PRE; { XV x(estd::unexpect_t{}, v); OBL_REQUIRE(!x.has_value() && x.error().v == v); LIVE(0, 1); } LIVE(0, 0); OBL_END; }

// move only value
OBL(exp_move_only, int v)
{
    int n0 = obl::tracked<2>::live;
    { estd::expected<MO, int> x(estd::in_place_t{}, v); OBL_REQUIRE(x.has_value() && (*x).t.v == v);
      estd::expected<MO, int> y(static_cast<estd::expected<MO, int>&&>(x));
      OBL_REQUIRE(y.has_value() && (*y).t.v == v && (*y).t.state == obl::ALIVE); OBL_REQUIRE(obl::tracked<2>::live == n0 + 2);
      y = MO(v + 1); OBL_REQUIRE((*y).t.v == v + 1); }
    OBL_REQUIRE(obl::tracked<2>::live == n0);
    { estd::expected<MO, int> x(estd::unexpect_t{}, v); estd::expected<MO, int> y(static_cast<estd::expected<MO, int>&&>(x)); OBL_REQUIRE(!y.has_value() && y.error() == v); }
    OBL_REQUIRE(obl::tracked<2>::live == n0);
    OBL_END;
}
OBL(exp_move_only_error, int v)
{
    int n0 = obl::tracked<2>::live;
    { estd::expected<int, MO> x(estd::unexpect_t{}, v); estd::expected<int, MO> y(static_cast<estd::expected<int, MO>&&>(x)); OBL_REQUIRE(!y.has_value() && y.error().t.v == v); OBL_REQUIRE(obl::tracked<2>::live == n0 + 2); }
    OBL_REQUIRE(obl::tracked<2>::live == n0);
    OBL_END;
}
OBL(exp_trivial_assign, int v, short e)
{
    XI x(v); OBL_REQUIRE(x.has_value() && *x == v);
    x = estd::unexpected<short>(e); OBL_REQUIRE(!x.has_value() && x.error() == e);
    x = v; OBL_REQUIRE(x.has_value() && *x == v);
    OBL_END;
}
OBL_STATIC(aligned, alignof(X) >= alignof(T));
