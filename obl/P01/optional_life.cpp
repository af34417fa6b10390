// std: 17
// thorough: 14 20
// min: 40
// allow: throw
#include <estd/optional.h>
#include "obl.h"

typedef obl::tracked<0> T;
typedef obl::tracked<1> T2;
typedef estd::optional<T> O;
typedef estd::optional<int> OI;

// the two states of an optional, enumerated
template <bool engaged> struct mk {
    static void set(O& o, int v) { if(engaged) o.emplace(v); }
    static void set(OI& o, int v) { if(engaged) o = v; }
};

template <class O, bool e>
static inline bool is(const O& o, int v) { return o.has_value() == e && bool(o) == e && (!e || *o == typename O::value_type(v)); }

// frame: `live` objects before == after once the optionals are gone, and exactly `n` more meanwhile
#define PRE int l0 = T::live; (void)l0
#define LIVE(n) OBL_REQUIRE(T::live == l0 + (n))

OBL(opt_default, int a) { PRE; { O o; OBL_REQUIRE(is<O, false>(o, a)); LIVE(0); } LIVE(0); OBL_END; }
OBL(opt_nullopt, int a) { PRE; { O o(estd::nullopt); OBL_REQUIRE(is<O, false>(o, a)); LIVE(0); } LIVE(0); OBL_END; }
OBL(opt_inplace, int a) { PRE; { O o(estd::in_place_t{}, a); OBL_REQUIRE(is<O, true>(o, a)); LIVE(1); } LIVE(0); OBL_END; }
OBL(opt_inplace2, int a, int b) { PRE; { O o(estd::in_place_t{}, a, b); OBL_REQUIRE(o.has_value() && o->v == (a ^ b)); LIVE(1); } LIVE(0); OBL_END; }
OBL(opt_from_lvalue, int a) { PRE; { T t(a); O o(t); OBL_REQUIRE(is<O, true>(o, a)); OBL_REQUIRE(t.v == a); LIVE(2); } LIVE(0); OBL_END; }
OBL(opt_from_rvalue, int a) { PRE; { T t(a); O o(std::move(t)); OBL_REQUIRE(o.has_value() && o->v == a); OBL_REQUIRE(t.v == -1); LIVE(2); } LIVE(0); OBL_END; }

template <bool e> static inline void copy_ctor(int a)
{
    PRE;
    { O x; mk<e>::set(x, a); LIVE(e);
      { O y(x); OBL_REQUIRE(is<O, e>(y, a)); OBL_REQUIRE(is<O, e>(x, a)); LIVE(2 * e); }
      LIVE(e);
      { const O& cx = x; O y(cx); OBL_REQUIRE(is<O, e>(y, a)); OBL_REQUIRE(is<O, e>(x, a)); }
      LIVE(e); }
    LIVE(0);
}
OBL(opt_copy_ctor_e, int a) { copy_ctor<false>(a); OBL_END; }
OBL(opt_copy_ctor_v, int a) { copy_ctor<true>(a); OBL_END; }

template <bool e> static inline void move_ctor(int a)
{
    PRE;
    { O x; mk<e>::set(x, a);
      int c0 = T::copies;
      O y(std::move(x));
      OBL_REQUIRE(is<O, e>(y, a));
      OBL_REQUIRE(x.has_value() == e);      // moved-from optional keeps its engagement
      OBL_REQUIRE(T::copies == c0);         // moved, not copied
      LIVE(2 * e); }
    LIVE(0);
}
OBL(opt_move_ctor_e, int a) { move_ctor<false>(a); OBL_END; }
OBL(opt_move_ctor_v, int a) { move_ctor<true>(a); OBL_END; }

template <bool e, bool f> static inline void copy_assign(int a, int b)
{
    PRE;
    { O x, y; mk<e>::set(x, a); mk<f>::set(y, b); LIVE(e + f);
      O& r = (x = y);
      OBL_REQUIRE(&r == &x);
      OBL_REQUIRE(is<O, f>(x, b)); OBL_REQUIRE(is<O, f>(y, b)); LIVE(2 * f); }
    LIVE(0);
}
OBL(opt_copy_assign_ee, int a, int b) { copy_assign<false, false>(a, b); OBL_END; }
OBL(opt_copy_assign_ev, int a, int b) { copy_assign<false, true>(a, b); OBL_END; }
OBL(opt_copy_assign_ve, int a, int b) { copy_assign<true, false>(a, b); OBL_END; }
OBL(opt_copy_assign_vv, int a, int b) { copy_assign<true, true>(a, b); OBL_END; }

template <bool e, bool f> static inline void move_assign(int a, int b)
{
    PRE;
    { O x, y; mk<e>::set(x, a); mk<f>::set(y, b);
      x = std::move(y);
      OBL_REQUIRE(is<O, f>(x, b)); OBL_REQUIRE(y.has_value() == f); LIVE(2 * f); }
    LIVE(0);
}
OBL(opt_move_assign_ee, int a, int b) { move_assign<false, false>(a, b); OBL_END; }
OBL(opt_move_assign_ev, int a, int b) { move_assign<false, true>(a, b); OBL_END; }
OBL(opt_move_assign_ve, int a, int b) { move_assign<true, false>(a, b); OBL_END; }
OBL(opt_move_assign_vv, int a, int b) { move_assign<true, true>(a, b); OBL_END; }

template <bool e> static inline void ops(int a, int b)
{
    PRE;
    { O x; mk<e>::set(x, a); O& y = x; x = y; OBL_REQUIRE(is<O, e>(x, a)); LIVE(e); }       // self assignment
    LIVE(0);
    { O x; mk<e>::set(x, a); T t(b); x = t; OBL_REQUIRE(is<O, true>(x, b)); OBL_REQUIRE(t.v == b); LIVE(2); }
    LIVE(0);
    { O x; mk<e>::set(x, a); T t(b); x = std::move(t); OBL_REQUIRE(is<O, true>(x, b)); LIVE(2); }
    LIVE(0);
    { O x; mk<e>::set(x, a); x = estd::nullopt; OBL_REQUIRE(is<O, false>(x, a)); LIVE(0); }
    LIVE(0);
    { O x; mk<e>::set(x, a); x.reset(); OBL_REQUIRE(is<O, false>(x, a)); LIVE(0); x.reset(); OBL_REQUIRE(is<O, false>(x, a)); LIVE(0); }
    LIVE(0);
    { O x; mk<e>::set(x, a); T& r = x.emplace(b); OBL_REQUIRE(is<O, true>(x, b)); OBL_REQUIRE(&r == &*x); LIVE(1); }
    LIVE(0);
    { O x; mk<e>::set(x, a); x.reset(); x.emplace(b); OBL_REQUIRE(is<O, true>(x, b)); LIVE(1); x = estd::nullopt; x = T(a); OBL_REQUIRE(is<O, true>(x, a)); LIVE(1); }
    LIVE(0);
}
OBL(opt_ops_e, int a, int b) { ops<false>(a, b); OBL_END; }
OBL(opt_ops_v, int a, int b) { ops<true>(a, b); OBL_END; }

// value access
template <bool e> static inline void access(int a, int d)
{
    { O x; mk<e>::set(x, a); const O& c = x;
      T r = c.value_or(T(d)); OBL_REQUIRE(r.v == (e ? a : d)); OBL_REQUIRE(is<O, e>(x, a)); }
    { OI x; mk<e>::set(x, a); const OI& c = x;
      OBL_REQUIRE(c.value_or(d) == (e ? a : d)); OBL_REQUIRE(std::move(x).value_or(d) == (e ? a : d)); }
}
OBL(opt_value_or_e, int a, int d) { access<false>(a, d); OBL_END; }
OBL(opt_value_or_v, int a, int d) { access<true>(a, d); OBL_END; }

OBL(opt_value_v, int a)
{
    O x; x.emplace(a); const O& c = x;
    bool threw = false;
    try { OBL_REQUIRE(x.value().v == a && c.value().v == a); OBL_REQUIRE(&x.value() == &*x && &c.value() == &*x && x.operator->() == &*x && c.operator->() == &*x); }
    catch(...) { threw = true; }
    OBL_REQUIRE(!threw);
    T t(std::move(x).value()); OBL_REQUIRE(t.v == a);
    OBL_END;
}
OBL(opt_value_e, int)
{
    // an empty optional never hands out a value: the four overloads all throw
    OI x; const OI& c = x;
    try { (void)x.value(); OBL_NEVER(); } catch(const estd::bad_optional_access&) { }
    try { (void)c.value(); OBL_NEVER(); } catch(const estd::bad_optional_access&) { }
    try { (void)std::move(x).value(); OBL_NEVER(); } catch(const estd::bad_optional_access&) { }
    try { (void)std::move(c).value(); OBL_NEVER(); } catch(const estd::bad_optional_access&) { }
    OBL_END;
}

// trivial payload
template <bool e, bool f> static inline void triv(int a, int b)
{
    { OI x, y; mk<e>::set(x, a); mk<f>::set(y, b); x = y; OBL_REQUIRE(is<OI, f>(x, b)); }
    { OI x, y; mk<e>::set(x, a); mk<f>::set(y, b); x = std::move(y); OBL_REQUIRE(is<OI, f>(x, b)); }
    { OI x; mk<e>::set(x, a); OI y(x); OBL_REQUIRE(is<OI, e>(y, a)); OI z(std::move(x)); OBL_REQUIRE(is<OI, e>(z, a)); }
    { OI x; mk<e>::set(x, a); OI y(b); x = b; OBL_REQUIRE(is<OI, true>(x, b) && is<OI, true>(y, b)); x.reset(); OBL_REQUIRE(!x.has_value()); x.emplace(a); OBL_REQUIRE(is<OI, true>(x, a)); x = estd::nullopt; OBL_REQUIRE(!x); }
    // conversion from another optional
    { estd::optional<short> s; if(f) s = short(b); OI x(s); OBL_REQUIRE(is<OI, f>(x, short(b))); }
    { estd::optional<short> s; if(f) s = short(b); OI x; mk<e>::set(x, a); x = s; OBL_REQUIRE(is<OI, f>(x, short(b))); OBL_REQUIRE(s.has_value() == f); }
    { estd::optional<short> s; if(f) s = short(b); OI x; mk<e>::set(x, a); x = std::move(s); OBL_REQUIRE(is<OI, f>(x, short(b))); }
}
OBL(opt_trivial_ee, int a, int b) { triv<false, false>(a, b); OBL_END; }
OBL(opt_trivial_ev, int a, int b) { triv<false, true>(a, b); OBL_END; }
OBL(opt_trivial_ve, int a, int b) { triv<true, false>(a, b); OBL_END; }
OBL(opt_trivial_vv, int a, int b) { triv<true, true>(a, b); OBL_END; }

// comparisons
template <bool e, bool f> static inline void cmp(int a, int b)
{
    OI x, y; mk<e>::set(x, a); mk<f>::set(y, b);
    OBL_REQUIRE((x == y) == ((e && f) ? a == b : e == f));
    OBL_REQUIRE((x == b) == (e && a == b));
    OBL_REQUIRE((b == x) == (e && a == b));
    OBL_REQUIRE((x != b) == !(e && a == b));
    if(e) { OBL_REQUIRE((x < b) == (a < b)); OBL_REQUIRE((x > b) == (a > b)); OBL_REQUIRE((x <= b) == (a <= b)); OBL_REQUIRE((x >= b) == (a >= b)); }
}
OBL(opt_cmp_ee, int a, int b) { cmp<false, false>(a, b); OBL_END; }
OBL(opt_cmp_ev, int a, int b) { cmp<false, true>(a, b); OBL_END; }
OBL(opt_cmp_ve, int a, int b) { cmp<true, false>(a, b); OBL_END; }
OBL(opt_cmp_vv, int a, int b) { cmp<true, true>(a, b); OBL_END; }

// whole-optional inequality is the negation of equality
template <bool e, bool f> static inline void neq(int a, int b)
{
    OI x, y; mk<e>::set(x, a); mk<f>::set(y, b);
    OBL_REQUIRE((x != y) == !((e && f) ? a == b : e == f));
}
OBL(opt_neq_ee, int a, int b) { neq<false, false>(a, b); OBL_END; }
OBL(opt_neq_ev, int a, int b) { neq<false, true>(a, b); OBL_END; }
OBL(opt_neq_ve, int a, int b) { neq<true, false>(a, b); OBL_END; }
OBL(opt_neq_vv, int a, int b) { neq<true, true>(a, b); OBL_END; }

// construction that throws leaves an optional which does not claim to hold a value
struct Th { T t; Th(int v, bool th) : t(v) { if(th) throw 1; } Th(const Th& o) : t(o.t) {} };
template <bool e, bool th> static inline void emplace_throws(int a, int b)
{
    PRE;
    { estd::optional<Th> x; if(e) x.emplace(a, false);
      bool threw = false;
      try { x.emplace(b, th); } catch(int) { threw = true; }
      OBL_REQUIRE(threw == th); OBL_REQUIRE(x.has_value() == !th); LIVE(!th); }
    LIVE(0);
}
OBL(opt_throw_e, int a, int b) { emplace_throws<false, true>(a, b); OBL_END; }
OBL(opt_throw_v, int a, int b) { emplace_throws<true, true>(a, b); OBL_END; }
OBL(opt_nothrow_e, int a, int b) { emplace_throws<false, false>(a, b); OBL_END; }
OBL(opt_nothrow_v, int a, int b) { emplace_throws<true, false>(a, b); OBL_END; }
struct alignas(32) Big { char c[40]; Big() {} Big(const Big&) {} ~Big() {} };
OBL_STATIC(aligned, alignof(O) >= alignof(T) && alignof(estd::optional<Big>) >= alignof(Big) && alignof(OI) >= alignof(int));
OBL_STATIC(sized, sizeof(O) > sizeof(T) && sizeof(OI) > sizeof(int));
