// std: 17
// thorough: 11 14 20
// min: 45
// allow: throw
#include <estd/variant.h>
#include "obl.h"

typedef obl::tracked<0> A;
typedef obl::tracked<1> B;
struct NC { // not assignable: takes the destroy-then-construct route
    obl::tracked<2> t;
    NC(int v) noexcept : t(v) {}
    NC(const NC& o) noexcept : t(o.t) {}
    NC(NC&& o) noexcept : t(static_cast<obl::tracked<2>&&>(o.t)) {}
    NC& operator=(const NC&) = delete;
    NC& operator=(NC&&) = delete;
};
typedef estd::variant<A, B, NC> V;
typedef estd::variant<int, A, short, B> W;    // trivial and non-trivial mixed
typedef estd::variant<int, char, void*> TV;   // all trivial

#define PRE int a0 = A::live, b0 = B::live, n0 = obl::tracked<2>::live; (void)a0; (void)b0; (void)n0
#define LIVE(a, b, n) do { OBL_REQUIRE(A::live == a0 + (a)); OBL_REQUIRE(B::live == b0 + (b)); OBL_REQUIRE(obl::tracked<2>::live == n0 + (n)); } while(0)

template <int i> static inline bool holds(const V& v, int x)
{
    if(v.index() != i || v.valueless_by_exception()) return false;
    const A* a = estd::get_if<A>(&v); const B* b = estd::get_if<B>(&v); const NC* n = estd::get_if<NC>(&v);
    if((a != nullptr) != (i == 0) || (b != nullptr) != (i == 1) || (n != nullptr) != (i == 2)) return false;
    if(estd::holds_alternative<A>(v) != (i == 0) || estd::holds_alternative<B>(v) != (i == 1) || estd::holds_alternative<NC>(v) != (i == 2)) return false;
    if(i == 0 && !(a->v == x && a->state == obl::ALIVE && a == &estd::get<0>(v))) return false;
    if(i == 1 && !(b->v == x && b->state == obl::ALIVE && b == &estd::get<1>(v))) return false;
    if(i == 2 && !(n->t.v == x && n->t.state == obl::ALIVE && n == &estd::get<2>(v))) return false;
    return true;
}
template <int i> struct tag {};
template <int i> using ip = estd::in_place_index_t<i>;

template <int i> static inline void ctor(int x)
{
    PRE;
    { V v(ip<i>{}, x); OBL_REQUIRE(holds<i>(v, x)); LIVE(i == 0, i == 1, i == 2); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); V w(v); OBL_REQUIRE(holds<i>(v, x)); OBL_REQUIRE(holds<i>(w, x)); LIVE(2 * (i == 0), 2 * (i == 1), 2 * (i == 2)); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); int c = A::copies + B::copies + obl::tracked<2>::copies;
      V w(static_cast<V&&>(v)); OBL_REQUIRE(holds<i>(w, x)); OBL_REQUIRE(A::copies + B::copies + obl::tracked<2>::copies == c); }
    LIVE(0, 0, 0);
}
OBL(var_ctor0, int x) { ctor<0>(x); OBL_END; }
OBL(var_ctor1, int x) { ctor<1>(x); OBL_END; }
OBL(var_ctor2, int x) { ctor<2>(x); OBL_END; }

OBL(var_default, int) { PRE; { V v; OBL_REQUIRE(v.index() == 0 && !v.valueless_by_exception()); LIVE(1, 0, 0); } LIVE(0, 0, 0); OBL_END; }
OBL(var_in_place_type, int x) { PRE; { V v(estd::in_place_type_t<B>{}, x); OBL_REQUIRE(holds<1>(v, x)); LIVE(0, 1, 0); } LIVE(0, 0, 0); OBL_END; }
OBL(var_convert, int x) { PRE; {
    A a(x); V v(a); OBL_REQUIRE(holds<0>(v, x) && a.v == x); LIVE(2, 0, 0);
    B b(x); V w(b); OBL_REQUIRE(holds<1>(w, x)); LIVE(2, 2, 0);
    NC n(x); V u(n); OBL_REQUIRE(holds<2>(u, x)); LIVE(2, 2, 2);
    V z(B{x}); OBL_REQUIRE(holds<1>(z, x)); LIVE(2, 3, 2);
  } LIVE(0, 0, 0); OBL_END; }

template <int i, int j> static inline void assign(int x, int y)
{
    PRE;
    { V v(ip<i>{}, x); V w(ip<j>{}, y);
      V& r = (v = w); OBL_REQUIRE(&r == &v);
      OBL_REQUIRE(holds<j>(v, y)); OBL_REQUIRE(holds<j>(w, y)); LIVE(2 * (j == 0), 2 * (j == 1), 2 * (j == 2)); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); V w(ip<j>{}, y);
      V& r = (v = static_cast<V&&>(w)); OBL_REQUIRE(&r == &v);
      OBL_REQUIRE(holds<j>(v, y)); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); V w(ip<j>{}, y);
      v = w; w = V(ip<i>{}, x); v = w; OBL_REQUIRE(holds<i>(v, x)); OBL_REQUIRE(holds<i>(w, x)); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); v.template emplace<(unsigned)j>(y); OBL_REQUIRE(holds<j>(v, y)); LIVE(j == 0, j == 1, j == 2); }
    LIVE(0, 0, 0);
}
#define ASSIGN(i, j) OBL(var_assign##i##j, int x, int y) { assign<i, j>(x, y); OBL_END; }
ASSIGN(0, 0) ASSIGN(0, 1) ASSIGN(0, 2) ASSIGN(1, 0) ASSIGN(1, 1) ASSIGN(1, 2) ASSIGN(2, 0) ASSIGN(2, 1) ASSIGN(2, 2)

template <int i> static inline void from_value(int x, int y)
{
    PRE;
    { V v(ip<i>{}, x); A a(y); v = a; OBL_REQUIRE(holds<0>(v, y) && a.v == y); LIVE(2, 0, 0); } LIVE(0, 0, 0);
    { V v(ip<i>{}, x); B b(y); v = b; OBL_REQUIRE(holds<1>(v, y) && b.v == y); LIVE(0, 2, 0); } LIVE(0, 0, 0);
    { V v(ip<i>{}, x); NC n(y); v = n; OBL_REQUIRE(holds<2>(v, y)); LIVE(0, 0, 2); } LIVE(0, 0, 0);
    { V v(ip<i>{}, x); v = B(y); OBL_REQUIRE(holds<1>(v, y)); LIVE(0, 1, 0); } LIVE(0, 0, 0);
    { V v(ip<i>{}, x); B& r = v.template emplace<B>(y); OBL_REQUIRE(holds<1>(v, y)); OBL_REQUIRE(&r == estd::get_if<B>(&v)); LIVE(0, 1, 0); } LIVE(0, 0, 0);
}
OBL(var_from_value0, int x, int y) { from_value<0>(x, y); OBL_END; }
OBL(var_from_value1, int x, int y) { from_value<1>(x, y); OBL_END; }
OBL(var_from_value2, int x, int y) { from_value<2>(x, y); OBL_END; }

// moved-from by construction: source valueless, reusable, not destroyed twice
template <int i, int j> static inline void moved(int x, int y)
{
    PRE;
    { V v(ip<i>{}, x); V w(static_cast<V&&>(v));
      OBL_REQUIRE(v.valueless_by_exception()); LIVE(i == 0, i == 1, i == 2);
      OBL_REQUIRE(estd::get_if<A>(&v) == nullptr && estd::get_if<B>(&v) == nullptr && estd::get_if<NC>(&v) == nullptr);
      OBL_REQUIRE(!estd::holds_alternative<A>(v) && !estd::holds_alternative<B>(v) && !estd::holds_alternative<NC>(v));
      v.template emplace<(unsigned)j>(y); OBL_REQUIRE(holds<j>(v, y)); OBL_REQUIRE(holds<i>(w, x)); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); V w(static_cast<V&&>(v)); V u(ip<j>{}, y);
      u = v;     // assignment from a valueless variant
      OBL_REQUIRE(u.valueless_by_exception()); LIVE(i == 0, i == 1, i == 2);
      V t(ip<j>{}, y); t = static_cast<V&&>(v); OBL_REQUIRE(t.valueless_by_exception()); }
    LIVE(0, 0, 0);
    { V v(ip<i>{}, x); V w(static_cast<V&&>(v)); V u(ip<j>{}, y);
      v = u;     // assignment to a valueless variant
      OBL_REQUIRE(holds<j>(v, y)); OBL_REQUIRE(holds<j>(u, y)); }
    LIVE(0, 0, 0);
}
OBL(var_moved00, int x, int y) { moved<0, 0>(x, y); OBL_END; }
OBL(var_moved01, int x, int y) { moved<0, 1>(x, y); OBL_END; }
OBL(var_moved12, int x, int y) { moved<1, 2>(x, y); OBL_END; }
OBL(var_moved20, int x, int y) { moved<2, 0>(x, y); OBL_END; }

// self assignment of assignable alternatives
template <int i> static inline void self_assign(int x)
{
    PRE; { V v(ip<i>{}, x); V& w = v; v = w; OBL_REQUIRE(holds<i>(v, x)); LIVE(i == 0, i == 1, i == 2); } LIVE(0, 0, 0);
}
OBL(var_self0, int x) { self_assign<0>(x); OBL_END; }
OBL(var_self1, int x) { self_assign<1>(x); OBL_END; }
OBL(var_self2, int x) { self_assign<2>(x); OBL_END; }

// visitation: exactly the active alternative, with its index
struct rec { int* idx; int* cnt; int* val;
    template <size_t I, class T> bool operator()(estd::variadic::visitor_instance<I, T> vi) { *idx = (int)I; ++*cnt; *val = get(vi.value); return true; }
    static int get(const A& a) { return a.v; } static int get(const B& b) { return b.v; } static int get(const NC& n) { return n.t.v; } };
template <int i> static inline void visiting(int x)
{
    V v(ip<i>{}, x); const V& c = v;
    int idx = -1, cnt = 0, val = 0;
    OBL_REQUIRE(v.visit_index(rec{&idx, &cnt, &val}) == i); OBL_REQUIRE(idx == i && cnt == 1 && val == x);
    idx = -1; cnt = 0; val = 0;
    OBL_REQUIRE(c.visit_index(rec{&idx, &cnt, &val}) == i); OBL_REQUIRE(idx == i && cnt == 1 && val == x);
}
OBL(var_visit0, int x) { visiting<0>(x); OBL_END; }
OBL(var_visit1, int x) { visiting<1>(x); OBL_END; }
OBL(var_visit2, int x) { visiting<2>(x); OBL_END; }

// get of another alternative throws, get of the active one does not
template <int i, class F> static inline bool throws(F f) { bool t = false; try { f(); } catch(const estd::bad_variant_access&) { t = true; } return t; }
template <int i> static inline void getting(int x)
{
    V v(ip<i>{}, x); const V& c = v;
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<0>(v); }) == (i != 0));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<1>(v); }) == (i != 1));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<2>(v); }) == (i != 2));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<0>(c); }) == (i != 0));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<1>(c); }) == (i != 1));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<2>(c); }) == (i != 2));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<A>(v); }) == (i != 0));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<B>(c); }) == (i != 1));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<NC>(c); }) == (i != 2));
}
OBL(var_get0, int x) { getting<0>(x); OBL_END; }
OBL(var_get1, int x) { getting<1>(x); OBL_END; }
OBL(var_get2, int x) { getting<2>(x); OBL_END; }
template <int i> static inline void rvalue_get(int x)
{
    V v(ip<i>{}, x);
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<0>(static_cast<V&&>(v)); }) == (i != 0));
    OBL_REQUIRE(throws<i>([&] { (void)estd::get<B>(static_cast<V&&>(v)); }) == (i != 1));
    if(i == 1) { B b(estd::get<1>(static_cast<V&&>(v))); OBL_REQUIRE(b.v == x && estd::get<1>(v).v == -1); }
}
OBL(var_rget0, int x) { rvalue_get<0>(x); OBL_END; }
OBL(var_rget1, int x) { rvalue_get<1>(x); OBL_END; }
OBL(var_get_if_null, int) {
    V* n = nullptr; const V* cn = nullptr;
    OBL_REQUIRE(estd::get_if<A>(n) == nullptr && estd::get_if<2>(n) == nullptr && estd::get_if<B>(cn) == nullptr && estd::get_if<1>(cn) == nullptr);
    OBL_END; }

// mixed / trivial alternatives, every transition
template <int i> struct wt; template <> struct wt<0> { typedef int t; }; template <> struct wt<1> { typedef A t; }; template <> struct wt<2> { typedef short t; }; template <> struct wt<3> { typedef B t; };
static inline int val(int v) { return v; } static inline int val(short v) { return v; } static inline int val(const A& a) { return a.v; } static inline int val(const B& b) { return b.v; }
template <int i> static inline bool wholds(const W& w, int x) { return w.index() == i && estd::get_if<(unsigned)i>(&w) != nullptr && val(*estd::get_if<(unsigned)i>(&w)) == (i == 2 ? (short)x : x); }
template <int i, int j> static inline void wassign(int x, int y)
{
    PRE;
    { W v(ip<i>{}, (typename wt<i>::t)(x)); W w(ip<j>{}, (typename wt<j>::t)(y));
      v = w; OBL_REQUIRE(wholds<j>(v, y) && wholds<j>(w, y)); LIVE(2 * (j == 1), 2 * (j == 3), 0); }
    LIVE(0, 0, 0);
    { W v(ip<i>{}, (typename wt<i>::t)(x)); W w(ip<j>{}, (typename wt<j>::t)(y));
      v = static_cast<W&&>(w); OBL_REQUIRE(wholds<j>(v, y)); W u(static_cast<W&&>(v)); OBL_REQUIRE(wholds<j>(u, y)); W t(u); OBL_REQUIRE(wholds<j>(t, y)); }
    LIVE(0, 0, 0);
}
#define WA(i, j) OBL(var_mixed##i##j, int x, int y) { wassign<i, j>(x, y); OBL_END; }
WA(0, 1) WA(0, 2) WA(0, 3) WA(1, 0) WA(1, 2) WA(1, 3) WA(2, 0) WA(2, 1) WA(2, 3) WA(3, 0) WA(3, 1) WA(3, 2) WA(0, 0) WA(2, 2) WA(3, 3)

OBL(var_trivial, int x, char c, void* p)
{
    TV v(ip<0>{}, x); OBL_REQUIRE(v.index() == 0 && estd::get<0>(v) == x);
    v.emplace<1>(c); OBL_REQUIRE(v.index() == 1 && estd::get<1>(v) == c && estd::get_if<0>(&v) == nullptr);
    v.emplace<void*>(p); OBL_REQUIRE(v.index() == 2 && estd::get<void*>(v) == p);
    TV w(v); OBL_REQUIRE(w.index() == 2 && estd::get<2>(w) == p);
    TV u(ip<1>{}, c); w = u; OBL_REQUIRE(w.index() == 1 && estd::get<1>(w) == c && estd::get<2>(v) == p);
    OBL_END;
}

// an alternative whose construction throws: variant becomes valueless, nothing is destroyed twice
struct Thrower { obl::tracked<2> t; Thrower(int v, bool th) : t(v) { if(th) throw 1; } Thrower(const Thrower& o) : t(o.t) { if(o.t.v == 77) throw 2; } };
typedef estd::variant<A, Thrower> VT;
template <int i> struct mk; template <> struct mk<0> { static A go(int x) { return A(x); } };
template <bool th> static inline void emplace_throws(int x, int y)
{
    PRE;
    { VT v(ip<0>{}, x); bool threw = false;
      try { v.emplace<1>(y, th); } catch(int) { threw = true; }
      OBL_REQUIRE(threw == th); OBL_REQUIRE(v.valueless_by_exception() == th); LIVE(0, 0, !th);
      OBL_REQUIRE(th || (v.index() == 1 && estd::get<1>(v).t.v == y));
      v.emplace<0>(y); OBL_REQUIRE(v.index() == 0 && estd::get<0>(v).v == y); LIVE(1, 0, 0); }
    LIVE(0, 0, 0);
    { VT v(ip<1>{}, x, false); bool threw = false;
      try { v.emplace<1>(y, th); } catch(int) { threw = true; }
      OBL_REQUIRE(threw == th); OBL_REQUIRE(v.valueless_by_exception() == th); LIVE(0, 0, !th); }
    LIVE(0, 0, 0);
}
OBL(var_emplace_throws, int x, int y) { emplace_throws<true>(x, y); OBL_END; }
OBL(var_emplace_throws_not, int x, int y) { emplace_throws<false>(x, y); OBL_END; }
// assignment whose construction throws: whatever is held afterwards was constructed, and the old value is gone once
struct Thrower2 { obl::tracked<2> t; bool th; Thrower2(int v, bool th) noexcept : t(v), th(th) {}
    Thrower2(const Thrower2& o) : t(o.t), th(o.th) { if(th) throw 2; }
    Thrower2& operator=(const Thrower2&) = default; };
typedef estd::variant<A, Thrower2> VT2;
template <bool th> static inline void assign_throws(int x, int y)
{
    PRE;
    { Thrower2 t(y, th); VT2 v(ip<0>{}, x); bool threw = false;
      try { v = t; } catch(int) { threw = true; }
      OBL_REQUIRE(threw == th);
      OBL_REQUIRE(th || (v.index() == 1 && estd::get<1>(v).t.v == y));
      OBL_REQUIRE(!th || v.valueless_by_exception() || v.index() == 0);
      LIVE(v.index() == 0, 0, 1 + !th); }
    LIVE(0, 0, 0);
    { VT2 w(ip<1>{}, y, th); VT2 v(ip<0>{}, x); bool threw = false;
      try { v = w; } catch(int) { threw = true; }
      OBL_REQUIRE(threw == th);
      OBL_REQUIRE(th || (v.index() == 1 && estd::get<1>(v).t.v == y));
      OBL_REQUIRE(!th || v.valueless_by_exception() || v.index() == 0);
      LIVE(v.index() == 0, 0, 1 + !th); }
    LIVE(0, 0, 0);
}
OBL(var_assign_throws, int x, int y) { assign_throws<true>(x, y); OBL_END; }
OBL(var_assign_throws_not, int x, int y) { assign_throws<false>(x, y); OBL_END; }

struct alignas(32) Big { char c[40]; Big() {} Big(const Big&) {} ~Big() {} };
struct D { double d; D() {} ~D() {} D(const D&) {} };
OBL_STATIC(storage_fits, sizeof(V) > sizeof(NC) && sizeof(TV) >= sizeof(void*) + 1 && sizeof(estd::variant<char, Big>) >= sizeof(Big));
OBL_STATIC(aligned_trivial, alignof(TV) >= alignof(void*));
OBL_STATIC(alternatives, estd::variant_size<V>::value == 3);
template <class X, class Y> struct same { static const bool v = false; }; template <class X> struct same<X, X> { static const bool v = true; };
OBL_STATIC(alternative_t, same<estd::variant_alternative_t<0, V>, A>::v && same<estd::variant_alternative_t<1, V>, B>::v && same<estd::variant_alternative_t<2, V>, NC>::v);
OBL_STATIC(aligned, alignof(estd::variant<char, Big>) >= alignof(Big) && alignof(estd::variant<D, char>) >= alignof(D));
// ---- the alternative which is nothing: one value, so no two differ
OBL(nothing, int x)
{
    const estd::monostate m{}, n{};
    OBL_REQUIRE(m == n && !(m != n));
    OBL_REQUIRE(estd::hash<estd::monostate>()(m) == estd::hash<estd::monostate>()(n));
    typedef estd::variant<estd::monostate, int> M;
    M a{}, b(estd::in_place_index_t<1>{}, x);
    OBL_REQUIRE(a.index() == 0 && estd::get_if<estd::monostate>(&a) && !estd::get_if<int>(&a));
    OBL_REQUIRE(b.index() == 1 && *estd::get_if<int>(&b) == x && !estd::get_if<estd::monostate>(&b));
    a.emplace<int>(x);
    OBL_REQUIRE(a.index() == 1 && estd::get<1>(a) == x);
    a.emplace<estd::monostate>();
    OBL_REQUIRE(a.index() == 0 && !estd::get_if<int>(&a));
    OBL_END;
}
