// std: 17
// thorough: 14 20
// min: 23
#include <estd/memory.h>
#include "obl.h"

typedef obl::tracked<0> T;
typedef estd::layer3::shared_ptr<T> R;   // non-owning-memory reference holder

#define PRE int l0 = T::live; (void)l0
#define LIVE(n) OBL_REQUIRE(T::live == l0 + (n))

// counts how often a custom deleter ran and on what
struct del { int* n; T** what; void operator()(T* p) { ++*n; *what = p; p->~T(); } };

// masters: object in the pointer's own storage, or in caller's storage; default or custom deleter
template <int kind> struct master;
template <> struct master<1> { estd::layer1::shared_ptr<T> p; int n = 0; T* what = nullptr; template <class F> void go(int v, F f) { p.construct(v); f(*this, p); } static const bool counts = false; };
template <> struct master<2> { int n = 0; T* what = nullptr; estd::layer1::shared_ptr<T, del> p; master() : p(del{&n, &what}) {} template <class F> void go(int v, F f) { p.construct(v); f(*this, p); } static const bool counts = true; };
template <> struct master<3> { alignas(T) char buf[sizeof(T)]; int n = 0; T* what = nullptr; static const bool counts = false;
    template <class F> void go(int v, F f) { T* t = new (buf) T(v); estd::layer2::shared_ptr<T> p(t); f(*this, p); } };
template <> struct master<4> { alignas(T) char buf[sizeof(T)]; int n = 0; T* what = nullptr; static const bool counts = true;
    template <class F> void go(int v, F f) { T* t = new (buf) T(v); estd::layer2::shared_ptr<T, del> p(t, del{&n, &what}); f(*this, p); } };

template <int kind> static inline void scopes(int v)
{
    PRE;
    { master<kind> m;
      m.go(v, [&](master<kind>& m, auto& p) {
        LIVE(1); OBL_REQUIRE(p.use_count() == 1); OBL_REQUIRE(p->v == v && (*p).v == v && p.get()->state == obl::ALIVE);
        T* obj = p.get();
        { R a(p); OBL_REQUIRE(p.use_count() == 2 && a.use_count() == 2 && a.get() == obj);
          { R b(a); OBL_REQUIRE(p.use_count() == 3 && b.use_count() == 3 && b.get() == obj);
            { R c(static_cast<R&&>(b)); OBL_REQUIRE(p.use_count() == 3 && c.use_count() == 3 && b.use_count() == 0 && c.get() == obj); }
            OBL_REQUIRE(p.use_count() == 2); }
          OBL_REQUIRE(p.use_count() == 2 && a.use_count() == 2); LIVE(1); OBL_REQUIRE(m.n == 0); }
        OBL_REQUIRE(p.use_count() == 1); LIVE(1); OBL_REQUIRE(p->v == v); });
      }
    LIVE(0);
}
OBL(sp_scopes1, int v) { scopes<1>(v); OBL_END; }
OBL(sp_scopes2, int v) { scopes<2>(v); OBL_END; }
OBL(sp_scopes3, int v) { scopes<3>(v); OBL_END; }
OBL(sp_scopes4, int v) { scopes<4>(v); OBL_END; }

// releasing order: the object goes exactly once, exactly with its last holder
template <int kind> static inline void order(int v)
{
    PRE;
    { master<kind> m;     // references before the owner
      m.go(v, [&](master<kind>& m, auto& p) {
        T* obj = p.get(); R a(p), b(a);
        a.reset(); OBL_REQUIRE(a.use_count() == 0 && p.use_count() == 2 && b.use_count() == 2); LIVE(1);
        a.reset(); OBL_REQUIRE(p.use_count() == 2);      // already released
        b.reset(); OBL_REQUIRE(p.use_count() == 1); LIVE(1); OBL_REQUIRE(m.n == 0);
        p.reset(); OBL_REQUIRE(p.use_count() == 0); LIVE(0);
        if(master<kind>::counts) OBL_REQUIRE(m.n == 1 && m.what == obj);
        p.reset(); LIVE(0); if(master<kind>::counts) OBL_REQUIRE(m.n == 1); });
      LIVE(0); }
    LIVE(0);
    { master<kind> m;     // the owner first: its references keep the object
      m.go(v, [&](master<kind>& m, auto& p) {
        T* obj = p.get(); R a(p), b(p);
        p.reset(); OBL_REQUIRE(p.use_count() == 0 && a.use_count() == 2 && b.use_count() == 2); LIVE(1); OBL_REQUIRE(a->v == v);
        b.reset(); OBL_REQUIRE(a.use_count() == 1); LIVE(1); OBL_REQUIRE(m.n == 0);
        a.reset(); LIVE(0); if(master<kind>::counts) OBL_REQUIRE(m.n == 1 && m.what == obj); });
      LIVE(0); }
    LIVE(0);
    { master<kind> m;     // a reference copied after the owner let go still counts
      m.go(v, [&](master<kind>& m, auto& p) {
        R a(p); p.reset(); LIVE(1);
        { R b(a); OBL_REQUIRE(b.use_count() == 2 && a.use_count() == 2); }
        OBL_REQUIRE(a.use_count() == 1); LIVE(1); OBL_REQUIRE(m.n == 0 && a->v == v); });
      LIVE(0); }
    LIVE(0);
}
OBL(sp_order1, int v) { order<1>(v); OBL_END; }
OBL(sp_order2, int v) { order<2>(v); OBL_END; }
OBL(sp_order3, int v) { order<3>(v); OBL_END; }
OBL(sp_order4, int v) { order<4>(v); OBL_END; }

// assignment and swap between references to two objects
template <int kind> static inline void assign(int v, int w)
{
    PRE;
    { master<kind> m; master<3> k;
      m.go(v, [&](master<kind>& m, auto& p) { k.go(w, [&](master<3>&, auto& q) {
        R a(p), b(q); LIVE(2);
        R& r = (a = b); OBL_REQUIRE(&r == &a && a.get() == q.get() && a->v == w); OBL_REQUIRE(p.use_count() == 1 && q.use_count() == 3); LIVE(2);
        a = p; OBL_REQUIRE(a.get() == p.get() && p.use_count() == 2 && q.use_count() == 2);
        a.swap(b); OBL_REQUIRE(a.get() == q.get() && b.get() == p.get() && p.use_count() == 2 && q.use_count() == 2);
        a.reset(); a = b; OBL_REQUIRE(a.get() == p.get() && p.use_count() == 3 && q.use_count() == 1); LIVE(2);
        R& s = a; a = s; OBL_REQUIRE(a.use_count() == 3 && a.get() == p.get()); }); });
    }
    LIVE(0);
}
OBL(sp_assign1, int v, int w) { assign<1>(v, w); OBL_END; }
OBL(sp_assign2, int v, int w) { assign<2>(v, w); OBL_END; }
OBL(sp_assign3, int v, int w) { assign<3>(v, w); OBL_END; }
OBL(sp_assign4, int v, int w) { assign<4>(v, w); OBL_END; }

// nothing constructed: nothing to count, nothing destroyed; reconstruction after release
OBL(sp_empty, int)
{
    PRE; { estd::layer1::shared_ptr<T> p; OBL_REQUIRE(p.use_count() == 0); LIVE(0); R a(p); OBL_REQUIRE(a.use_count() == 0 && p.use_count() == 0); R b(a); OBL_REQUIRE(b.use_count() == 0); a.reset(); p.reset(); LIVE(0); }
    LIVE(0); OBL_END;
}
OBL(sp_reuse, int v, int w)
{
    PRE; { estd::layer1::shared_ptr<T> p; p.construct(v); { R a(p); OBL_REQUIRE(a.use_count() == 2); } p.reset(); LIVE(0);
      p.construct(w); LIVE(1); OBL_REQUIRE(p.use_count() == 1 && p->v == w); R a(p); OBL_REQUIRE(a.use_count() == 2 && a->v == w); a.reset(); }
    LIVE(0); OBL_END;
}
// a moved-from reference holds nothing; the target owns its share
template <int kind> static inline void moving(int v)
{
    PRE; { master<kind> m;
      m.go(v, [&](master<kind>&, auto& p) { R a(p); R b(static_cast<R&&>(a)); p.reset(); LIVE(1); OBL_REQUIRE(b.use_count() == 1 && a.use_count() == 0); a.reset(); LIVE(1); b.reset(); LIVE(0); }); }
    LIVE(0);
}
OBL(sp_move1, int v) { moving<1>(v); OBL_END; }
OBL(sp_move2, int v) { moving<2>(v); OBL_END; }
OBL(sp_move3, int v) { moving<3>(v); OBL_END; }
OBL(sp_move4, int v) { moving<4>(v); OBL_END; }

// a reference taken from an owner which has already let go holds nothing
template <int kind> static inline void late(int v)
{
    PRE; { master<kind> m;
      m.go(v, [&](master<kind>& m, auto& p) { p.reset(); LIVE(0);
        { R a(p); OBL_REQUIRE(a.use_count() == 0 && p.use_count() == 0); R b(a); OBL_REQUIRE(b.use_count() == 0); a.reset(); LIVE(0);
          R c(static_cast<R&&>(b)); OBL_REQUIRE(c.use_count() == 0); }
        LIVE(0); if(master<kind>::counts) OBL_REQUIRE(m.n == 1); });
      LIVE(0); }
    LIVE(0);
    { master<kind> m;       // the same by assignment
      m.go(v, [&](master<kind>& m, auto& p) { R a(p); p.reset(); LIVE(1); OBL_REQUIRE(a.use_count() == 1); a = p; OBL_REQUIRE(a.use_count() == 0); LIVE(0); });
      LIVE(0); }
    LIVE(0);
}
OBL(sp_late1, int v) { late<1>(v); OBL_END; }
OBL(sp_late2, int v) { late<2>(v); OBL_END; }
OBL(sp_late3, int v) { late<3>(v); OBL_END; }
OBL(sp_late4, int v) { late<4>(v); OBL_END; }

// identity: two holders compare equal exactly when they manage the same object
OBL(sp_equal, int v, int w)
{
    PRE; { using estd::operator==; estd::layer1::shared_ptr<T> p, q; p.construct(v); q.construct(w); R a(p), b(p), c(q);
      OBL_REQUIRE(a == b && a == p && !(a == c) && !(p == q) && q == c); }
    LIVE(0); OBL_END;
}
// more holders than an 8 bit count can tell apart
OBL_STATIC(count_width, sizeof(static_cast<R*>(nullptr)->use_count()) >= 2);

struct alignas(32) Big { char c[40]; };
OBL_STATIC(own_storage_aligned, alignof(estd::layer1::shared_ptr<Big>) >= alignof(Big));
