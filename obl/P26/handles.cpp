// std: 17
// thorough: 20
// min: 9
// Accessors, offsets and descriptors over memory which moves.
#include <estd/allocators/handle_desc.h>
#include <estd/ostream.h>
#include "obl.h"
#include "cstr.h"
#include "moving.h"

namespace oblt {
namespace ei = estd::internal;
typedef moving<int, 8> store;
typedef store::handle_with_offset place;
#define SOUND(a) OBL_REQUIRE((a).n.depth == 0); OBL_REQUIRE(!(a).n.broken)
// four numbers in a store
struct filled
{
    store a;
    store::handle_type h;
    filled(int p, int q, int r, int s) { h = a.allocate(4); int* v = &a.lock(h); v[0] = p; v[1] = q; v[2] = r; v[3] = s; a.unlock(h); }
};
#define IN_STORE(name, ...) template <int> void name(int p, int q, int r, int s, int v) { filled f(p, q, r, s); store& a = f.a; (void)v; \
    __VA_ARGS__ SOUND(a); OBL_END; }
IN_STORE(accessor_reads, ei::accessor<store> x(a, place(f.h, 1)); const ei::accessor<store>& k = x; OBL_REQUIRE(int(x) == q); OBL_REQUIRE(int(k) == q); OBL_REQUIRE((k == v) == (q == v)); OBL_REQUIRE((k != v) == (q != v)); OBL_REQUIRE((k < v) == (q < v)); OBL_REQUIRE((k > v) == (q > v));)
IN_STORE(accessor_writes, ei::accessor<store> x(a, place(f.h, 2)); ei::accessor<store>& y = x = v; OBL_REQUIRE(&y == &x); OBL_REQUIRE(int(x) == v); OBL_REQUIRE(a.block[0][2] == v); OBL_REQUIRE(a.block[0][1] == q); OBL_REQUIRE(a.block[0][3] == s);)
IN_STORE(accessor_locks, ei::accessor<store> x(a, place(f.h, 3)); OBL_REQUIRE(&x.lock() == &a.block[0][3]); OBL_REQUIRE(a.n.depth == 1); x.unlock(); OBL_REQUIRE(a.n.depth == 0); OBL_REQUIRE(&x.clock() == &a.block[0][3]); OBL_REQUIRE(a.n.depth == 1); x.cunlock();)
IN_STORE(accessor_copies, ei::accessor<store> x(a, place(f.h, 1)), y(x), z(a, place(f.h, 0)); OBL_REQUIRE(y.h_exp() == x.h_exp()); OBL_REQUIRE(int(y) == q); z = y; OBL_REQUIRE(int(z) == q); OBL_REQUIRE(a.block[0][0] == p); z = v; OBL_REQUIRE(int(x) == v); OBL_REQUIRE(a.block[0][0] == p);)
IN_STORE(accessor_travels, ei::accessor<store> x(a, place(f.h, 0)); x.h_exp() += 2; OBL_REQUIRE(int(x) == r); x.h_exp() -= 1; OBL_REQUIRE(int(x) == q);)
template <int> void places(uint8_t h, uint16_t x, uint16_t y, uint16_t by)
{
    place m(h, x), n(h, y), o(uint8_t(h + 1), x);
    OBL_REQUIRE(m.handle() == h); OBL_REQUIRE(m.offset() == x);
    OBL_REQUIRE((m == n) == (x == y)); OBL_REQUIRE(!(m == o));
    OBL_REQUIRE((m > n) == (x > y)); OBL_REQUIRE((m < n) == (x < y)); OBL_REQUIRE((m >= n) == (x >= y));
    OBL_REQUIRE(m - n == ptrdiff_t(x) - ptrdiff_t(y));
    m += by; OBL_REQUIRE(m.offset() == uint16_t(x + by)); OBL_REQUIRE(m.handle() == h);
    m -= by; OBL_REQUIRE(m.offset() == x); OBL_REQUIRE(m.handle() == h);
    OBL_END;
}
// a descriptor: store, handle and size
struct life { static int up, down; int v; life(int a = 0, int b = 0) : v(a * 2 + b) { up++; } life(const life& o) : v(o.v) { up++; } ~life() { down++; } };
int life::up = 0; int life::down = 0;
template <bool sized> void descriptor(int v, int w)
{
    typedef moving<int, 8, true, sized> store;
    typedef typename store::handle_with_offset place;
    estd::handle_descriptor<store> d;
    store& a = d.get_allocator();
    OBL_REQUIRE(!d.is_allocated()); OBL_REQUIRE(d.handle() == a.invalid()); OBL_REQUIRE(d.size() == 0); OBL_REQUIRE(d.max_size() == 8);
    OBL_REQUIRE(!d.allocate(9)); OBL_REQUIRE(!d.is_allocated());
    OBL_REQUIRE(d.allocate(2)); OBL_REQUIRE(d.is_allocated()); OBL_REQUIRE(d.handle() == a.live); OBL_REQUIRE(d.size() == 2);
    const int two[] = {v, w};
    d.copy_into(two, 0, 2);
    OBL_REQUIRE(a.block[0][0] == v); OBL_REQUIRE(a.block[0][1] == w);
    OBL_REQUIRE(d.reallocate(4)); OBL_REQUIRE(d.handle() == a.live); OBL_REQUIRE(d.size() == 4); OBL_REQUIRE(a.block[1][0] == v); OBL_REQUIRE(a.block[1][1] == w);
    d.copy_into(two, 1, 2);
    OBL_REQUIRE(a.block[1][0] == v); OBL_REQUIRE(a.block[1][1] == v); OBL_REQUIRE(a.block[1][2] == w);
    d.construct(3, w); OBL_REQUIRE(a.block[1][3] == w);
    OBL_REQUIRE(&d.lock() == a.block[1]); OBL_REQUIRE(a.n.depth == 1); d.unlock();
    OBL_REQUIRE(&d.lock(2) == a.block[1] + 2); d.unlock();
    OBL_REQUIRE(&d.clock() == a.block[1]); d.cunlock();
    OBL_REQUIRE(&d.clock(3) == a.block[1] + 3); OBL_REQUIRE(a.n.depth == 1); d.cunlock();
    OBL_REQUIRE(d.offset(3) == place(a.live, 3));
    OBL_REQUIRE(!d.reallocate(9)); OBL_REQUIRE(d.is_allocated()); OBL_REQUIRE(d.handle() == a.live); OBL_REQUIRE(d.size() == 4); OBL_REQUIRE(a.block[1][3] == w);
    d.free(); OBL_REQUIRE(a.n.freed == 1);
    SOUND(a);
    OBL_END;
}
template <int> void descriptor_lives(int v, int w)
{
    estd::handle_descriptor<moving<life, 4> > d;
    moving<life, 4>& a = d.get_allocator();
    d.allocate(3);
    const int up = life::up, down = life::down;
    d.construct(1, v, w);
    OBL_REQUIRE(life::up == up + 1); OBL_REQUIRE(life::down == down);
    OBL_REQUIRE(d.clock(1).v == v * 2 + w); d.cunlock();
    d.destroy(1);
    OBL_REQUIRE(life::up == up + 1); OBL_REQUIRE(life::down == down + 1);
    SOUND(a);
    new(&a.block[0][1]) life;
    OBL_END;
}
}
#define ONE(f) OBL_INSTANCES(f, (void*)&oblt::f<0>)
ONE(accessor_reads)
ONE(accessor_writes)
ONE(accessor_locks)
ONE(accessor_copies)
ONE(accessor_travels)
ONE(places)
OBL_INSTANCES(descriptor, (void*)&oblt::descriptor<true>, (void*)&oblt::descriptor<false>)
ONE(descriptor_lives)
