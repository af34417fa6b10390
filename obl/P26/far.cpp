// std: 17
// thorough: 20
// min: 5
// peel: 2
// Descriptors, places and vectors over memory which moves: more than 256 elements.
#include <estd/allocators/handle_desc.h>
#include <estd/ostream.h>
#include "obl.h"
#include "cstr.h"
#include "moving.h"
namespace ei = estd::internal;
enum { N = 300 };
namespace oblt {
template <bool sized> void far_descriptor(int v)
{
    typedef moving<char, N, true, sized> store;
    estd::handle_descriptor<store> d;
    store& a = d.get_allocator();
    OBL_REQUIRE(d.allocate(260) && d.size() == 260 && d.max_size() == N && a.extent == 260);
    OBL_REQUIRE(&d.lock(258) == a.block[0] + 258); d.unlock();
    OBL_REQUIRE(d.reallocate(280) && d.size() == 280 && a.extent == 280);
    d.construct(270, char(v));
    OBL_REQUIRE(a.block[1][270] == char(v) && d.offset(270).offset() == 270);
    OBL_REQUIRE(!d.reallocate(N + 1) && d.size() == 280);
    OBL_REQUIRE(a.n.depth == 0 && !a.n.broken);
    OBL_END;
}
template <class S> void only_offset(S x, S y)
{
    typedef ei::handle_with_only_offset<bool, S> place;
    place p(x), q(true, y);
    OBL_REQUIRE(p.offset() == x && q.offset() == y && p.handle() && q.handle());
    OBL_REQUIRE((p == q) == (x == y) && (p < q) == (x < y) && (p > q) == (x > y));
    p += y; OBL_REQUIRE(p.offset() == S(x + y));
    p -= y; OBL_REQUIRE(p.offset() == x);
    OBL_END;
}
template <int> void raw(int* m, uint16_t by, uint16_t back)
{
    typedef ei::handle_with_offset_raw<int*> place;
    place p(m), q(m);
    OBL_REQUIRE(p == q && p.handle() == m && p - q == 0);
    place& r = p += by;
    OBL_REQUIRE(&r == &p && p.handle() == m + by && p - q == by && q - p == -ptrdiff_t(by) && (p == q) == (by == 0));
    OBL_END;
}
template <int> void far_vector(char v)
{
    typedef moving<char, 400> store;
    estd::vector<char, store> d;
    const store& a = d.get_allocator();
    d.push_back('x'); d.resize(270);
    d.push_back(v);
    OBL_REQUIRE(d.size() == 271); OBL_REQUIRE(a.block[a.at][270] == v);  OBL_REQUIRE(d.capacity() >= 271);
    OBL_REQUIRE(!a.n.broken && a.n.depth == 0);
    OBL_END;
}
}
OBL_INSTANCES(far_descriptor, (void*)&oblt::far_descriptor<true>, (void*)&oblt::far_descriptor<false>)
OBL_INSTANCES(only_offset, (void*)&oblt::only_offset<uint16_t>, (void*)&oblt::only_offset<size_t>)
OBL_INSTANCES(raw, (void*)&oblt::raw<0>)
OBL_INSTANCES(far_vector, (void*)&oblt::far_vector<0>)
