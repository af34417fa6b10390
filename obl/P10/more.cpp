// std: 17
// thorough: 20
// min: 2
// peel: 4
// rounds: 8
// Iterators of lists of constant elements, of doubly linked nodes, and elements moved in.
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/internal/list/intrusive_forward.h>
#include "obl.h"
typedef long long T;
struct both
{
    int id; T v; both *n, *p;
    both* next() const { return n; }
    void next(both* x) { n = x; }
    both* prev() const { return p; }
    void prev(both* x) { p = x; }
};
namespace il = estd::internal::list;
typedef il::intrusive_traits<both, both> BT;
typedef il::intrusive_iterator<both, BT> It;
typedef obl::tracked<0> E;
typedef estd::experimental::ValueNode<E, estd::experimental::forward_node_base> enode;
template <class N> struct arena : estd::experimental_std_allocator<N>
{
    typedef N* pointer; typedef N* handle_type;
    struct slot { alignas(N) unsigned char raw[sizeof(N)]; };
    static slot store[4];
    static int at, freed;
    N* allocate(size_t n) { OBL_REQUIRE(n == 1 && at < 4); return (N*)store[at++].raw; }
    void deallocate(N*, size_t n) { OBL_REQUIRE(n == 1); freed++; }
};
template <class N> typename arena<N>::slot arena<N>::store[4];
template <class N> int arena<N>::at;
template <class N> int arena<N>::freed;
namespace oblt {
// there and back, before and after
void back_and_forth(T a, T b, T c)
{
    both n[3] = {{0, a, nullptr, nullptr}, {1, b, nullptr, nullptr}, {2, c, nullptr, nullptr}};
    n[0].n = &n[1]; n[1].n = &n[2]; n[1].p = &n[0]; n[2].p = &n[1];
    It i(&n[0]);
    const It k(&n[1]);
    OBL_REQUIRE(&*k == &n[1] && k != i && !(k == i));
    It j = i++;
    OBL_REQUIRE(&*j == &n[0] && i == k && &*i == &n[1]);
    It x = i--;
    OBL_REQUIRE(&*x == &n[1] && i == j);
    OBL_REQUIRE(&*++i == &n[1] && &*++i == &n[2] && &*--i == &n[1] && (*i).v == b);
    ++i;
    OBL_REQUIRE(i != il::null_iterator() && !(i == il::null_iterator()));
    ++i;
    OBL_REQUIRE(i == il::null_iterator() && !(i != il::null_iterator()) && i == It(il::null_iterator()));
    OBL_REQUIRE(n[0].v == a && n[1].v == b && n[2].v == c && n[0].n == &n[1] && n[2].p == &n[1]);
    OBL_END;
}
// elements moved in are moved, not copied; each node given back once
void moved_in(int a, int b)
{
    E::live = E::copies = E::moves = 0;
    typedef arena<enode> A;
    A::at = A::freed = 0;
    {
        estd::internal::forward_list<E, enode, A, estd::inlinevalue_node_traits_new_base<enode, A, estd::nothing_allocator<E> > > l;
        E x(a), y(b);
        l.push_front(static_cast<E&&>(x));
        OBL_REQUIRE(E::copies == 0 && (*l.begin()).v == a && x.v == -1);
        l.push_front(y);
        OBL_REQUIRE(E::copies == 1 && (*l.begin()).v == b && y.v == b);
        OBL_REQUIRE(A::at == 2 && A::freed == 0);
        l.pop_front();
        OBL_REQUIRE(A::freed == 1 && (*l.begin()).v == a && E::live == 3);
        l.pop_front();
        OBL_REQUIRE(A::freed == 2 && l.empty() && E::live == 2 && x.v == -1 && y.v == b);
    }
    OBL_END;
}
}
OBL_INSTANCES(back_and_forth, (void*)&oblt::back_and_forth)
OBL_INSTANCES(moved_in, (void*)&oblt::moved_in)
