// std: 17
// thorough: 11 20
// min: 200
// shards: 1 2 3 4
// thorough-shards: 5
// peel: 4
// allow: new delete
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/internal/list/intrusive_forward.h>
#include "obl.h"

// Linked lists against a plain sequence of the nodes they should hold, by address and value.
typedef long long T;
struct M
{
    int c[16], n = 0;
    inline void put(int at, int k) { for(int i = n; i > at; i--) c[i] = c[i - 1]; c[at] = k; n++; }
    inline void drop(int at) { n--; for(int i = at; i < n; i++) c[i] = c[i + 1]; }
};
struct node : estd::experimental::forward_node_base
{
    int id; T v;
    bool operator==(const node& o) const { return (id & 1) == (o.id & 1); }   // odd and even nodes
};
struct node2 : estd::experimental::forward_node_base_base<node2*>
{
    int id; T v;
    node2() : forward_node_base_base(nullptr) {}
};
enum { NODES = 5 };
template <class node> struct pool
{
    node n[NODES];
    pool(T a, T b, T c, T d, T e)
    {
        const T in[] = {a, b, c, d, e};
        for(int i = 0; i < NODES; i++) { n[i].id = i; n[i].v = in[i]; }
    }
    inline void same(T a, T b, T c, T d, T e)
    {
        const T in[] = {a, b, c, d, e};
        for(int i = 0; i < NODES; i++) OBL_REQUIRE(n[i].id == i && n[i].v == in[i]);
    }
};
// operation: code, position or mask, node
enum { PF = 1000, OF = 2000, IA = 3000, EA = 4000, RM = 5000, R1 = 6000, RV = 7000, RV1 = 8000, PB = 9000, RA = 10000 };

template <class L, class P> static inline void agree(L& l, P& p, M& m)
{
    const L& k = l;
    OBL_REQUIRE(k.empty() == (m.n == 0));
    if(m.n) OBL_REQUIRE(&l.front() == &p.n[m.c[0]]);
    auto it = l.begin();
    for(int i = 0; i < m.n; i++)
    {
        OBL_REQUIRE(it != l.end() && !(it == l.end()));
        OBL_REQUIRE(&*it == &p.n[m.c[i]]);
        if(i & 1) { auto before = it++; OBL_REQUIRE(&*before == &p.n[m.c[i]]); }
        else ++it;
    }
    OBL_REQUIRE(it == l.end() && !(it != l.end()));
}
template <class L> static inline typename L::iterator at(L& l, int n) { auto it = l.begin(); while(n--) ++it; return it; }

// what removing by predicate leaves
template <class F> static inline void model_remove(M& m, bool first, F f)
{
    M r; bool done = false;
    for(int i = 0; i < m.n; i++)
        if(!done && f(m.c[i])) { if(first) done = true; }
        else r.c[r.n++] = m.c[i];
    m = r;
}
template <int o, class L> static inline void step(L& l, pool<node>& p, M& m)
{
    constexpr int code = o / 1000 * 1000, a = o / 10 % 100, k = o % 10;
    if constexpr(code == PF) { l.push_front(p.n[k]); m.put(0, k); }
    else if constexpr(code == OF) { l.pop_front(); m.drop(0); }
    else if constexpr(code == IA)
    {
        auto it = l.insert_after(at(l, a), p.n[k]);
        OBL_REQUIRE(&*it == &p.n[k]);
        m.put(a + 1, k);
    }
    else if constexpr(code == EA)
    {
        auto it = l.erase_after(at(l, a));
        m.drop(a + 1);
        OBL_REQUIRE(it == at(l, a + 1));
    }
    else if constexpr(code == RM || code == R1)
    {
        auto f = [](const node& n) { return (a >> n.id & 1) != 0; };
        if(code == RM) l.remove_if(f); else l.remove_if(f, true);
        model_remove(m, code == R1, [](int id) { return (a >> id & 1) != 0; });
    }
    else if constexpr(code == RV || code == RV1)
    {
        node& x = p.n[k];
        if(code == RV) l.remove(x); else l.remove(x, true);
        model_remove(m, code == RV1, [](int id) { return (id & 1) == (k & 1); });
    }
}
template <int o, class L> static inline void step_back(L& l, pool<node>& p, M& m)
{
    constexpr int code = o / 1000 * 1000, k = o % 10;
    if constexpr(code == PF) { l.push_front(p.n[k]); m.put(0, k); }
    else if constexpr(code == PB) { l.push_back(p.n[k]); m.put(m.n, k); }
    else if constexpr(code == OF) { l.pop_front(); m.drop(0); }
    if(m.n) OBL_REQUIRE(&l.back() == &p.n[m.c[m.n - 1]]);
}
template <int o, class L> static inline void step_intr(L& l, pool<node2>& p, M& m)
{
    constexpr int code = o / 1000 * 1000, a = o / 10 % 100, k = o % 10;
    if constexpr(code == PF) { l.push_front(p.n[k]); m.put(0, k); }
    else if constexpr(code == OF) { l.pop_front(); m.drop(0); }
    else if constexpr(code == IA) { auto it = L::insert_after(at(l, a), p.n[k]); OBL_REQUIRE(&*it == &p.n[k]); m.put(a + 1, k); }
    else if constexpr(code == EA) { auto it = L::erase_after(at(l, a)); m.drop(a + 1); OBL_REQUIRE(it == at(l, a + 1)); }
    else if constexpr(code == RA) { auto it = L::replace_after(at(l, a), p.n[k]); OBL_REQUIRE(&*it == &p.n[k]); m.c[a + 1] = k; }
    else if constexpr(code == RM) { l.clear(); m.n = 0; }
}
#define RUN(name, NODE, STEP) \
template <class L> static inline void name(L& l, pool<NODE>& p, M& m, obl::seq<>) {} \
template <class L, int o, int... os> static inline void name(L& l, pool<NODE>& p, M& m, obl::seq<o, os...>) \
{ STEP<o>(l, p, m); agree(l, p, m); name(l, p, m, obl::seq<os...>()); }
RUN(run, node, step)
RUN(run_back, node, step_back)
RUN(run_intr, node2, step_intr)

#define ARG T a, T b, T c, T d, T e
namespace oblt {
template <int... os> void fwd(ARG)
{
    pool<node> p(a, b, c, d, e); M m;
    estd::intrusive_forward_list<node> l;
    agree(l, p, m);
    run(l, p, m, obl::seq<os...>());
    p.same(a, b, c, d, e);
    OBL_END;
}
template <int... os> void back(ARG)
{
    pool<node> p(a, b, c, d, e); M m;
    estd::intrusive_forward_list_with_back<node> l;
    agree(l, p, m);
    run_back(l, p, m, obl::seq<os...>());
    p.same(a, b, c, d, e);
    OBL_END;
}
template <int... os> void intr(ARG)
{
    pool<node2> p(a, b, c, d, e); M m;
    estd::internal::list::intrusive_forward<node2> l;
    agree(l, p, m);
    run_intr(l, p, m, obl::seq<os...>());
    p.same(a, b, c, d, e);
    OBL_END;
}
}
#define P(k) (PF + k)
#define B(k) (PB + k)
#define I(p, k) (IA + 10 * (p) + k)
#define E(p) (EA + 10 * (p))
#define R(mask) (RM + 10 * (mask))
#define R_1(mask) (R1 + 10 * (mask))
#define V(k) (RV + k)
#define V1(k) (RV1 + k)
#define X(p, k) (RA + 10 * (p) + k)
#define C (RM)
#define F(...) (void*)&oblt::fwd<__VA_ARGS__>,
#define G(...) (void*)&oblt::back<__VA_ARGS__>,
#define H(...) (void*)&oblt::intr<__VA_ARGS__>,
#define THREE P(2), P(1), P(0)
#define FOUR P(3), P(2), P(1), P(0)
// nothing has been lost: elements can still be added before, in and after
#define RMASK(m) F(THREE, R(m), P(4)) F(THREE, R_1(m), P(4))
#define RMASK4(m) F(FOUR, R(m), P(4)) F(FOUR, R_1(m), P(4))
OBL_INSTANCES(all,
#if SHARD == 1
    F(P(0)) F(P(0), OF) F(P(0), OF, P(0)) F(P(1), P(0), OF, OF, P(2)) F(THREE, OF, P(0)) F(THREE, OF, OF, P(1), OF, OF)
    F(P(0), I(0, 1)) F(P(0), I(0, 1), I(0, 2), I(1, 3), I(3, 4)) F(THREE, I(0, 3)) F(THREE, I(1, 3)) F(THREE, I(2, 3)) F(THREE, I(2, 3), I(3, 4))
    F(THREE, E(0)) F(THREE, E(1)) F(THREE, E(1), I(1, 2)) F(THREE, E(0), E(0), I(0, 1)) F(FOUR, E(1), E(1), OF, OF) F(FOUR, E(0), P(4), E(1))
    F(THREE, V(0)) F(THREE, V(1)) F(THREE, V1(0)) F(THREE, V1(1)) F(P(3), P(2), P(1), V(1)) F(P(2), P(0), P(1), V(0)) F(P(2), P(0), P(1), V(1), V(0)) F(P(3), P(1), P(0), V(1)) F(V(0)) F(THREE, V(0), V(1), P(2))
    F(P(4), P(2), P(0), V(4)) F(P(4), P(2), P(0), V1(4)) F(P(1), P(2), P(0), V1(2))
#elif SHARD == 2
    RMASK(0) RMASK(1) RMASK(2) RMASK(3) RMASK(4) RMASK(5) RMASK(6) RMASK(7) F(R(7)) F(P(0), R(1), P(1)) F(P(0), R(2), P(1))
    RMASK4(0) RMASK4(1) RMASK4(2) RMASK4(3) RMASK4(4) RMASK4(5) RMASK4(6) RMASK4(7)
    RMASK4(8) RMASK4(9) RMASK4(10) RMASK4(11) RMASK4(12) RMASK4(13) RMASK4(14) RMASK4(15)
#elif SHARD == 3
    G(P(0)) G(B(0)) G(P(1), P(0)) G(B(0), B(1)) G(P(0), B(1)) G(B(1), P(0)) G(P(1), P(0), B(2)) G(B(1), P(0), B(2)) G(B(0), B(1), B(2)) G(B(1), B(2), P(0)) G(P(1), B(2), P(0)) G(P(2), P(1), P(0))
    G(P(0), OF) G(B(0), OF) G(B(0), OF, B(1)) G(P(0), OF, B(1), B(2)) G(B(0), OF, P(1)) G(B(0), OF, P(1), B(2)) G(B(0), B(1), OF, B(2)) G(B(0), B(1), OF, OF, B(2), B(3))
    G(B(0), B(1), B(2), B(3), OF, OF, B(4), OF, OF, OF, B(0)) G(P(0), B(1), OF, B(0)) G(B(0), B(1), OF, B(0), OF, B(1)) G(P(1), P(0), OF, P(2), B(3)) G(B(0), B(1), OF, P(0), B(2)) G(B(0), B(1), B(2), OF, B(0), OF, B(1))
    G(B(0), B(1), OF, OF, B(0)) G(P(1), P(0), OF, OF, B(0), P(1))
    H(P(0)) H(P(1), P(0)) H(THREE) H(THREE, OF) H(THREE, OF, OF, OF, P(1)) H(P(0), I(0, 1)) H(THREE, I(0, 3)) H(THREE, I(1, 3)) H(THREE, I(2, 3), I(3, 4))
    H(THREE, E(0)) H(THREE, E(1)) H(THREE, E(0), E(0), I(0, 2)) H(FOUR, E(1), I(0, 2)) H(THREE, X(0, 3)) H(THREE, X(1, 3)) H(P(1), P(0), X(0, 2), OF, P(3)) H(THREE, C) H(THREE, C, P(2))
#elif SHARD == 5
#define A1(...) F(__VA_ARGS__) F(__VA_ARGS__, OF) F(__VA_ARGS__, I(0, 4)) F(__VA_ARGS__, R(5)) F(__VA_ARGS__, R(10)) F(__VA_ARGS__, V(0)) F(__VA_ARGS__, V1(1)) F(__VA_ARGS__, R_1(6))
    A1(FOUR, OF) A1(FOUR, E(0)) A1(FOUR, E(1)) A1(FOUR, E(2)) A1(P(3), P(1), P(0), I(0, 2)) A1(P(3), P(1), P(0), I(1, 2)) A1(P(3), P(1), P(0), I(2, 2)) A1(P(2), P(0), I(0, 1), I(2, 3))
#endif
    nullptr)

// Doubly linked lists which own their nodes
// hands out the slots of a small store, in turn
template <class N> struct arena : estd::experimental_std_allocator<N>
{
    typedef N* pointer; typedef N* handle_type;
    struct slot { alignas(N) unsigned char raw[sizeof(N)]; };
    static slot store[8];
    static int at, freed;
    static N* last;
    N* allocate(size_t n) { OBL_REQUIRE(n == 1 && at < 8); return (N*)store[at++].raw; }
    void deallocate(N* p, size_t n) { OBL_REQUIRE(n == 1); freed++; last = p; }
};
template <class N> typename arena<N>::slot arena<N>::store[8];
template <class N> int arena<N>::at;
template <class N> int arena<N>::freed;
template <class N> N* arena<N>::last;
typedef estd::experimental::ValueNode<T, estd::experimental::double_node_base> dnode;
typedef estd::internal::list_base<T, dnode, arena<dnode>,
    estd::inlinevalue_node_traits_new_base<dnode, arena<dnode>, estd::nothing_allocator<T> > > dlist;
typedef estd::experimental::ValueNode<T, estd::experimental::forward_node_base> fnode;
typedef estd::internal::forward_list<T, fnode> flist;
struct MT
{
    T c[16]; int n = 0;
    inline void put(int at, T k) { for(int i = n; i > at; i--) c[i] = c[i - 1]; c[at] = k; n++; }
    inline void drop(int at) { n--; for(int i = at; i < n; i++) c[i] = c[i + 1]; }
};
enum { DF = 0, DB = 20, DI = 40, DFM = 60, DBM = 80, DE = 100 };
static inline void agree_d(dlist& l, MT& m)
{
    const dlist& k = l;
    OBL_REQUIRE(k.empty() == (m.n == 0));
    if(!m.n) return;
    OBL_REQUIRE(l.back() == m.c[m.n - 1]);
    auto it = l.begin();
    for(int i = 0; i < m.n; i++)
    {
        OBL_REQUIRE(it != l.end() && *it == m.c[i]);
        if(i < m.n - 1) ++it;
    }
    // and back again
    for(int i = m.n - 1; i > 0; i--) { OBL_REQUIRE(*it == m.c[i]); if(i & 1) --it; else it--; }
    OBL_REQUIRE(it == l.begin());
    it += m.n;
    OBL_REQUIRE(it == l.end());
}
template <int o> static inline void step_d(dlist& l, MT& m, T v)
{
    constexpr int code = o / 20 * 20, a = o % 20;
    if constexpr(code == DF) { l.push_front(v); m.put(0, v); }
    else if constexpr(code == DFM) { l.push_front(T(v)); m.put(0, v); }
    else if constexpr(code == DB) { l.push_back(v); m.put(m.n, v); }
    else if constexpr(code == DBM) { l.push_back(T(v)); m.put(m.n, v); }
    else if constexpr(code == DE) { l.emplace_front(v); m.put(0, v); }
    else
    {
        auto pos = l.begin();
        for(int i = 0; i < a; i++) ++pos;
        auto it = l.insert(pos, v);
        OBL_REQUIRE(*it == v);
        m.put(a, v);
    }
}
static inline void run_d(dlist& l, MT& m, const T* in, obl::seq<>) {}
template <int o, int... os> static inline void run_d(dlist& l, MT& m, const T* in, obl::seq<o, os...>)
{
    step_d<o>(l, m, *in); agree_d(l, m); run_d(l, m, in + 1, obl::seq<os...>());
}
namespace oblt {
template <int... os> void dbl(ARG)
{
    const T in[] = {a, b, c, d, e, a, b, c};
    arena<dnode>::at = 0;
    dlist l; MT m;
    agree_d(l, m);
    run_d(l, m, in, obl::seq<os...>());
    OBL_END;
}
}
#define D(...) (void*)&oblt::dbl<__VA_ARGS__>,
#define D1(...) D(__VA_ARGS__) D(__VA_ARGS__, DF) D(__VA_ARGS__, DB) D(__VA_ARGS__, DI) D(__VA_ARGS__, DFM) D(__VA_ARGS__, DBM) D(__VA_ARGS__, DE)
#if SHARD == 4
OBL_INSTANCES(dl,
    D1(DF) D1(DB) D1(DI) D1(DFM) D1(DBM) D1(DE) D(DF, DI + 1) D(DF, DB, DI + 1) D(DF, DB, DI + 2)
    D1(DB, DB) D1(DB, DI + 1) D1(DF, DI + 1, DI + 1) D1(DB, DB, DI + 1) D1(DB, DB, DI + 2) D1(DF, DF, DF) D(DB, DB, DB, DI + 1, DI + 3) D(DB, DB, DB, DI + 3, DI + 1) D(DB, DB, DB, DI + 2, DI + 2) D(DI, DI + 1, DI + 2, DB)
    nullptr)
// singly linked, owning its nodes
OBL(owned, ARG)
{
    flist l;
    OBL_REQUIRE(l.empty());
    l.push_front(b);
    l.emplace_front(a);
    auto i = l.begin();
    OBL_REQUIRE(!l.empty() && *i++ == a && *i == b);
    l.insert_after(i, d);
    l.insert_after(i, c);
    i = l.begin();
    OBL_REQUIRE(*i++ == a && *i++ == b && *i++ == c && *i++ == d && i == l.end());
    l.pop_front();
    OBL_REQUIRE(*l.begin() == b);
    OBL_REQUIRE(*(l.begin() + 2) == d);
    l.pop_front(); l.pop_front(); l.pop_front();
    OBL_REQUIRE(l.empty() && l.begin() == l.end());
    OBL_END;
}
// nodes popped go back to where they came from, once
OBL(owned_returned, ARG)
{
    typedef arena<fnode> A;
    A::at = A::freed = 0;
    estd::internal::forward_list<T, fnode, A, estd::inlinevalue_node_traits_new_base<fnode, A, estd::nothing_allocator<T> > > l;
    l.push_front(b); l.push_front(a); l.emplace_front(c);
    OBL_REQUIRE(A::at == 3 && A::freed == 0);
    l.pop_front();
    OBL_REQUIRE(A::freed == 1 && A::last == (fnode*)A::store[2].raw && *l.begin() == a);
    l.pop_front();
    OBL_REQUIRE(A::freed == 2 && A::last == (fnode*)A::store[1].raw && *l.begin() == b);
    l.pop_front();
    OBL_REQUIRE(A::freed == 3 && A::last == (fnode*)A::store[0].raw && l.empty());
    OBL_END;
}
// arithmetic of bidirectional iterators
OBL(iterators, ARG)
{
    arena<dnode>::at = 0;
    dlist l;
    l.push_back(a); l.push_back(b); l.push_back(c); l.push_back(d);
    auto i = l.begin();
    i += 3;
    OBL_REQUIRE(*i == d);
    auto j = i;
    j -= 2;
    OBL_REQUIRE(*j == b && *i == d && i != j);
    OBL_REQUIRE(i - j == 2);
    auto k = i - 3;
    OBL_REQUIRE(k == l.begin() && *i == d);
    auto n = j + 1;
    OBL_REQUIRE(*n == c && *j == b);
    OBL_END;
}
#endif
#if SHARD == 3
// circular: the node before the first is the last
OBL(circular, ARG)
{
    pool<node2> p(a, b, c, d, e);
    for(int i = 0; i < 3; i++) p.n[i].next(&p.n[(i + 1) % 3]);
    estd::internal::list::circular_intrusive_forward<node2> l(&p.n[0]);
    OBL_REQUIRE(&*l.before_begin() == &p.n[2] && &l.front() == &p.n[0]);
    l.insert_after(l.before_begin(), p.n[3]);
    OBL_REQUIRE(&*l.before_begin() == &p.n[3] && p.n[3].next() == &p.n[0] && p.n[2].next() == &p.n[3]);
    estd::internal::list::circular_intrusive_forward<node2> s(&p.n[4]);
    p.n[4].next(&p.n[4]);
    OBL_REQUIRE(&*s.before_begin() == &p.n[4]);
    OBL_END;
}
#endif
