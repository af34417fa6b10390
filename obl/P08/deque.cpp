// std: 17
// thorough: 11 20
// min: 300
// shards: 1 2 3 4
// thorough-shards: 5 6
// peel: 4
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/queue.h>
#include <estd/stack.h>
#include "obl.h"

// Double-ended queue of N elements against a plain list of what it should hold.
typedef long long T;
enum { N = 3 };
struct M { T c[40]; int at = 20, n = 0; T& operator[](int i) { return c[at + i]; } };
struct box { T g0[2] = {1, 2}; estd::layer1::deque<T, N> q; T g1[2] = {5, 6}; };
enum op { PB = 1, PF, PBM, EB, EF, OB, OF };   // push back/front, push back of an rvalue, emplace back/front, pop back/front

template <class Q> static inline void agree_q(Q& q, M& m)
{
    const Q& c = q;
    OBL_REQUIRE((int)q.size() == m.n && c.empty() == (m.n == 0) && q.max_size() == N);
    if(m.n)
    {
        OBL_REQUIRE(q.front() == m[0] && c.front() == m[0]);
        OBL_REQUIRE(q.back() == m[m.n - 1] && c.back() == m[m.n - 1]);
    }
    int i = 0;
    for(auto it = q.begin(); it != q.end() && i <= m.n; ++it, ++i) OBL_REQUIRE(i < m.n && *it == m[i]);
    OBL_REQUIRE(i == m.n);
    // from the end backwards
    auto it = q.end();
    for(i = m.n; i-- > 0;) { --it; OBL_REQUIRE(*it == m[i]); }
    OBL_REQUIRE(it == q.begin());
}
static inline void agree(box& x, M& m)
{
    agree_q(x.q, m);
    OBL_REQUIRE(x.g0[0] == 1 && x.g0[1] == 2 && x.g1[0] == 5 && x.g1[1] == 6);
}
template <int o, class Q> static inline void step(Q& q, M& m, T v)
{
    switch(o)
    {
        case PB: case PBM:
        {
            const bool r = o == PB ? q.push_back(v) : q.push_back(T(v));
            OBL_REQUIRE(r == (m.n < N));
            if(m.n < N) m[m.n++] = v;
            break;
        }
        case PF:
        {
            const bool r = q.push_front(v);
            OBL_REQUIRE(r == (m.n < N));
            if(m.n < N) { m.at--; m.n++; m[0] = v; }
            break;
        }
        case EB: if(m.n < N) { OBL_REQUIRE(q.emplace_back(v) == v); m[m.n++] = v; } break;
        case EF: if(m.n < N) { OBL_REQUIRE(q.emplace_front(v) == v); m.at--; m.n++; m[0] = v; } break;
        case OB: OBL_REQUIRE(q.pop_back() == (m.n > 0)); if(m.n) m.n--; break;
        case OF: OBL_REQUIRE(q.pop_front() == (m.n > 0)); if(m.n) { m.at++; m.n--; } break;
    }
}
static inline void run(box& x, M& m, const T*, obl::seq<>)
{
    // moved elsewhere, with the original overwritten afterwards
    estd::layer1::deque<T, N> y(std::move(x.q));
    while(!x.q.empty()) x.q.pop_front();
    for(int i = 0; i < N; i++) x.q.push_back(-1);
    agree_q(y, m);
    for(int i = 0; i < N; i++) if(m.n) { step<OF>(y, m, 0); agree_q(y, m); }
    OBL_REQUIRE(y.empty());
}
template <int o, int... os> static inline void run(box& x, M& m, const T* in, obl::seq<o, os...>)
{
    step<o>(x.q, m, *in);
    agree(x, m);
    run(x, m, in + 1, obl::seq<os...>());
}
#define ARG T a, T b, T c, T d, T e, T f
namespace oblt {
template <int... os> void deque(ARG)
{
    const T in[8] = {a, b, c, d, e, f};
    box x; M m; agree(x, m);
    run(x, m, in, obl::seq<os...>());
    OBL_END;
}
}
#define F(...) (void*)&oblt::deque<__VA_ARGS__>,
#define L1(...) F(__VA_ARGS__, PB) F(__VA_ARGS__, PF) F(__VA_ARGS__, PBM) F(__VA_ARGS__, EB) F(__VA_ARGS__, EF) F(__VA_ARGS__, OB) F(__VA_ARGS__, OF)
#define L2(...) L1(__VA_ARGS__, PB) L1(__VA_ARGS__, PF) L1(__VA_ARGS__, OB) L1(__VA_ARGS__, OF)
#define L3(...) L2(__VA_ARGS__, PB) L2(__VA_ARGS__, PF) L2(__VA_ARGS__, OB) L2(__VA_ARGS__, OF)
#define L4(...) L3(__VA_ARGS__, PBM) L3(__VA_ARGS__, EF) L3(__VA_ARGS__, EB) L3(__VA_ARGS__, OF)
OBL_INSTANCES(all,
#if SHARD == 1
    L2(PB) L2(PF) L1(PB, PB, PB) L1(PF, PF, PF) L1(EB, EF, EB)
#elif SHARD == 2
    L2(EB) L2(EF) L2(OB) L2(OF) L1(PB, PB, OF, OF) L1(PF, PF, OB, OB)
#elif SHARD == 3
    L2(PB, PB, OF) L2(PF, PF, OB) L1(PB, PB, PB, OF, PB)
#elif SHARD == 4
    L2(PB, PB, PB) L1(PF, PF, PF, OB, PF) L1(PB, PB, PB, OF, OF, OF) L1(PBM, EB, OF, PBM, EB) L1(EF, EF, OB, EF, EF)
#elif SHARD == 5
    L4(PB)
#elif SHARD == 6
    L4(PF)
#endif
    nullptr)

#if SHARD == 1
// The adaptors: first in first out, last in first out
OBL(queue_fifo, T a, T b, T c, T d)
{
    estd::layer1::queue<T, N> q;
    OBL_REQUIRE(q.empty() && q.size() == 0 && !q.pop());
    OBL_REQUIRE(q.push(a) && q.push(T(b)));
    OBL_REQUIRE(q.emplace(c) == c);
    OBL_REQUIRE(!q.push(d) && !q.push(T(d)) && q.size() == 3);
    const auto& k = q;
    OBL_REQUIRE(q.front() == a && q.back() == c && k.front() == a && k.back() == c);
    OBL_REQUIRE(q.pop() && q.size() == 2 && q.front() == b);
    OBL_REQUIRE(q.push(d) && q.size() == 3 && q.back() == d);
    estd::layer1::queue<T, N> r(std::move(q));
    OBL_REQUIRE(r.pop() && r.front() == c && r.pop() && r.front() == d && r.back() == d && r.size() == 1 && r.pop() && r.empty());
    OBL_END;
}
OBL(queue_writes_through, T a, T b, T c)
{
    estd::layer1::queue<T, N> q;
    q.push(a); q.push(b);
    q.front() = c;
    OBL_REQUIRE(q.front() == c && q.back() == b);
    q.back() = a;
    OBL_REQUIRE(q.front() == c && q.back() == a);
    OBL_END;
}
template <class S> static inline void lifo(S& s, T a, T b, T c, T d)
{
    OBL_REQUIRE(s.empty() && s.size() == 0);
    s.push(a);
    { const T& t = s.top(); OBL_REQUIRE(t == a && s.size() == 1 && !s.empty()); }
    s.push(T(b)); s.push(c);
    { const T& t = s.top(); OBL_REQUIRE(t == c && s.size() == 3); }
    s.pop();
    { const T& t = s.top(); OBL_REQUIRE(t == b && s.size() == 2); }
    s.push(d);
    { const T& t = s.top(); OBL_REQUIRE(t == d && s.size() == 3); }
    s.pop(); s.pop();
    { const T& t = s.top(); OBL_REQUIRE(t == a && s.size() == 1); }
    s.pop();
    OBL_REQUIRE(s.empty());
}
OBL(stack_lifo, T a, T b, T c, T d) { struct { T g0 = 7; estd::layer1::stack<T, 3> s; T g1 = 8; } x; lifo(x.s, a, b, c, d); OBL_REQUIRE(x.g0 == 7 && x.g1 == 8); OBL_END; }
OBL(stack_on_vector, T a, T b, T c, T d) { estd::stack<T, estd::layer1::vector<T, 4>> s; lifo(s, a, b, c, d); OBL_END; }
OBL(stack_iterates, T a, T b, T c)
{
    estd::layer1::stack<T, 3> s; s.push(a); s.push(b); s.push(c);
    const T m[3] = {a, b, c}; int i = 0;
    for(auto it = s.begin(); it != s.end() && i < 4; ++it, ++i) { const T& t = *it; OBL_REQUIRE(i < 3 && t == m[i]); }
    OBL_REQUIRE(i == 3);
    OBL_END;
}
OBL(stack_copied_container, T a, T b)
{
    estd::layer1::vector<T, 3> v; v.push_back(a); v.push_back(b);
    estd::stack<T, estd::layer1::vector<T, 3>> s(v);
    const T& t = s.top(); OBL_REQUIRE(t == b && s.size() == 2);
    s.pop();
    const T& u = s.top(); OBL_REQUIRE(u == a && v.size() == 2);
    OBL_END;
}
#endif
