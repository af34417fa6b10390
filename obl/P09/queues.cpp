// std: 17
// thorough: 20
// min: 24
// peel: 4
// rounds: 8
// Priority queues: assigned, moved, with an order given to them, elements changed before they are put in their place.
#include <estd/queue.h>
#include "obl.h"
typedef long long T;
struct E { T key, id; T p; bool operator<(const E& o) const { return key < o.key; } bool operator>(const E& o) const { return key > o.key; } };
typedef estd::layer1::priority_queue<E, 4> Q;
// an order which is told which way round
struct Way { bool up; bool operator()(const E& a, const E& b) const { return up ? a.key < b.key : b.key < a.key; } };
typedef estd::layer1::priority_queue<E, 4, Way> W;
namespace oblt {
template <class Q> static inline void drains(Q& q, const int* order, const E* x, int n)
{
    for(int i = 0; i < n; i++)
    {
        OBL_REQUIRE((int)q.size() == n - i && !q.empty());
        const E& t = q.top();
        OBL_REQUIRE(t.key == x[order[i]].key && t.id == order[i] && t.p == x[order[i]].p);
        q.pop();
    }
    OBL_REQUIRE(q.empty() && q.size() == 0);
}
static constexpr int K[6][3] = {{1, 2, 3}, {3, 2, 1}, {2, 3, 1}, {3, 1, 2}, {1, 3, 2}, {2, 1, 3}};
#define MAKE const T S[4] = {a, b, c, d}; E x[3]; int down[3], up[3]; for(int i = 0; i < 3; i++) { x[i].key = K[p][i]; x[i].id = i; x[i].p = S[i]; down[3 - K[p][i]] = i; up[K[p][i] - 1] = i; }
template <int p> void assigned(T a, T b, T c, T d)
{
    MAKE
    Q q, r, s;
    for(int i = 0; i < 3; i++) q.push(x[i]);
    r.push(x[0]);
    r = q;
    OBL_REQUIRE(r.size() == 3 && q.size() == 3);
    drains(r, down, x, 3);
    OBL_REQUIRE(q.size() == 3);
    s = static_cast<Q&&>(q);
    drains(s, down, x, 3);
    OBL_END;
}
template <int p, bool up_> void ordered(T a, T b, T c, T d)
{
    MAKE
    W q(Way{up_});
    OBL_REQUIRE(q.empty());
    for(int i = 0; i < 3; i++) q.push(x[i]);
    drains(q, up_ ? down : up, x, 3);
    OBL_END;
}
// the element is in place only after it has been told about
template <int p> void notified(T a, T b, T c, T d)
{
    MAKE
    Q q;
    int told = 0;
    for(int i = 0; i < 3; i++)
    {
        E before = x[i];
        before.key = 9 - i;
        q.emplace_with_notify([&](E& e) { OBL_REQUIRE(e.id == i && e.p == S[i] && e.key == 9 - i); e.key = K[p][i]; told++; }, before);
        OBL_REQUIRE(told == i + 1);
    }
    drains(q, down, x, 3);
    OBL_END;
}
}
#define ALL(f) (void*)&oblt::f<0>, (void*)&oblt::f<1>, (void*)&oblt::f<2>, (void*)&oblt::f<3>, (void*)&oblt::f<4>, (void*)&oblt::f<5>
#define BOTH(p) (void*)&oblt::ordered<p, true>, (void*)&oblt::ordered<p, false>
OBL_INSTANCES(assigned, ALL(assigned))
OBL_INSTANCES(ordered, BOTH(0), BOTH(1), BOTH(2), BOTH(3), BOTH(4), BOTH(5))
OBL_INSTANCES(notified, ALL(notified))
