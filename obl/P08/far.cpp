// std: 17
// thorough: 20
// min: 3
// Queues of more than 256 elements.
#include <estd/queue.h>
#include <estd/stack.h>
#include "obl.h"
enum { N = 270 };
namespace oblt {
template <int op> void far_queue(int a, int b)
{
    struct { int g; estd::layer1::deque<int, N> d; int h; } m;
    m.g = m.h = a;
    auto& d = m.d;
    for(int i = 0; i < N; ++i) OBL_REQUIRE(d.push_back(i));
    OBL_REQUIRE(d.size() == N && d.full() && !d.push_back(b) && !d.push_front(b) && d.front() == 0 && d.back() == N - 1);
    if(op == 0)
    {
        for(int i = 0; i < 265; ++i) d.pop_front();
        OBL_REQUIRE(d.size() == N - 265 && d.front() == 265 && d.back() == N - 1);
        for(int i = 0; i < 260; ++i) OBL_REQUIRE(d.push_back(i + b));
        OBL_REQUIRE(d.size() == N - 5 && d.front() == 265 && d.back() == 259 + b);
    }
    if(op == 1)
    {
        for(int i = 0; i < 265; ++i) d.pop_back();
        OBL_REQUIRE(d.size() == 5 && d.front() == 0 && d.back() == 4);
        for(int i = 0; i < 260; ++i) OBL_REQUIRE(d.push_front(i + b));
        OBL_REQUIRE(d.size() == 265 && d.front() == 259 + b && d.back() == 4);
    }
    if(op == 2)
    {
        auto i = d.begin();
        for(int n = 0; n < N; ++n) { OBL_REQUIRE(i != d.end() && *i == n); ++i; }
        OBL_REQUIRE(i == d.end());
    }
    OBL_REQUIRE(m.g == a && m.h == a);
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_queue<n>
OBL_INSTANCES(far_queue, F(0), F(1), F(2))
