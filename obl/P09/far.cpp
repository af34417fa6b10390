// std: 17
// min: 2
// peel: 12
// More than 256 elements.
#include "cstr.h"
#include <estd/algorithm.h>
#include <estd/queue.h>
#include "obl.h"
enum { M = 280 };
static inline bool less(int a, int b) { return a < b; }
static inline void down(int* b) { for(int i = 0; i < M; ++i) b[i] = M - i; }
namespace oblt {
template <int op> void far_heap()
{
    struct { int g, b[M], h; } r;
    r.g = r.h = 7;
    down(r.b);
    if(op == 0) { r.b[M - 1] = 1000; estd::push_heap(r.b, r.b + M, less); OBL_REQUIRE(r.b[0] == 1000 && r.b[M - 1] == M - 139 && r.b[139] == M - 69); }
    if(op == 1) { estd::pop_heap(r.b, r.b + M, less); OBL_REQUIRE(r.b[0] == M - 1 && r.b[M - 1] == M); }
    for(int i = 1; i < M - (op == 1); ++i) OBL_REQUIRE(r.b[i] <= r.b[(i - 1) / 2]);
    OBL_REQUIRE(r.g == 7 && r.h == 7);
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_heap<n>
OBL_INSTANCES(far_heap, F(0), F(1))
