// std: 17
// thorough: 20
// min: 12
// Ranges of more than 256 elements.
#include <estd/algorithm.h>
#include <estd/numeric.h>
#include <estd/iterator.h>
#include "obl.h"
enum { N = 270, At = 265 };
struct room { unsigned char g, b[N], h; };
static inline void mark(room& m) { m.g = m.h = 7; for(int i = 0; i < N; ++i) m.b[i] = 1; m.b[At] = 9; }
namespace oblt {
template <int op> void far_range(unsigned char v)
{
    room m, k;
    mark(m); mark(k);
    unsigned char* const e = m.b + N;
    if(op == 0) { auto less = [](unsigned char a, unsigned char b) { return a < b; }; OBL_REQUIRE(estd::min_element(m.b, e, less) == m.b && estd::max_element(m.b, e, less) == m.b + At); }
    if(op == 1) { OBL_REQUIRE(estd::find_if(m.b, e, [](unsigned char c) { return c == 9; }) == m.b + At); }
    if(op == 2) { const unsigned char t[2] = {3, 9}; OBL_REQUIRE(estd::find_first_of(m.b, e, t, t + 2) == m.b + At); }
    if(op == 3) { const unsigned char t[2] = {1, 9}; OBL_REQUIRE(estd::search(m.b, e, t, t + 2, [](unsigned char a, unsigned char b) { return a == b; }) == m.b + At - 1); }
    if(op == 4) { k.b[At + 1] = v; OBL_REQUIRE(estd::equal(m.b, e, k.b) == (v == 1)); }
    if(op == 5) { k.b[At] = 2; OBL_REQUIRE(estd::mismatch(m.b, e, k.b).first == m.b + At); }
    if(op == 6) { for(int i = 0; i < N; ++i) k.b[i] = 0; OBL_REQUIRE(estd::copy(m.b, e, k.b) == k.b + N && k.b[At] == 9 && k.b[N - 1] == 1 && k.h == 7); }
    if(op == 7) { for(int i = 0; i < N; ++i) k.b[i] = 0; OBL_REQUIRE(estd::copy_n(m.b, 268, k.b) == k.b + 268 && k.b[At] == 9 && k.b[267] == 1 && k.b[268] == 0); }
    if(op == 8) { for(int i = 0; i < N; ++i) k.b[i] = 0; OBL_REQUIRE(estd::copy_backward(m.b, e, k.b + N) == k.b && k.b[At] == 9 && k.b[0] == 1 && k.g == 7); }
    if(op == 9) { OBL_REQUIRE(estd::fill_n(m.b, 268, v) == m.b + 268 && m.b[267] == v && m.b[0] == v && m.b[268] == 1); }
    if(op == 10) { m.b[2] = v; estd::reverse(m.b, e); OBL_REQUIRE(m.b[N - 1 - At] == 9 && m.b[N - 3] == v && m.b[N - 1] == 1 && m.g == 7 && m.h == 7); }
    if(op == 11) { OBL_REQUIRE(estd::accumulate(m.b, e, 0) == N - 1 + 9 && estd::distance(m.b, e) == N); }
    OBL_REQUIRE(m.g == 7 && m.h == 7);
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_range<n>
OBL_INSTANCES(far_range, F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11))
