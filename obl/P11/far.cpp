// std: 17
// min: 2
// peel: 1
// rounds: 8
// More than 256 buckets.
#include <estd/functional.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include "obl.h"
enum { N = 1040 };
namespace oblt {
template <int op> void far_buckets(int a, int b, int c)
{
    struct { int g; estd::layer1::unordered_map<int, int, N> m; int h; } r;
    r.g = r.h = 7;
    auto& m = r.m;
    auto x = m.insert({259, a});
    auto y = m.insert({3, b});
    
    OBL_REQUIRE(x.second && y.second);
    if(op == 0) { OBL_REQUIRE(m.find(259)->second == a && m.find(3)->second == b && true && m.find(263) == m.end() && !m.contains(4) && m.contains(259)); }
    if(op == 2) { OBL_REQUIRE(m.erase(259) == 1 && !m.contains(259) && true && m.find(3)->second == b && m.erase(259) == 0); }
    OBL_REQUIRE(r.g == 7 && r.h == 7);
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_buckets<n>
OBL_INSTANCES(far_buckets, F(0), F(2))
