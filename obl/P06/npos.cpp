// std: 17
// thorough: 20
// min: 4
// peel: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// Searches from positions at and around npos.
#include "cstr.h"
#include <estd/string_view.h>
#include <estd/string.h>
#include "obl.h"
namespace oblt {
template <class S> static inline void from(const S& v, char a, char b)
{
    typedef typename S::size_type P;
    const P n = S::npos, far[4] = {P(n), P(n - 1), P(n - 2), P(3)};
    OBL_REQUIRE(v.size() == 2);
    for(int i = 0; i < 4; ++i)
    {
        const P p = far[i];
        OBL_REQUIRE(v.find('a', p) == n);
        OBL_REQUIRE(v.find("ab", p, 2) == n && v.find("a", p, 1) == n && v.find("a", p) == n && v.find("abc", p) == n);
        OBL_REQUIRE(v.find_first_of("a", p, 1) == n && v.find_first_of("ab", p) == n);
        OBL_REQUIRE(v.rfind("a", p, 1) == (b == 'a' ? P(1) : a == 'a' ? P(0) : n));
        OBL_REQUIRE(v.find_last_of("a", p, 1) == (b == 'a' ? P(1) : a == 'a' ? P(0) : n));
        OBL_REQUIRE(v.rfind("aaa", p, 3) == n);
    }
}
void far_view(char a, char b) { OBL_ASSUME(a != 0); OBL_ASSUME(b != 0); char t[2] = {a, b}; from(estd::string_view(t, 2), a, b); OBL_END; }
void far_one(char a, char b) { OBL_ASSUME(a != 0); OBL_ASSUME(b != 0); estd::layer1::string<4, false> s; s += a; s += b; from(s, a, b); OBL_END; }
void far_two(char a, char b) { OBL_ASSUME(a != 0); OBL_ASSUME(b != 0); char t[4] = {a, b, 0, 0}; estd::layer2::basic_string<char, 4, true> s(t); from(s, a, b); OBL_END; }
void far_three(char a, char b) { OBL_ASSUME(a != 0); OBL_ASSUME(b != 0); char t[4] = {a, b, 'a', 'b'}; typedef estd::layer3::basic_string<char, false> S; S s((char*)t, (S::size_type)2, (S::size_type)4); from(s, a, b); OBL_END; }
}
OBL_INSTANCES(t, (void*)&oblt::far_view, (void*)&oblt::far_one, (void*)&oblt::far_two, (void*)&oblt::far_three)
