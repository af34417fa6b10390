// std: 17
// thorough: 20
// min: 4
// peel: 300
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// allow: abort
// Texts and vectors of more than 256 elements.
#include "cstr.h"
#include <estd/string.h>
#include <estd/vector.h>
#include <estd/span.h>
#include "obl.h"
enum { N = 270, Cap = 280, At = 265 };
struct room { char g; char b[Cap]; char h; };
static inline void mark(room& m, bool end) { m.g = m.h = 7; for(int i = 0; i < N; ++i) m.b[i] = 'a'; m.b[At] = 'b'; for(int i = N; i < Cap; ++i) m.b[i] = end ? 0 : 'z'; }
#define A(i) OBL_REQUIRE(m.b[i] == 'a')
#define Whole() OBL_REQUIRE(m.g == 7 && m.h == 7)
template <class S> static inline void far_work(room& m, S& s, int op, char c)
{
    OBL_REQUIRE(s.size() == N && s.length() == N && !s.empty());
    if(op == 0) { s += c; OBL_REQUIRE(s.size() == N + 1 && m.b[N] == c && m.b[N - 1] == 'a' && m.b[14] == 'a'); }
    if(op == 1) { s.append("xyz", 3); OBL_REQUIRE(s.size() == N + 3 && m.b[N] == 'x' && m.b[N + 2] == 'z' && m.b[N - 256] == 'a'); }
    if(op == 2) { s.erase(262, 2); OBL_REQUIRE(s.size() == N - 2 && m.b[At - 2] == 'b' && m.b[At - 3] == 'a' && m.b[At] == 'a' && m.b[8] == 'a'); }
    if(op == 3) { s.erase(2, 260); OBL_REQUIRE(s.size() == N - 260 && m.b[At - 260] == 'b' && m.b[0] == 'a' && m.b[9] == 'a'); }
    if(op == 4) { s.insert(264, "xy", 2); OBL_REQUIRE(s.size() == N + 2 && m.b[264] == 'x' && m.b[265] == 'y' && m.b[266] == 'a' && m.b[267] == 'b' && m.b[263] == 'a' && m.b[8] == 'a'); }
    if(op == 5) { s.resize(260); OBL_REQUIRE(s.size() == 260 && m.b[259] == 'a'); }
    if(op == 6) { s.pop_back(); OBL_REQUIRE(s.size() == N - 1 && s.back() == 'a' && s[At] == 'b'); }
    if(op == 7) { s.clear(); OBL_REQUIRE(s.size() == 0 && s.empty()); }
    if(op == 8) { OBL_REQUIRE(s[At] == 'b' && s.at(At) == 'b' && s.find('b') == At && s.find("ab", 258) == At - 1); }
    if(op == 9) { char t[12]; OBL_REQUIRE(s.copy(t, 10, 262) == 8 && t[3] == 'b' && t[7] == 'a'); }
    if(op == 10) { auto i = s.begin(); i += At; OBL_REQUIRE(*i == 'b' && s.end() - s.begin() == N); }
    Whole();
}
namespace oblt {
template <int op> void two_terminated(char c) { OBL_ASSUME(c != 0); room m; mark(m, true); estd::layer2::basic_string<char, Cap, true> s(m.b); far_work(m, s, op, c); if(op <= 6) OBL_REQUIRE(m.b[s.size()] == 0); OBL_END; }
}
#define F(f, n) (void*)&oblt::f<n>
OBL_INSTANCES(terminated, F(two_terminated, 0), F(two_terminated, 2), F(two_terminated, 4), F(two_terminated, 8))
