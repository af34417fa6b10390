// std: 17
// thorough: 20
// min: 26
// shards: 1 2 3 4 5
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// Texts of more than 256 characters.
#include "cstr.h"
#include <estd/string_view.h>
#include <estd/string.h>
#include <estd/span.h>
#include "obl.h"
namespace oblt {
enum { N = 270, At = 265 };
struct room { char b[N]; };
static inline void mark(room& m) { for(int i = 0; i < N; ++i) m.b[i] = 'a'; m.b[At] = 'b'; }
template <int op> void far_view()
{
    room m, k;
    mark(m); mark(k);
    estd::string_view v(m.b, N);
    OBL_REQUIRE(v.size() == N && v.length() == N);
    if(op == 0) OBL_REQUIRE(v.find('b') == At);
    if(op == 1) OBL_REQUIRE(v.find('b', At) == At && v.find('b', At + 1) == v.npos);
    if(op == 2) OBL_REQUIRE(v.find("ab", 260, 2) == At - 1);
    if(op == 3) OBL_REQUIRE(v.find_first_of("xb", 0, 2) == At);
    if(op == 4) OBL_REQUIRE(v.find_last_of("xb", v.npos, 2) == At && v.rfind("b", v.npos, 1) == At);
    if(op == 5) OBL_REQUIRE(v == estd::string_view(k.b, N) && v.compare(estd::string_view(k.b, N)) == 0);
    if(op == 6) { k.b[At] = 'a'; OBL_REQUIRE(!(v == estd::string_view(k.b, N)) && v.compare(estd::string_view(k.b, N)) > 0 && !v.starts_with(estd::string_view(k.b, N))); }
    if(op == 7) OBL_REQUIRE(v.compare(estd::string_view(k.b, N - 256)) > 0 && !(v == estd::string_view(k.b, N - 256)) && estd::string_view(k.b, N - 256).compare(v) < 0);
    if(op == 8) OBL_REQUIRE(v.substr(260).size() == 10 && v.substr(260).data() == m.b + 260 && v.substr(2, 261).size() == 261);
    if(op == 9) { v.remove_prefix(260); OBL_REQUIRE(v.size() == 10 && v.data() == m.b + 260 && v[5] == 'b'); }
    if(op == 10) { v.remove_suffix(260); OBL_REQUIRE(v.size() == 10 && v.data() == m.b); }
    if(op == 11) { char c[4] = {1, 1, 1, 1}; OBL_REQUIRE(v.copy(c, 3, 264) == 3 && c[0] == 'a' && c[1] == 'b' && c[2] == 'a' && c[3] == 1); }
    if(op == 12) OBL_REQUIRE(v.ends_with(estd::string_view(k.b + 2, N - 2)) && v.starts_with(estd::string_view(k.b, N - 2)) && !v.ends_with(estd::string_view(k.b, N - 2)));
    if(op == 13) OBL_REQUIRE(v.back() == 'a' && v[At] == 'b' && v.end() - v.begin() == N && *(v.begin() + At) == 'b');
    OBL_END;
}
// other ways to say what is sought, from and up to positions beyond 256
template <int op> void far_sought()
{
    room m, k;
    mark(m); mark(k);
    const estd::string_view v(m.b, N), ab("ab", 2), b("b", 1), a("a", 1), most(k.b + 2, N - 2);
    const auto no = v.npos;
    if(op == 0) OBL_REQUIRE(v.find("ab", 262) == At - 1 && v.find("ab", At) == no && v.find(ab, 262) == At - 1 && v.find(ab) == At - 1 && v.find(b, At) == At && v.find(b, At + 1) == no);
    if(op == 1) OBL_REQUIRE(v.find(most) == 2 && v.find(most, 3) == no && v.find(k.b + 2, 0, N - 2) == 2 && v.find(k.b + 3, 3, N - 3) == 3);
    if(op == 2) OBL_REQUIRE(v.rfind(ab) == At - 1 && v.rfind(ab, 264) == At - 1 && v.rfind(ab, 263) == no && v.rfind("ab") == At - 1 && v.rfind("ba", 268) == At && v.rfind("ba", 268, 2) == At && v.rfind(b, 264) == no);
    if(op == 3) OBL_REQUIRE(v.rfind(a, 262) == 262 && v.rfind("a", 262, 1) == 262 && v.rfind("a", 262) == 262 && v.rfind(most) == 2 && v.rfind(k.b + 2, 262, N - 2) == 2 && v.rfind(k.b + 3, 1, N - 3) == no);
    if(op == 4) OBL_REQUIRE(v.find_first_of("b", 262) == At && v.find_first_of(b, 262) == At && v.find_first_of(b) == At && v.find_first_of("b") == At && v.find_first_of(b, 266) == no && v.find_first_of("a", At, 1) == At + 1);
    if(op == 5) OBL_REQUIRE(v.find_first_of(k.b + 2, 264, N - 2) == 264 && v.find_first_of(k.b + 3, At, 263) == At && v.find_first_of(k.b + 3, At, 262) == At + 1);
    if(op == 6) OBL_REQUIRE(v.find_last_of(b) == At && v.find_last_of("b") == At && v.find_last_of("b", 268) == At && v.find_last_of(b, 264) == no && v.find_last_of(a, 262) == 262 && v.find_last_of("a", At, 1) == At - 1 && v.find_last_of("a", 262) == 262);
    if(op == 7) OBL_REQUIRE(v.find_last_of(k.b + 3, At, 263) == At && v.find_last_of(k.b + 3, At, 262) == At - 1);
    if(op == 8) { char c[N] = {}; OBL_REQUIRE(v.copy(c, 266, 2) == 266 && c[263] == 'b' && c[265] == 'a' && c[266] == 0 && v.copy(c, 400) == N && c[At] == 'b' && c[N - 1] == 'a'); }
    if(op == 9) for(unsigned p = 13; p < 16; ++p) OBL_REQUIRE(v.rfind("aa", p, 2) == p && v.rfind(a, p) == p && v.find("aa", p) == p && v.find_last_of("a", p) == p && v.find_first_of("a", p) == p);
    if(op == 9) OBL_REQUIRE(v.find_first_of(a, 262) == 262 && estd::string_view(m.b, At + 1).ends_with('b') && !estd::string_view(m.b, At + 1).ends_with('a'));
    if(op == 9) OBL_REQUIRE(v.max_size() >= N && v.ends_with('a') && v.starts_with('a') && !v.ends_with('b'));
    if(op == 10) { room r; mark(r); r.b[At] = 'a'; r.b[9] = 'b'; const estd::string_view w(r.b, N); OBL_REQUIRE(v.compare(w) < 0 && w.compare(v) > 0 && !(v == w)); }
    if(op == 11) { const estd::layer1::string<N, false> s(v); OBL_REQUIRE(s.size() == N && s == v && v == s && v.compare(s) == 0 && s.compare(v) == 0 && s.find(b) == At); }
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_view<n>
#if SHARD == 1
OBL_INSTANCES(far_view, F(0), F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11), F(12), F(13))
#endif
#undef F
#define F(n) (void*)&oblt::far_sought<n>
#if SHARD == 1
OBL_INSTANCES(far_sought, F(0), F(2), F(4), F(6), F(8), F(9), F(10), F(11))
#elif SHARD == 2
OBL_INSTANCES(far_sought_whole, F(1))
#elif SHARD == 3
OBL_INSTANCES(far_sought_whole, F(3))
#elif SHARD == 4
OBL_INSTANCES(far_sought_whole, F(5))
#else
OBL_INSTANCES(far_sought_whole, F(7))
#endif
