// std: 17
// thorough: 20
// min: 45
// peel: 14
// rounds: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// Memory which moves: an allocator whose blocks relocate whenever they grow, and which may only be looked at while locked.
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/vector.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include "obl.h"
#include "cstr.h"
#include "moving.h"

typedef estd::vector<int, moving<int, 40> > numbers;
#define SOUND(v) OBL_REQUIRE((v).get_allocator().n.depth == 0); OBL_REQUIRE(!(v).get_allocator().n.broken)
// what is in memory, from outside
#define HOLDS(v, i, x) OBL_REQUIRE((v).get_allocator().block[(v).get_allocator().at][i] == (x))
#define MOVED(v, k) OBL_REQUIRE((v).get_allocator().n.moves == (k))
OBL(pushes, int a, int b, int c)
{
    numbers v;
    OBL_REQUIRE(v.size() == 0); OBL_REQUIRE(v.empty()); OBL_REQUIRE(v.capacity() == 0);
    v.push_back(a); v.push_back(b); v.push_back(int(c));
    OBL_REQUIRE(v.size() == 3); OBL_REQUIRE(!v.empty()); OBL_REQUIRE(v.capacity() >= 3);
    HOLDS(v, 0, a); HOLDS(v, 1, b); HOLDS(v, 2, c);
    SOUND(v);
    OBL_END;
}
namespace oblt {
// two numbers which fill all that is allocated: whatever comes next moves them
struct full
{
    numbers v;
    full(int a, int b) { v.reserve(2); v.push_back(a); v.push_back(b); }
};
#define OPERATION(name, ...) template <int> void name(int a, int b, int c, int d) { \
    full f(a, b), g(c, d); numbers& v = f.v; const numbers& k = v; numbers& other = g.v; (void)k; (void)other; (void)c; (void)d; \
    const int three[] = { c, d, a }; (void)three; \
    __VA_ARGS__ SOUND(v); SOUND(other); OBL_END; }
#define IS2(v, a, b) OBL_REQUIRE((v).size() == 2); HOLDS(v, 0, a); HOLDS(v, 1, b)
#define IS3(v, a, b, c) OBL_REQUIRE((v).size() == 3); HOLDS(v, 0, a); HOLDS(v, 1, b); HOLDS(v, 2, c)
#define IS4(v, a, b, c, d) OBL_REQUIRE((v).size() == 4); HOLDS(v, 0, a); HOLDS(v, 1, b); HOLDS(v, 2, c); HOLDS(v, 3, d)
OPERATION(starts, IS2(v, a, b); OBL_REQUIRE(k.capacity() == 2); MOVED(v, 0); OBL_REQUIRE(!k.empty());)
OPERATION(grows_copy, v.push_back(c); IS3(v, a, b, c); MOVED(v, 1); OBL_REQUIRE(k.capacity() >= 3);)
OPERATION(grows_move, v.push_back(int(c)); IS3(v, a, b, c); MOVED(v, 1);)
OPERATION(grows_emplace, v.emplace_back(c); IS3(v, a, b, c); MOVED(v, 1);)
OPERATION(grows_twice, v.reserve(3); IS2(v, a, b); MOVED(v, 1); v.push_back(c); MOVED(v, 1); v.push_back(d); IS4(v, a, b, c, d); MOVED(v, 2);)
OPERATION(reserves, OBL_REQUIRE(v.reserve(5)); IS2(v, a, b); MOVED(v, 1); OBL_REQUIRE(k.capacity() == 5);)
OPERATION(resizes_up, OBL_REQUIRE(v.resize(3)); OBL_REQUIRE(v.size() == 3); HOLDS(v, 0, a); HOLDS(v, 1, b); OBL_REQUIRE(k.capacity() >= 3);)
OPERATION(resizes_down, OBL_REQUIRE(v.resize(1)); OBL_REQUIRE(v.size() == 1); HOLDS(v, 0, a); v.push_back(c); IS2(v, a, c); MOVED(v, 0);)
OPERATION(clears, v.clear(); OBL_REQUIRE(v.empty()); OBL_REQUIRE(v.size() == 0); v.push_back(c); v.push_back(d); IS2(v, c, d); MOVED(v, 0);)
OPERATION(pops, v.pop_back(); OBL_REQUIRE(v.size() == 1); HOLDS(v, 0, a); v.push_back(c); IS2(v, a, c); MOVED(v, 0);)
OPERATION(assigns, v.assign(three, three + 3); IS3(v, c, d, a); MOVED(v, 1);)
OPERATION(assigns_less, v.assign(three, three + 1); OBL_REQUIRE(v.size() == 1); HOLDS(v, 0, c); MOVED(v, 0);)
OPERATION(assigns_other, v.assign(other); IS2(v, c, d); IS2(other, c, d); MOVED(v, 0);)
OPERATION(assigns_longer, other.push_back(a); v.assign(other); IS3(v, c, d, a); MOVED(v, 1); IS3(other, c, d, a);)
OPERATION(appends, v.append(three, 3); OBL_REQUIRE(v.size() == 5); HOLDS(v, 0, a); HOLDS(v, 1, b); HOLDS(v, 2, c); HOLDS(v, 3, d); HOLDS(v, 4, a); MOVED(v, 1);)
OPERATION(appends_other, v.append(other); IS4(v, a, b, c, d); IS2(other, c, d); MOVED(v, 1);)
OPERATION(shrinks, v.reserve(9); v.shrink_to_fit(); IS2(v, a, b); v.push_back(c); IS3(v, a, b, c);)
OPERATION(no_room, OBL_REQUIRE(!v.reserve(41)); IS2(v, a, b); MOVED(v, 0); OBL_REQUIRE(k.capacity() == 2); v.push_back(c); IS3(v, a, b, c);)
OPERATION(no_room_to_resize, OBL_REQUIRE(!v.resize(41)); IS2(v, a, b); MOVED(v, 0);)
OPERATION(least_room, OBL_REQUIRE(v.reserve(4)); v.push_back(c); v.push_back(d); MOVED(v, 1); IS4(v, a, b, c, d);)
OPERATION(fits, numbers w; OBL_REQUIRE(w.reserve(40)); w.push_back(a); for(int i = 0; i < 39; i++) w.push_back(b); MOVED(w, 0); OBL_REQUIRE(w.size() == 40); HOLDS(w, 0, a); HOLDS(w, 39, b); SOUND(w);)
OPERATION(not_moved, OBL_REQUIRE(other.get_allocator().live != 2); OBL_REQUIRE(other.get_allocator().n.freed == 0); v.push_back(c); IS2(other, c, d); MOVED(other, 0);)
}

// ---- positions in memory which moves
namespace oblt {
typedef estd::vector<int, moving<int, 40, false> > walkable;
struct wfull
{
    walkable v;
    wfull(int a, int b) { v.reserve(2); v.push_back(a); v.push_back(b); }
};
#define POSITIONS(name, ...) template <int> void name(int a, int b, int c, int d) { \
    wfull f(a, b), g(c, d); walkable& v = f.v; const walkable& k = v; walkable& other = g.v; (void)k; (void)other; (void)c; (void)d; \
    const int three[] = { c, d, a }; (void)three; \
    __VA_ARGS__ SOUND(v); SOUND(other); OBL_END; }
POSITIONS(inserts_first, v.insert(v.begin(), c); IS3(v, c, a, b); MOVED(v, 1);)
POSITIONS(inserts_middle, v.insert(v.begin() + 1, c); IS3(v, a, c, b); MOVED(v, 1);)
POSITIONS(inserts_end, v.insert(v.end(), c); IS3(v, a, b, c); MOVED(v, 1);)
POSITIONS(inserts_moved, v.insert(v.begin() + 1, int(c)); IS3(v, a, c, b); MOVED(v, 1);)
POSITIONS(inserts_no_room, int many[39] = {}; v.insert(v.begin() + 1, many, many + 39); IS2(v, a, b); MOVED(v, 0);)
POSITIONS(inserts_range, v.insert(v.begin() + 1, three, three + 2); IS4(v, a, c, d, b); MOVED(v, 1);)
POSITIONS(erases_first, v.erase(v.begin()); OBL_REQUIRE(v.size() == 1); HOLDS(v, 0, b); MOVED(v, 0);)
POSITIONS(erases_last, v.erase(v.begin() + 1); OBL_REQUIRE(v.size() == 1); HOLDS(v, 0, a); MOVED(v, 0);)
POSITIONS(walks, v.push_back(c); int sum[3] = {}; int n = 0; for(walkable::iterator i = v.begin(); i != v.end(); ++i) { OBL_REQUIRE(n < 3); sum[n++] = *i; } OBL_REQUIRE(n == 3); OBL_REQUIRE(sum[0] == a); OBL_REQUIRE(sum[1] == b); OBL_REQUIRE(sum[2] == c);)
POSITIONS(kept_over_growth, walkable::iterator i = v.begin() + 1; v.push_back(c); MOVED(v, 1); OBL_REQUIRE(*i == b); ++i; OBL_REQUIRE(*i == c); *i = d; IS3(v, a, b, d);)
POSITIONS(reads, OBL_REQUIRE(int(k[0]) == a); OBL_REQUIRE(int(k[1]) == b); OBL_REQUIRE(int(v.front()) == a); OBL_REQUIRE(int(v.back()) == b);)
POSITIONS(writes, v[0] = c; v[1] = d; IS2(v, c, d); v.back() = a; IS2(v, c, a);)
POSITIONS(accessor_over_growth, auto x = v[1]; v.push_back(c); OBL_REQUIRE(x == b); OBL_REQUIRE(int(x) == b); x = d; IS3(v, a, d, c);)
}

// ---- texts
namespace oblt {
namespace es = estd::internal;
template <bool zero> using text = es::basic_string<moving<char, 96>, es::string_policy<estd::char_traits<char>, zero ? es::string_options::null_terminated : es::string_options::none, uint16_t> >;
#define TEXT(name, ...) template <bool zero> void name(char c, char d) { \
    typedef text<zero> S; S s, o; const S& k = s; (void)k; (void)c; (void)d; \
    OBL_ASSUME(c != 0); OBL_ASSUME(d != 0); \
    __VA_ARGS__ SOUND(s); SOUND(o); OBL_END; }

#define IS(...) do { const char want[] = { __VA_ARGS__ }; constexpr int n = sizeof(want); OBL_REQUIRE(k.size() == n); for(int i = 0; i < n; i++) HOLDS(s, i, want[i]); } while(0);
TEXT(text_pushes, s.push_back(c); s.push_back(d); IS(c, d))
TEXT(text_appends, s.append("ab"); s.append("cd", 2); IS('a', 'b', 'c', 'd'))
TEXT(text_plus, s += "ab"; s += c; o.append("xy"); s += o; IS('a', 'b', c, 'x', 'y'))
TEXT(text_assigns, s = "abc"; IS('a', 'b', 'c') s = "de"; IS('d', 'e'))
TEXT(text_same, s.append("ab"); o = s; OBL_REQUIRE(o == s); OBL_REQUIRE(o == "ab"); o += "c"; OBL_REQUIRE(!(o == s)); OBL_REQUIRE(!(o == "ab")); OBL_REQUIRE(o == "abc");)
TEXT(text_grows, s.append("abcd"); s.reserve(5); o.append("0123456789012345678901234567890123456"); s += o; OBL_REQUIRE(k.size() == 41); HOLDS(s, 0, 'a'); HOLDS(s, 3, 'd'); HOLDS(s, 4, '0'); HOLDS(s, 40, '6');)
TEXT(text_clears, s.append("abc"); s.clear(); OBL_REQUIRE(k.empty()); OBL_REQUIRE(k.size() == 0); s += "de"; IS('d', 'e'))
TEXT(text_out, s.append("ab"); s += c; estd::layer1::ostringstream<16> out; out << k << k; const char* got = out.rdbuf()->str().data(); OBL_REQUIRE(got[0] == 'a'); OBL_REQUIRE(got[1] == 'b'); OBL_REQUIRE(got[2] == c); OBL_REQUIRE(got[3] == 'a'); OBL_REQUIRE(got[5] == c);)
TEXT(text_erases, s.append("abcd"); s.erase(1, 2); IS('a', 'd'))
TEXT(text_queries, s.append("abcb"); OBL_REQUIRE(k.starts_with("ab")); OBL_REQUIRE(!k.starts_with("b")); OBL_REQUIRE(k.ends_with("cb")); OBL_REQUIRE(k.find('b') == 1); OBL_REQUIRE(k.find("cb") == 2); char to[3] = {}; OBL_REQUIRE(k.copy(to, 2, 1) == 2); OBL_REQUIRE(to[0] == 'b'); OBL_REQUIRE(to[1] == 'c'); OBL_REQUIRE(to[2] == 0);)
}
OBL_INSTANCES(no_room, (void*)&oblt::no_room<0>)
OBL_INSTANCES(no_room_to_resize, (void*)&oblt::no_room_to_resize<0>)
OBL_INSTANCES(least_room, (void*)&oblt::least_room<0>)
OBL_INSTANCES(fits, (void*)&oblt::fits<0>)
OBL_INSTANCES(starts, (void*)&oblt::starts<0>)
OBL_INSTANCES(grows_copy, (void*)&oblt::grows_copy<0>)
OBL_INSTANCES(grows_move, (void*)&oblt::grows_move<0>)
OBL_INSTANCES(grows_emplace, (void*)&oblt::grows_emplace<0>)
OBL_INSTANCES(grows_twice, (void*)&oblt::grows_twice<0>)
OBL_INSTANCES(reserves, (void*)&oblt::reserves<0>)
OBL_INSTANCES(resizes_up, (void*)&oblt::resizes_up<0>)
OBL_INSTANCES(resizes_down, (void*)&oblt::resizes_down<0>)
OBL_INSTANCES(clears, (void*)&oblt::clears<0>)
OBL_INSTANCES(pops, (void*)&oblt::pops<0>)
OBL_INSTANCES(assigns, (void*)&oblt::assigns<0>)
OBL_INSTANCES(assigns_less, (void*)&oblt::assigns_less<0>)
OBL_INSTANCES(assigns_other, (void*)&oblt::assigns_other<0>)
OBL_INSTANCES(assigns_longer, (void*)&oblt::assigns_longer<0>)
OBL_INSTANCES(appends, (void*)&oblt::appends<0>)
OBL_INSTANCES(appends_other, (void*)&oblt::appends_other<0>)
OBL_INSTANCES(shrinks, (void*)&oblt::shrinks<0>)
OBL_INSTANCES(not_moved, (void*)&oblt::not_moved<0>)
OBL_INSTANCES(inserts_first, (void*)&oblt::inserts_first<0>)
OBL_INSTANCES(inserts_middle, (void*)&oblt::inserts_middle<0>)
OBL_INSTANCES(inserts_end, (void*)&oblt::inserts_end<0>)
OBL_INSTANCES(inserts_moved, (void*)&oblt::inserts_moved<0>)
OBL_INSTANCES(inserts_no_room, (void*)&oblt::inserts_no_room<0>)
OBL_INSTANCES(inserts_range, (void*)&oblt::inserts_range<0>)
OBL_INSTANCES(erases_first, (void*)&oblt::erases_first<0>)
OBL_INSTANCES(erases_last, (void*)&oblt::erases_last<0>)
OBL_INSTANCES(walks, (void*)&oblt::walks<0>)
OBL_INSTANCES(kept_over_growth, (void*)&oblt::kept_over_growth<0>)
OBL_INSTANCES(reads, (void*)&oblt::reads<0>)
OBL_INSTANCES(writes, (void*)&oblt::writes<0>)
OBL_INSTANCES(accessor_over_growth, (void*)&oblt::accessor_over_growth<0>)
OBL_INSTANCES(text_pushes, (void*)&oblt::text_pushes<false>)
OBL_INSTANCES(text_appends, (void*)&oblt::text_appends<false>)
OBL_INSTANCES(text_plus, (void*)&oblt::text_plus<false>)
OBL_INSTANCES(text_assigns, (void*)&oblt::text_assigns<false>)
OBL_INSTANCES(text_same, (void*)&oblt::text_same<false>)
OBL_INSTANCES(text_grows, (void*)&oblt::text_grows<false>)
OBL_INSTANCES(text_clears, (void*)&oblt::text_clears<false>)
OBL_INSTANCES(text_out, (void*)&oblt::text_out<false>)
OBL_INSTANCES(text_erases, (void*)&oblt::text_erases<false>)
OBL_INSTANCES(text_queries, (void*)&oblt::text_queries<false>)
