// std: 17
// thorough: 20
// min: 33
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// allow: abort
// Texts and vectors of more than 256 elements.
#include "cstr.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/vector.h>
#include <estd/span.h>
#include "obl.h"
enum { N = 270, Cap = 280, At = 265 };
struct room { char g; char b[Cap]; char h; };
static inline void mark(room& m, bool end) { m.g = m.h = 7; for(int i = 0; i < N; ++i) m.b[i] = 'a'; m.b[At] = 'b'; for(int i = N; i < Cap; ++i) m.b[i] = end ? 0 : 'z'; }
#define A(i) OBL_REQUIRE(m.b[i] == 'a')
#define Whole() OBL_REQUIRE(m.g == 7 && m.h == 7)
template <class S> static inline void far_work(room& m, S& s, int op, char c)
{
    OBL_REQUIRE(s.size() == N && s.length() == N && !s.empty());
    if(op == 0) { s += c; OBL_REQUIRE(s.size() == N + 1 && m.b[N] == c && m.b[N - 1] == 'a' && m.b[14] == 'a'); }
    if(op == 1) { s.append("xyz", 3); OBL_REQUIRE(s.size() == N + 3 && m.b[N] == 'x' && m.b[N + 2] == 'z' && m.b[N - 256] == 'a'); }
    if(op == 2) { s.erase(262, 2); OBL_REQUIRE(s.size() == N - 2 && m.b[At - 2] == 'b' && m.b[At - 3] == 'a' && m.b[At] == 'a' && m.b[8] == 'a'); }
    if(op == 3) { s.erase(2, 260); OBL_REQUIRE(s.size() == N - 260 && m.b[At - 260] == 'b' && m.b[0] == 'a' && m.b[9] == 'a'); }
    if(op == 4) { s.insert(264, "xy", 2); OBL_REQUIRE(s.size() == N + 2 && m.b[264] == 'x' && m.b[265] == 'y' && m.b[266] == 'a' && m.b[267] == 'b' && m.b[263] == 'a' && m.b[8] == 'a'); }
    if(op == 5) { s.resize(260); OBL_REQUIRE(s.size() == 260 && m.b[259] == 'a'); }
    if(op == 6) { s.pop_back(); OBL_REQUIRE(s.size() == N - 1 && s.back() == 'a' && s[At] == 'b'); }
    if(op == 7) { s.clear(); OBL_REQUIRE(s.size() == 0 && s.empty()); }
    if(op == 8) { OBL_REQUIRE(s[At] == 'b' && s.at(At) == 'b' && s.find('b') == At && s.find("ab", 258) == At - 1); }
    if(op == 9) { char t[12]; OBL_REQUIRE(s.copy(t, 10, 262) == 8 && t[3] == 'b' && t[7] == 'a'); }
    if(op == 10) { auto i = s.begin(); i += At; OBL_REQUIRE(*i == 'b' && s.end() - s.begin() == N); }
    Whole();
}
namespace oblt {
template <int op> void three_sized(char c) { room m; mark(m, false); typedef estd::layer3::basic_string<char, false> S; S s((char*)m.b, (S::size_type)N, (S::size_type)Cap); far_work(m, s, op, c); OBL_END; }
template <int op> void one_sized(char c)
{
    room m; mark(m, false);
    struct { char g; estd::layer1::string<Cap, false> s; char h; } k;
    k.g = k.h = c;
    auto& s = k.s;
    s.append(m.b, N);
    OBL_REQUIRE(s.size() == N && s.length() == N && s[At] == 'b' && s[N - 1] == 'a');
    if(op == 0) { s += c; OBL_REQUIRE(s.size() == N + 1 && s[N] == c && s[N & 255] == 'a'); }
    if(op == 1) { s.erase(262, 2); OBL_REQUIRE(s.size() == N - 2 && s[At - 2] == 'b' && s[At - 3] == 'a' && s[At] == 'a'); }
    if(op == 2) { s.insert(264, "xy", 2); OBL_REQUIRE(s.size() == N + 2 && s[263] == 'a' && s[264] == 'x' && s[265] == 'y' && s[266] == 'a' && s[267] == 'b' && s[8] == 'a'); }
    if(op == 3) { estd::layer1::string<Cap, false> t(s); OBL_REQUIRE(t.size() == N && t[At] == 'b' && t == s && t.compare(s) == 0); }
    OBL_REQUIRE(k.g == c && k.h == c);
    OBL_END;
}
template <int op> void one_grown(char c)
{
    room m; mark(m, false);
    struct { char g; estd::layer1::string<2 * Cap, false> s; char h; } k;
    k.g = k.h = c;
    auto& s = k.s;
    const estd::string_view most(m.b, N);
    if(op == 0) { s.append(most); s.append(most); OBL_REQUIRE(s.size() == 2 * N && s[At] == 'b' && s[N + At] == 'b' && s[2 * N - 1] == 'a'); }
    if(op == 1) { s.append(260, c); s.append(5, 'z'); OBL_REQUIRE(s.size() == 265 && s[0] == c && s[259] == c && s[260] == 'z' && s[264] == 'z'); }
    if(op == 2) { s += "xy"; s.insert(1, m.b, N); OBL_REQUIRE(s.size() == N + 2 && s[0] == 'x' && s[1] == 'a' && s[At + 1] == 'b' && s[N] == 'a' && s[N + 1] == 'y'); }
    if(op == 3) { s += "xy"; s.insert(2, most); s.insert(266, most); OBL_REQUIRE(s.size() == 2 * N + 2 && s[0] == 'x' && s[265] == 'a' && s[266 + At] == 'b' && s[2 + At + N] == 'b'); }
    if(op == 4) { s = most; OBL_REQUIRE(s.size() == N && s[At] == 'b'); s.erase(262); OBL_REQUIRE(s.size() == 262 && s[261] == 'a'); }
    if(op == 5) { s = most; OBL_REQUIRE(s.size() == N && s[At] == 'b' && s.max_size() >= 2 * Cap - 1 && s.capacity() == 2 * Cap); }
    if(op == 10) { s.append(most); s.insert(264, "xy"); OBL_REQUIRE(s.size() == N + 2 && s[264] == 'x' && s[265] == 'y' && s[267] == 'b' && s[8] == 'a'); s.insert(266, estd::string_view("pq", 2)); OBL_REQUIRE(s[266] == 'p' && s[269] == 'b' && s[10] == 'a'); }
    if(op == 11) { const estd::layer1::string<Cap, false> less(estd::string_view(m.b, N - 256)); s.append(most); OBL_REQUIRE(!(s == less) && !(less == s) && s.compare(less) > 0 && s.starts_with(less)); s.erase(257, 10); OBL_REQUIRE(s.size() == N - 10 && s[256] == 'a'); }
    if(op == 6) { s.append(most); s.resize(300); OBL_REQUIRE(s.size() == 300 && s[At] == 'b' && s[N - 1] == 'a'); }
    if(op == 7) { s.append(most); s[At] = c; s[9] = 'y'; OBL_REQUIRE(s[At] == c && s[9] == 'y' && s.front() == 'a'); s.back() = 'q'; OBL_REQUIRE(s[N - 1] == 'q' && s[13] == 'a'); }
    if(op == 8) { s.append(most); auto i = s.begin(); i += 260; auto j = s.end(); j -= 5; OBL_REQUIRE(j - i == 5 && *j == 'b' && i < j); ++j; OBL_REQUIRE(*j == 'a'); }
    if(op == 9) { s.append(most); s.insert(s.begin() + 264, c); OBL_REQUIRE(s.size() == N + 1 && s[264] == c && s[263] == 'a' && s[At + 1] == 'b'); }
    OBL_REQUIRE(k.g == c && k.h == c);
    OBL_END;
}
template <int op> void one_vector(int a, int b)
{
    struct { int g; estd::layer1::vector<int, Cap> v; int h; } m;
    m.g = m.h = a;
    for(int i = 0; i < N; ++i) m.v.push_back(i);
    OBL_REQUIRE(m.v.size() == N && m.v[N - 1] == N - 1 && m.v[0] == 0);
    if(op == 0) { m.v.push_back(b); OBL_REQUIRE(m.v.size() == N + 1 && m.v[N] == b && m.v[N & 255] == (N & 255)); }
    if(op == 1) { m.v.pop_back(); OBL_REQUIRE(m.v.size() == N - 1 && m.v.back() == N - 2); }
    if(op == 2) { m.v.insert(m.v.begin() + 264, b); OBL_REQUIRE(m.v.size() == N + 1 && m.v[263] == 263 && m.v[264] == b && m.v[265] == 264 && m.v[N] == N - 1 && m.v[8] == 8); }
    if(op == 3) { m.v.clear(); OBL_REQUIRE(m.v.size() == 0); }
    if(op == 5) { estd::layer1::vector<int, Cap> w; for(int i = 0; i < N - 256; ++i) w.push_back(i); OBL_REQUIRE(!(m.v == w) && !(w == m.v)); for(int i = N - 256; i < N; ++i) w.push_back(i); OBL_REQUIRE(m.v == w); w[At] = b; OBL_REQUIRE((m.v == w) == (b == At)); }
    if(op == 4) { auto i = m.v.begin(); i += At; OBL_REQUIRE(*i == At && m.v.end() - m.v.begin() == N); }
    OBL_REQUIRE(m.g == a && m.h == a);
    OBL_END;
}
}
#define F(f, n) (void*)&oblt::f<n>
OBL_INSTANCES(sized, F(three_sized, 0), F(three_sized, 1), F(three_sized, 2), F(three_sized, 3), F(three_sized, 4), F(three_sized, 5), F(three_sized, 6), F(three_sized, 7), F(three_sized, 8), F(three_sized, 9), F(three_sized, 10))
OBL_INSTANCES(one, F(one_sized, 0), F(one_sized, 1), F(one_sized, 2), F(one_sized, 3))
OBL_INSTANCES(grown, F(one_grown, 0), F(one_grown, 1), F(one_grown, 2), F(one_grown, 3), F(one_grown, 4), F(one_grown, 5), F(one_grown, 6), F(one_grown, 7), F(one_grown, 8), F(one_grown, 9), F(one_grown, 10), F(one_grown, 11))
OBL_INSTANCES(vectors, F(one_vector, 0), F(one_vector, 1), F(one_vector, 2), F(one_vector, 3), F(one_vector, 4), F(one_vector, 5))
