// Strings over memory which is given to them: they start with what they are told, alias it, and write nothing else
// std: 17
// min: 26
// peel: 4
// rounds: 6
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include <string_view>
#include "cstr.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/span.h>
#include "obl.h"

struct mem { char g0[4] = {1, 2, 3, 4}; char b[8]; char g1[4] = {5, 6, 7, 8}; };
#define GUARDS(x) OBL_REQUIRE(x.g0[0] == 1 && x.g0[1] == 2 && x.g0[2] == 3 && x.g0[3] == 4 && x.g1[0] == 5 && x.g1[1] == 6 && x.g1[2] == 7 && x.g1[3] == 8)
#define CH char c0, char c1, char c2, char c3
#define NUL0 OBL_ASSUME(c0 != 0); OBL_ASSUME(c1 != 0); OBL_ASSUME(c2 != 0); OBL_ASSUME(c3 != 0)
#define FILL(x, n) x.b[0] = c0; x.b[1] = c1; x.b[2] = c2; x.b[3] = c3; for(int i = 4; i < 8; i++) x.b[i] = 9; if(n < 8) x.b[n] = 0
template <class S> static inline bool holds(const S& s, const char* at, int n) { return (int)s.size() == n && s.data() == at && s.empty() == (n == 0); }

namespace oblt {
template <int n> void terminated(CH)
{
    NUL0;
    mem x; FILL(x, n);
    const mem was = x;
    estd::layer2::string<8> s(x.b);
    const estd::layer2::string<8> k(&x.b[0]);
    estd::layer2::string<> any(x.b);
    OBL_REQUIRE(holds(s, x.b, n) && holds(k, x.b, n) && holds(any, x.b, n));
    OBL_REQUIRE(s.capacity() == 8 && s.max_size() == 7 && s.c_str() == x.b && k.c_str() == x.b);
    estd::layer3::basic_string<char> t(x.b);
    OBL_REQUIRE(holds(t, x.b, n) && t.capacity() == 8 && t.max_size() == 7);
    const estd::string_view v = s;
    OBL_REQUIRE(v.data() == x.b && (int)v.size() == n);
    for(int i = 0; i < 8; i++) OBL_REQUIRE(x.b[i] == was.b[i]);
    GUARDS(x);
    OBL_END;
}
// told how long: the rest is cut off, whatever was there
template <int n> void told_length(CH)
{
    NUL0;
    mem x, y, z; FILL(x, 8); FILL(y, 8); FILL(z, 8);
    estd::layer2::basic_string<char, 8, true> s((char*)x.b, n);
    OBL_REQUIRE(holds(s, x.b, n) && x.b[n] == 0);
    estd::layer3::basic_string<char> t(y.b, (uint16_t)n);
    OBL_REQUIRE(holds(t, y.b, n) && y.b[n] == 0);
    estd::layer3::basic_string<char, false> u((char*)z.b, (uint16_t)n, (uint16_t)8);
    OBL_REQUIRE(holds(u, z.b, n) && u.capacity() == 8);
    const char c[] = {c0, c1, c2, c3, 9, 9, 9, 9};
    for(int i = 0; i < 8; i++) OBL_REQUIRE((i == n || x.b[i] == c[i]) && (i == n || y.b[i] == c[i]) && z.b[i] == c[i]);
    GUARDS(x); GUARDS(y); GUARDS(z);
    OBL_END;
}
template <bool clear> void told_to_start(CH)
{
    NUL0;
    mem x; FILL(x, 3);
    estd::layer2::basic_string<char, 8, true> s((char*)x.b, clear);
    OBL_REQUIRE(holds(s, x.b, clear ? 0 : 3) && x.b[0] == (clear ? 0 : c0) && x.b[1] == c1 && x.b[2] == c2);
    GUARDS(x);
    OBL_END;
}
// assignment changes the memory, not where the string is
template <int n, int m> void assigned(CH)
{
    NUL0;
    mem x, y, z; FILL(x, n); FILL(y, m); FILL(z, n);
    const mem from = y;
    estd::layer2::string<8> s(x.b), t(y.b);
    estd::layer2::string<8>& r = (s = t.c_str());
    OBL_REQUIRE(&r == &s && holds(s, x.b, m) && holds(t, y.b, m) && x.b[m] == 0);
    for(int i = 0; i < m; i++) OBL_REQUIRE(x.b[i] == from.b[i]);
    estd::layer3::basic_string<char> u(z.b);
    u = t;
    OBL_REQUIRE(holds(u, z.b, m) && z.b[m] == 0 && holds(t, y.b, m));
    for(int i = 0; i < m; i++) OBL_REQUIRE(z.b[i] == from.b[i]);
    for(int i = 0; i < 8; i++) OBL_REQUIRE(y.b[i] == from.b[i]);
    GUARDS(x); GUARDS(y); GUARDS(z);
    OBL_END;
}
// pieces of many kinds put into the middle and at the end
template <int n, int at, int len> void pieces(CH, char d0, char d1, char d2)
{
    NUL0;
    OBL_ASSUME(d0 != 0); OBL_ASSUME(d1 != 0); OBL_ASSUME(d2 != 0);
    const char c[] = {c0, c1, c2, c3}, d[] = {d0, d1, d2, 0};
    char w[8] = {}, e[4] = {};
    for(int i = 0; i < len; i++) e[i] = d[i];
    for(int i = 0; i < n + len; i++) w[i] = i < at ? c[i] : i < at + len ? d[i - at] : c[i - len];
    mem x, y, z; FILL(x, n); FILL(y, n); FILL(z, n);
    estd::layer2::string<8> s(x.b), t(y.b), u(z.b);
    estd::layer2::string<4> piece(e);
    auto& r = s.insert(at, (const char*)e);
    auto& q = t.insert(at, piece);
    OBL_REQUIRE((void*)&r == (void*)&s && (void*)&q == (void*)&t);
    auto& p = u.insert(at, (const char*)e, len);
    OBL_REQUIRE((void*)&p == (void*)&u);
    OBL_REQUIRE(holds(s, x.b, n + len) && holds(t, y.b, n + len) && holds(u, z.b, n + len) && x.b[n + len] == 0 && y.b[n + len] == 0 && z.b[n + len] == 0);
    for(int i = 0; i < n + len; i++) OBL_REQUIRE(x.b[i] == w[i] && y.b[i] == w[i] && z.b[i] == w[i]);
    OBL_REQUIRE(holds(piece, e, len));
    GUARDS(x); GUARDS(y); GUARDS(z);
    OBL_END;
}
template <int n, int len> void appended(CH, char d0, char d1, char d2)
{
    NUL0;
    OBL_ASSUME(d0 != 0); OBL_ASSUME(d1 != 0); OBL_ASSUME(d2 != 0);
    const char c[] = {c0, c1, c2, c3};
    char e[4] = {d0, d1, d2, 0};
    e[len] = 0;
    mem x, y, z; FILL(x, n); FILL(y, n); FILL(z, n);
    estd::layer2::string<8> s(x.b), t(y.b), u(z.b);
    const std::string_view sv(e, len); const estd::string_view ev(e, len); const estd::layer2::string<4> es(e);
    s.append(sv);
    t += ev;
    u += es;
    OBL_REQUIRE(holds(s, x.b, n + len) && holds(t, y.b, n + len) && holds(u, z.b, n + len) && x.b[n + len] == 0 && y.b[n + len] == 0 && z.b[n + len] == 0);
    for(int i = 0; i < n; i++) OBL_REQUIRE(x.b[i] == c[i] && y.b[i] == c[i] && z.b[i] == c[i]);
    for(int i = 0; i < len; i++) OBL_REQUIRE(x.b[n + i] == e[i] && y.b[n + i] == e[i] && z.b[n + i] == e[i]);
    GUARDS(x); GUARDS(y); GUARDS(z);
    OBL_END;
}
}
#define I OBL_INSTANCES
I(terminated, (void*)&oblt::terminated<0>, (void*)&oblt::terminated<1>, (void*)&oblt::terminated<3>, (void*)&oblt::terminated<4>)
I(told_length, (void*)&oblt::told_length<0>, (void*)&oblt::told_length<2>, (void*)&oblt::told_length<4>, (void*)&oblt::told_length<7>)
I(told_to_start, (void*)&oblt::told_to_start<false>, (void*)&oblt::told_to_start<true>)
I(assigned, (void*)&oblt::assigned<0, 3>, (void*)&oblt::assigned<3, 0>, (void*)&oblt::assigned<1, 4>, (void*)&oblt::assigned<4, 2>, (void*)&oblt::assigned<2, 2>)
I(pieces, (void*)&oblt::pieces<0, 0, 2>, (void*)&oblt::pieces<3, 0, 1>, (void*)&oblt::pieces<3, 1, 2>, (void*)&oblt::pieces<4, 2, 3>, (void*)&oblt::pieces<4, 4, 3>, (void*)&oblt::pieces<2, 1, 0>)
I(appended, (void*)&oblt::appended<0, 3>, (void*)&oblt::appended<3, 0>, (void*)&oblt::appended<4, 3>, (void*)&oblt::appended<1, 2>)
// octets seen as text
OBL(octets, CH)
{
    const uint8_t b[4] = {(uint8_t)c0, (uint8_t)c1, (uint8_t)c2, (uint8_t)c3};
    const estd::span<const uint8_t> sp(b, 3);
    const estd::layer3::const_string k(sp);
    OBL_REQUIRE(k.size() == 3 && (const void*)k.data() == b && k[0] == c0 && k[2] == c2);
    OBL_END;
}
