// std: 17
// thorough: 20
// min: 20
// peel: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp -fno-builtin-strtol -fno-builtin-strtoul
#include "cstr.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include "obl.h"

struct In { char s[8]; };
#define CH char a, char b, char c, char d, char e
#define MK In in{{a, b, c, d, e, 0, 0, 0}}; OBL_ASSUME(a && b && c && d && e)

template <class V> static inline void is(const V& v, const char* p, int n)
{
    OBL_REQUIRE((int)v.size() == n && (int)v.length() == n && v.empty() == (n == 0));
    OBL_REQUIRE(v.data() == p);
    int i = 0; for(auto it = v.begin(); it != v.end(); ++it, ++i) OBL_REQUIRE(&*it == p + i);
    OBL_REQUIRE(i == n);
    for(i = 0; i < n; i++) OBL_REQUIRE((char)v[i] == p[i] && (char)v.at(i) == p[i]);
    if(n) { const char f = v.front(), b = v.back(); OBL_REQUIRE(f == p[0] && b == p[n - 1]); }
}
#define SUB(n, pos, cnt) OBL(v_sub_##n##_##pos##_##cnt, CH) { MK; const estd::string_view v(in.s, n); is(v, in.s, n); \
    const auto w = v.substr(pos, cnt); is(w, in.s + pos, pos + cnt > n ? n - pos : cnt); is(v, in.s, n); \
    const auto t = v.substr(pos); is(t, in.s + pos, n - pos); const auto u = v.substr(); is(u, in.s, n); \
    auto x = v; x.remove_prefix(pos); is(x, in.s + pos, n - pos); auto y = x; if(cnt <= n - pos) { y.remove_suffix(cnt); is(y, in.s + pos, n - pos - cnt); } is(x, in.s + pos, n - pos); \
    estd::string_view z = w; is(z, w.data(), w.size()); OBL_END; }
SUB(0, 0, 0) SUB(0, 0, 3) SUB(3, 0, 0) SUB(3, 0, 2) SUB(3, 0, 3) SUB(3, 1, 1) SUB(3, 1, 2) SUB(3, 1, 9) SUB(3, 3, 0) SUB(3, 3, 1) SUB(5, 2, 2) SUB(5, 4, 1)

OBL(v_cstr, CH) { MK; estd::string_view v((const char*)in.s); is(v, in.s, 5); estd::string_view n; OBL_REQUIRE(n.size() == 0 && n.empty()); OBL_END; }
// views of strings, and strings made of views
OBL(v_conv, CH) { MK;
    estd::layer1::string<8> s; s.append(in.s, 3); estd::string_view v = s; is(v, s.data(), 3); s += v.substr(1); OBL_REQUIRE(s.size() == 5 && s.data()[3] == b && s.data()[4] == c && s.c_str()[5] == 0);
    char buf[8] = {0}; estd::layer2::string<8> s2{buf}; s2.append(in.s, 4); estd::string_view v2 = s2; is(v2, buf, 4);
    estd::layer3::string s3{buf}; estd::string_view v3 = s3; is(v3, buf, 4);
    estd::layer1::string<8> s4(v3.substr(1, 2)); OBL_REQUIRE(s4.size() == 2 && s4.data()[0] == b && s4.data()[1] == c && s4.data()[2] == 0);
    estd::layer1::string<8> s5((const char*)in.s, 3); OBL_REQUIRE(s5.size() == 3 && s5.data()[2] == c && s5.data()[3] == 0);
    estd::layer1::string<8> s6((const char*)in.s); OBL_REQUIRE(s6.size() == 5 && s6.data()[4] == e && s6.data()[5] == 0);
    OBL_END; }
OBL(v_const, CH) { MK; const estd::layer3::const_string k((const char*)in.s, 4); OBL_REQUIRE(k.size() == 4 && !k.empty() && k.clock() == in.s); k.cunlock();

    static const char lit[4] = {'x', 'y', 'z', 0}; const estd::layer3::const_string l(lit), m(lit, false); OBL_REQUIRE(l.size() == 3);
    OBL_REQUIRE(m.size() == 4); OBL_END; }

// ordering: shorter first, then the first differing character decides
template <int n, int at> static inline void order(const In& in, const In& o, bool less)
{
    In p = in; for(int i = 0; i < at; i++) p.s[i] = o.s[i];
    if(p.s[at] == o.s[at] || ((unsigned char)p.s[at] < (unsigned char)o.s[at]) != less) return;
    estd::string_view v(p.s, n), w(o.s, n); estd::layer1::string<8> s(p.s, n), t(o.s, n); char z[8]; for(int i = 0; i < n; i++) z[i] = o.s[i]; z[n] = 0;
    OBL_REQUIRE((v.compare(w) < 0) == less && (v.compare(w) > 0) == !less);
    OBL_REQUIRE((s.compare(t) < 0) == less && (s.compare(t) > 0) == !less);
    OBL_REQUIRE((s.compare(w) < 0) == less && (v.compare((const char*)z) > 0) == !less);
}
#define ORD(n, at) OBL(v_order_##n##_##at, CH, char f, char g, char h, bool less) { MK; OBL_ASSUME(f && g && h); In o{{f, g, h, 0}}; if(less) order<n, at>(in, o, true); else order<n, at>(in, o, false); OBL_END; }
ORD(1, 0) ORD(2, 0) ORD(2, 1) ORD(3, 0) ORD(3, 1) ORD(3, 2)

// numbers of strings: the C library sees the whole, terminated text and the base; result and position pass through
static const In* want; static int want_base, stop; static unsigned long result;
static inline void seen(const char* s, int base) { for(int i = 0; i < 6; i++) OBL_REQUIRE(s[i] == want->s[i]); OBL_REQUIRE(base == want_base); }
extern "C" long strtol(const char* s, char** end, int base) noexcept { seen(s, base); *end = (char*)s + stop; return (long)result; }
extern "C" unsigned long strtoul(const char* s, char** end, int base) noexcept { seen(s, base); *end = (char*)s + stop; return result; }
OBL(v_stol, CH, int base, unsigned long r, bool where) { MK; want = &in; want_base = base; result = r; stop = where ? 2 : 5;
    estd::layer1::string<8> s(in.s, 5); char buf[8] = {0}; estd::layer2::string<8> s2{buf}; s2.append(in.s, 5); size_t p = 77;
    if(where) {
        OBL_REQUIRE(estd::stol(s, &p, base) == (long)r && p == 2); OBL_REQUIRE(estd::stoul(s, &p, base) == r && p == 2); OBL_REQUIRE(estd::stoul(s2, nullptr, base) == r);
        OBL_REQUIRE(estd::stoi(s, &p, base) == (int)r); }
    else { OBL_REQUIRE(estd::stol(s2, &p, base) == (long)r && p == 5); OBL_REQUIRE(estd::stoul(s2, &p, base) == r && p == 5); want_base = 10; OBL_REQUIRE(estd::stol(s) == (long)r && estd::stoul(s) == r && estd::stoi(s) == (int)r); }
    OBL_END; }
