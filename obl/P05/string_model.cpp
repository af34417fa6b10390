// std: 17
// thorough: 20
// min: 162
// shards: 1 2 3 4 5 6
// peel: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// allow: abort
#include "cstr.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include "obl.h"

// reference model: the characters the string must hold
struct M
{
    char c[12]; int n = 0;
    M& add(const char* s, int k) { for(int i = 0; i < k; i++) c[n + i] = s[i]; n += k; return *this; }
    M& ins(int at, const char* s, int k) { for(int i = n; i-- > at;) c[i + k] = c[i]; for(int i = 0; i < k; i++) c[at + i] = s[i]; n += k; return *this; }
    M& del(int at, int k) { for(int i = at; i + k < n; i++) c[i] = c[i + k]; n -= k; return *this; }
};

// six unknown characters, none of them the terminator
struct In { char s[8]; };
#define CH char a, char b, char c, char d, char e, char f
#define MK In in{{a, b, c, d, e, f, 0, 0}}; OBL_ASSUME(a && b && c && d && e && f)

// string flavors, each over storage for 6 characters (plus terminator), between guards
template <int kind> struct box;
template <> struct box<1> { char g0[4] = {1, 2, 3, 4}; estd::layer1::string<7> s; char g1[4] = {5, 6, 7, 8}; static const bool term = true; };
template <> struct box<2> { char g0[4] = {1, 2, 3, 4}; estd::layer1::string<6, false> s; char g1[4] = {5, 6, 7, 8}; static const bool term = false; };
template <> struct box<3> { char g0[4] = {1, 2, 3, 4}; char b[7] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer2::string<7> s{b}; static const bool term = true; };
template <> struct box<4> { char g0[4] = {1, 2, 3, 4}; char b[7] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer3::string s{b}; static const bool term = true; };
template <> struct box<5> { char g0[4] = {1, 2, 3, 4}; char b[6] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer3::basic_string<char, false> s{(char*)b, (uint16_t)0, (uint16_t)6}; static const bool term = false; };
template <> struct box<6> { char g0[4] = {1, 2, 3, 4}; char b[300] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer2::string<> s{b}; static const bool term = true; };   // unbounded

template <class B> static inline bool guards(const B& x) { return x.g0[0] == 1 && x.g0[1] == 2 && x.g0[2] == 3 && x.g0[3] == 4 && x.g1[0] == 5 && x.g1[1] == 6 && x.g1[2] == 7 && x.g1[3] == 8; }
template <class B> static inline void agree(B& x, const M& m)
{
    const auto& s = x.s;
    OBL_REQUIRE((int)s.size() == m.n && (int)s.length() == m.n && s.empty() == (m.n == 0));
    const char* p = s.clock(); s.cunlock();
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(p[i] == m.c[i]);
    if(B::term) OBL_REQUIRE(p[m.n] == 0);
    OBL_REQUIRE(guards(x));
    OBL_REQUIRE(s.size() <= s.max_size() && (B::term ? s.max_size() < s.capacity() : s.max_size() <= s.capacity()));
}

template <int kind, int n0, int k> static inline void appends(const In& in)
{
    if constexpr(n0 + k <= 6) {
    const char* S = in.s;
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); agree(x, m); x.s.append(S + n0, k); m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); for(int i = 0; i < k; i++) { auto& r = (x.s += S[n0 + i]); OBL_REQUIRE((void*)&r == (void*)&x.s); } m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); char z[8]; for(int i = 0; i < k; i++) z[i] = S[n0 + i]; z[k] = 0; x.s += (const char*)z; m.add(z, k); agree(x, m); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); box<2> y; y.s.append(S + n0, k); x.s += y.s; m.add(S + n0, k); agree(x, m); agree(y, M().add(S + n0, k)); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); x.s.append(estd::string_view(S + n0, k)); m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); x.s.append(k, S[5]); for(int i = 0; i < k; i++) m.add(S + 5, 1); agree(x, m); }
    }
}
template <int kind, int n0, int k> static inline void assigns(const In& in)
{
    const char* S = in.s;
    char z[8]; for(int i = 0; i < k; i++) z[i] = S[5 - i]; z[k] = 0;
    if constexpr(kind < 4 || kind == 6) { box<kind> x; M m; x.s.append(S, n0); x.s = (const char*)z; m.add(z, k); agree(x, m); x.s.clear(); agree(x, M()); }
    { box<kind> x; M m; x.s.append(S, n0); box<2> y; y.s.append(z, k); x.s = y.s; m.add(z, k); agree(x, m); agree(y, m); }
    { box<kind> x; M m; x.s.append(S, n0); x.s = estd::string_view(z, k); m.add(z, k); agree(x, m); }
}
template <int kind, int n0, int at, int k> static inline void edits(const In& in)
{
    const char* S = in.s;
    if constexpr(at <= n0) {
    if constexpr(n0 + k <= 6) {
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); x.s.insert(at, S + 3, k); m.ins(at, S + 3, k); agree(x, m); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); box<2> y; y.s.append(S + 3, k); x.s.insert(at, y.s); m.ins(at, S + 3, k); agree(x, m); } }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); x.s.erase(at, k); m.del(at, at + k > n0 ? n0 - at : k); agree(x, m); }
    { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); x.s.erase(at); m.del(at, n0 - at); agree(x, m); }
    if constexpr(n0 > 0) { box<kind> x; M m; x.s.append(S, n0); m.add(S, n0); x.s.pop_back(); m.n--; agree(x, m); }
    { box<kind> x; x.s.append(S, n0); char out[8] = {9, 9, 9, 9, 9, 9, 9, 9}; int r = x.s.copy(out, k, at); int want = at + k > n0 ? n0 - at : k;
      OBL_REQUIRE(r == want); for(int i = 0; i < 8; i++) OBL_REQUIRE(out[i] == (i < want ? S[at + i] : 9)); }
    }
}

#define APP(K, n0, k) OBL(str_append##K##_##n0##_##k, CH) { MK; appends<K, n0, k>(in); OBL_END; }
#define ASS(K, n0, k) OBL(str_assign##K##_##n0##_##k, CH) { MK; assigns<K, n0, k>(in); OBL_END; }
#define EDI(K, n0, at, k) OBL(str_edit##K##_##n0##_##at##_##k, CH) { MK; edits<K, n0, at, k>(in); OBL_END; }
#define K1(K) K2(K)
#define K2(K) \
 APP(K, 0, 0) APP(K, 0, 1) APP(K, 0, 6) APP(K, 1, 2) APP(K, 2, 3) APP(K, 3, 3) APP(K, 4, 1) APP(K, 5, 1) APP(K, 6, 0) \
 ASS(K, 0, 0) ASS(K, 0, 6) ASS(K, 2, 1) ASS(K, 3, 0) ASS(K, 3, 3) ASS(K, 4, 6) ASS(K, 6, 2) \
 EDI(K, 0, 0, 2) EDI(K, 3, 0, 1) EDI(K, 3, 0, 3) EDI(K, 3, 1, 2) EDI(K, 3, 2, 2) EDI(K, 3, 3, 3) EDI(K, 4, 1, 2) EDI(K, 4, 3, 1) EDI(K, 5, 0, 1) EDI(K, 6, 0, 0) EDI(K, 6, 5, 1)
K1(SHARD)
