// Operations whose result does not fit a fixed capacity container never return and leave memory outside
// (and the characters inside) alone.
// std: 17
// thorough: 20
// min: 39
// shards: 1 2 3 4 5 11 13 14
// peel: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// allow: abort
#include <stdlib.h>
#include "cstr.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/vector.h>
#include "obl.h"

template <int kind> struct box;
template <> struct box<1> { char g0[4] = {1, 2, 3, 4}; estd::layer1::string<7> s; char g1[4] = {5, 6, 7, 8}; typedef char T; };
template <> struct box<2> { char g0[4] = {1, 2, 3, 4}; estd::layer1::string<6, false> s; char g1[4] = {5, 6, 7, 8}; typedef char T; };
template <> struct box<3> { char g0[4] = {1, 2, 3, 4}; char b[7] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer2::string<7> s{b}; typedef char T; };
template <> struct box<4> { char g0[4] = {1, 2, 3, 4}; char b[7] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer3::string s{b}; typedef char T; };
template <> struct box<5> { char g0[4] = {1, 2, 3, 4}; char b[6] = {0}; char g1[4] = {5, 6, 7, 8}; estd::layer3::basic_string<char, false> s{(char*)b, (uint16_t)0, (uint16_t)6}; typedef char T; };
template <> struct box<11> { int g0[4] = {1, 2, 3, 4}; estd::layer1::vector<int, 6> s; int g1[4] = {5, 6, 7, 8}; typedef int T; };
template <> struct box<13> { int g0[4] = {1, 2, 3, 4}; int b[6]; int g1[4] = {5, 6, 7, 8}; estd::layer2::vector<int, 6> s{b}; typedef int T; };
template <> struct box<14> { int g0[4] = {1, 2, 3, 4}; int b[6]; int g1[4] = {5, 6, 7, 8}; estd::layer3::vector<int> s{b}; typedef int T; };

typedef box<SHARD> B;
typedef B::T T;
// where the assertion which stops the operation looks at the memory around the container
static B* cur;
static const T* content; static int content_n;
extern "C" __attribute__((noreturn)) void __assert_fail(const char*, const char*, unsigned, const char*) noexcept
{
    B& x = *cur;
    OBL_REQUIRE(x.g0[0] == 1 && x.g0[1] == 2 && x.g0[2] == 3 && x.g0[3] == 4 && x.g1[0] == 5 && x.g1[1] == 6 && x.g1[2] == 7 && x.g1[3] == 8);
    const T* p = x.s.data();
    for(int i = 0; i < content_n; i++) OBL_REQUIRE(p[i] == content[i]);
    abort();
}

struct In { T s[12]; };
template <int n0, class F> static inline void over(bool go, const In& in, F f)
{
    B x; cur = &x; content = in.s; content_n = n0;
    for(int i = 0; i < n0; i++) x.s.push_back(in.s[i]);
    if(go) { f(x.s); OBL_NEVER(); }
}
#define CH bool go, T a, T b, T c, T d, T e, T f, T g, T h
#define MK In in{{a, b, c, d, e, f, g, h, a, b, 0, 0}}; OBL_ASSUME(a && b && c && d && e && f && g && h); const T* S = in.s; (void)S;

#if SHARD < 10
template <int n0, int k> static inline void grow(bool go, const In& in)
{
    const T* S = in.s;
    static_assert(n0 + k > 6, "");
    over<n0>(go, in, [S](auto& s) { s.append(S, k); });
    over<n0>(go, in, [S](auto& s) { for(int i = 0; i < k; i++) s += S[i]; });
    over<n0>(go, in, [S](auto& s) { char z[k + 1]; for(int i = 0; i < k; i++) z[i] = S[i]; z[k] = 0; s += (const char*)z; });
    over<n0>(go, in, [S](auto& s) { estd::layer1::string<10> y; y.append(S, k); s += y; });
    over<n0>(go, in, [S](auto& s) { s.append(estd::string_view(S, k)); });
    over<n0>(go, in, [S](auto& s) { s.append(k, S[0]); });
    over<n0>(go, in, [S](auto& s) { s.insert(0, S, k); });
    over<n0>(go, in, [S](auto& s) { s.insert(n0, S, k); });
    over<n0>(go, in, [S](auto& s) { estd::layer1::string<10> y; y.append(S, k); s.insert(0, y); });
}
OBL(cap_append0, CH) { MK; grow<0, 7>(go, in); OBL_END; }
OBL(cap_append1, CH) { MK; grow<1, 6>(go, in); OBL_END; }
OBL(cap_append3, CH) { MK; grow<3, 4>(go, in); OBL_END; }
OBL(cap_append6, CH) { MK; grow<6, 1>(go, in); OBL_END; }
OBL(cap_assign, CH) { MK;
    over<2>(go, in, [S](auto& s) { estd::layer1::string<10> y; y.append(S, 7); s = y; });
    over<2>(go, in, [S](auto& s) { s.resize(7); });
    over<2>(go, in, [S](auto& s) { estd::layer1::string<10> y; y.append(S, 7); s.assign(y); });
    over<2>(go, in, [S](auto& s) { s.assign(S, S + 7); });
    OBL_END; }
#else
template <int n0> static inline void grow1(bool go, const In& in)
{
    const T* S = in.s;
    over<n0>(go, in, [S](auto& s) { for(int i = n0; i < 7; i++) s.push_back(S[i]); });
    over<n0>(go, in, [S](auto& s) { for(int i = n0; i < 7; i++) s.push_back(T(S[i])); });
    over<n0>(go, in, [S](auto& s) { for(int i = n0; i < 7; i++) s.emplace_back(S[i]); });
    over<n0>(go, in, [S](auto& s) { s.append(S, 7 - n0); });
    over<n0>(go, in, [S](auto& s) { s.insert(s.begin(), S, S + (7 - n0)); });
    over<n0>(go, in, [S](auto& s) { estd::layer1::vector<T, 10> y; for(int i = n0; i < 7; i++) y.push_back(S[i]); s.append(y); });
}
OBL(cap_append, CH) { MK; grow1<0>(go, in); grow1<3>(go, in); grow1<5>(go, in); grow1<6>(go, in); OBL_END; }
OBL(cap_insert, CH) { MK;
    over<6>(go, in, [S](auto& s) { const T v = S[7]; s.insert(s.begin(), v); });
    over<6>(go, in, [S](auto& s) { s.insert(s.begin(), T(S[7])); });
    over<6>(go, in, [S](auto& s) { const T v = S[7]; s.insert(s.end(), v); });
    over<2>(go, in, [S](auto& s) { s.resize(7); });
    over<2>(go, in, [S](auto& s) { s.assign(S, S + 7); });
    over<2>(go, in, [S](auto& s) { s.resize(7); });
    over<2>(go, in, [S](auto& s) { s.resize(262); });
    OBL_END; }
#endif
// totals which do not fit the container's narrow size type
OBL(cap_large, CH) { MK;
    over<3>(go, in, [S](auto& s) { s.append(S, 254); });
    over<3>(go, in, [S](auto& s) { s.append(S, 256); });
    over<0>(go, in, [S](auto& s) { s.append(S, 257); });
    over<3>(go, in, [S](auto& s) { s.append(S, 65534); });
    over<3>(go, in, [S](auto& s) { s.resize(256); });
    over<3>(go, in, [S](auto& s) { s.assign(S, S + 258); });
    OBL_END; }
