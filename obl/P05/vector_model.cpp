// std: 17
// thorough: 20
// min: 60
// shards: 1 2 3 4
// peel: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/vector.h>
#include "obl.h"

// Elements of different widths; fixed capacity of 6, guards either side
typedef long long T;
struct M
{
    T c[16]; int n = 0;
    M& add(const T* s, int k) { for(int i = 0; i < k; i++) c[n + i] = s[i]; n += k; return *this; }
    M& ins(int at, const T* s, int k) { for(int i = n; i-- > at;) c[i + k] = c[i]; for(int i = 0; i < k; i++) c[at + i] = s[i]; n += k; return *this; }
    M& del(int at, int k) { for(int i = at; i + k < n; i++) c[i] = c[i + k]; n -= k; return *this; }
};
struct In { T s[8]; };
#define CH T a, T b, T c, T d, T e, T f
#define MK In in{{a, b, c, d, e, f, 11, 12}};

template <int kind> struct box;
template <> struct box<1> { T g0[2] = {1, 2}; estd::layer1::vector<T, 6> s; T g1[2] = {5, 6}; };
template <> struct box<2> { T g0[2] = {1, 2}; T b[6]; T g1[2] = {5, 6}; estd::layer2::vector<T, 6> s{b}; };
template <> struct box<3> { T g0[2] = {1, 2}; T b[6]; T g1[2] = {5, 6}; estd::layer3::vector<T> s{b}; };
template <> struct box<4> { T g0[2] = {1, 2}; T b[6]; T g1[2] = {5, 6}; estd::layer3::vector<T> s{b, 6}; };

template <class B> static inline void agree(B& x, const M& m)
{
    const auto& s = x.s;
    OBL_REQUIRE((int)s.size() == m.n && s.empty() == (m.n == 0));
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(s.data()[i] == m.c[i]);
    for(int i = 0; i < m.n; i++) { const T& r = x.s[i]; OBL_REQUIRE(r == m.c[i]); }
    int i = 0;
    for(auto it = x.s.begin(); it != x.s.end(); ++it, ++i) { const T& r = *it; OBL_REQUIRE(r == m.c[i]); }
    OBL_REQUIRE(i == m.n);
    if(m.n) { const T& f = x.s.front(); const T& b = x.s.back(); OBL_REQUIRE(f == m.c[0] && b == m.c[m.n - 1]); }
    OBL_REQUIRE(x.g0[0] == 1 && x.g0[1] == 2 && x.g1[0] == 5 && x.g1[1] == 6);
    OBL_REQUIRE(s.capacity() == 6 && s.size() <= s.max_size() && s.max_size() <= 6);
}
template <class B> static inline void fill(B& x, M& m, const T* S, int n) { for(int i = 0; i < n; i++) x.s.push_back(S[i]); m.add(S, n); }

template <int kind, int n0, int k> static inline void appends(const In& in)
{
    const T* S = in.s;
    { box<kind> x; M m; fill(x, m, S, n0); agree(x, m); for(int i = 0; i < k; i++) { x.s.push_back(S[n0 + i]); m.add(S + n0 + i, 1); agree(x, m); } }
    { box<kind> x; M m; fill(x, m, S, n0); for(int i = 0; i < k; i++) x.s.push_back(T(S[n0 + i])); m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; fill(x, m, S, n0); for(int i = 0; i < k; i++) { const T& r = x.s.emplace_back(S[n0 + i]); OBL_REQUIRE(r == S[n0 + i]); } m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; fill(x, m, S, n0); x.s.append(S + n0, k); m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; fill(x, m, S, n0); estd::layer1::vector<T, 8> y; for(int i = 0; i < k; i++) y.push_back(S[n0 + i]); x.s.append(y); m.add(S + n0, k); agree(x, m); }
    { box<kind> x; M m; fill(x, m, S, n0); x.s.resize(n0 + k); OBL_REQUIRE((int)x.s.size() == n0 + k); x.s.resize(n0); agree(x, m); x.s.clear(); agree(x, M()); }
    { box<kind> x; M m; fill(x, m, S, n0); x.s.assign(S + 2, S + 2 + k); agree(x, M().add(S + 2, k)); }
    { box<kind> x; M m; fill(x, m, S, n0); estd::layer1::vector<T, 8> y; for(int i = 0; i < k; i++) y.push_back(S[n0 + i]); x.s.assign(y); agree(x, M().add(S + n0, k)); }
}
template <int kind, int n0, int at, int k> static inline void edits(const In& in)
{
    const T* S = in.s;
    static_assert(at <= n0 && n0 + k <= 6, "");
    { box<kind> x; M m; fill(x, m, S, n0); auto it = x.s.begin(); for(int i = 0; i < at; i++) ++it; const T v = S[5]; auto r = x.s.insert(it, v); m.ins(at, &v, 1); agree(x, m); const T& rr = *r; OBL_REQUIRE(rr == v); }
    { box<kind> x; M m; fill(x, m, S, n0); auto it = x.s.begin(); for(int i = 0; i < at; i++) ++it; auto r = x.s.insert(it, T(S[5])); m.ins(at, S + 5, 1); agree(x, m); const T& rr = *r; OBL_REQUIRE(rr == S[5]); }
    { box<kind> x; M m; fill(x, m, S, n0); auto it = x.s.begin(); for(int i = 0; i < at; i++) it++; x.s.insert(it, S + 3, S + 3 + k); m.ins(at, S + 3, k); agree(x, m); }
    if constexpr(n0 > at) { box<kind> x; M m; fill(x, m, S, n0); auto it = x.s.begin(); for(int i = 0; i < at; i++) ++it; auto r = x.s.erase(it); m.del(at, 1); agree(x, m); OBL_REQUIRE(r - x.s.begin() == at); 
      // own element inserted into itself
      box<kind> y; M q; fill(y, q, S, n0); auto jt = y.s.begin(); for(int i = 0; i < at; i++) ++jt; const T& own = y.s[n0 - 1]; const T v = own; y.s.insert(jt, own); q.ins(at, &v, 1); agree(y, q); }
    if constexpr(n0 > 0) { box<kind> x; M m; fill(x, m, S, n0); x.s.pop_back(); m.n--; agree(x, m);
      box<kind> y; M q; fill(y, q, S, n0); y.s[at < n0 ? at : 0] = S[5]; q.c[at < n0 ? at : 0] = S[5]; agree(y, q); }
}
#define APP(K, n0, k) OBL(vec_append##K##_##n0##_##k, CH) { MK; appends<K, n0, k>(in); OBL_END; }
#define EDI(K, n0, at, k) OBL(vec_edit##K##_##n0##_##at##_##k, CH) { MK; edits<K, n0, at, k>(in); OBL_END; }
#define K1(K) K2(K)
#define K2(K) \
 APP(K, 0, 0) APP(K, 0, 1) APP(K, 0, 6) APP(K, 2, 3) APP(K, 3, 3) APP(K, 5, 1) APP(K, 6, 0) \
 EDI(K, 0, 0, 2) EDI(K, 1, 0, 3) EDI(K, 3, 0, 1) EDI(K, 3, 1, 2) EDI(K, 3, 2, 2) EDI(K, 3, 3, 3) EDI(K, 5, 2, 1) \
 OBL(vec_iter##K, CH) { MK; box<K> x; M m; fill(x, m, in.s, 5); auto i = x.s.begin(); auto j = i++; OBL_REQUIRE((const T&)*j == a && (const T&)*i == b && i != j && i - j == 1); \
    auto k = x.s.end(); --k; OBL_REQUIRE((const T&)*k == e); auto l = k--; OBL_REQUIRE((const T&)*l == e && (const T&)*k == d && k < l && !(l < k) && l == x.s.begin() + 4); OBL_REQUIRE((const T&)*(j + 3) == d); \
    const auto& cs = x.s; auto q = cs.begin(); int n = 0; for(; q != cs.end(); ++q, ++n) OBL_REQUIRE((const T&)*q == m.c[n]); OBL_REQUIRE(n == 5); OBL_END; }
K1(SHARD)
