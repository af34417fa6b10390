// std: 17
// thorough: 20
// min: 3900
// shards: 1 2 5 6 11 12 15 16
// thorough-shards: 3 4 7 13 14 17
// peel: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include "obl.h"
#include <utility>

struct In { char s[8]; char t[8]; };
#define CH char a, char b, char c, char d, char e, char p, char q, char r
#define MK In in{{a, b, c, d, e, 0, 0, 0}, {p, q, r, 0, 0, 0, 0, 0}}; OBL_ASSUME(a && b && c && d && e && p && q && r)

// subject strings: each flavor holding the first n characters of s, more characters following outside it where possible
#if SHARD % 10 == 1
template <int n> struct subj { estd::layer1::string<8> s; subj(const char* x) { s.append(x, n); } };
#elif SHARD % 10 == 2
template <int n> struct subj { estd::layer1::string<8, false> s; subj(const char* x) { s.append(x, 5); s.erase(n); } };
#elif SHARD % 10 == 3
template <int n> struct subj { char b[8] = {0}; estd::layer2::string<8> s{b}; subj(const char* x) { s.append(x, n); } };
#elif SHARD % 10 == 4
template <int n> struct subj { char b[8] = {0}; estd::layer3::string s{b}; subj(const char* x) { s.append(x, n); } };
#elif SHARD % 10 == 5
template <int n> struct subj { estd::string_view s; subj(const char* x) : s(x, n) {} };
#elif SHARD % 10 == 6
template <int n> struct subj { estd::layer3::const_string s; subj(const char* x) : s(x, n) {} };
#elif SHARD % 10 == 7
template <int n> struct subj { char b[8] = {0}; estd::layer2::string<> s{b}; subj(const char* x) { s.append(x, n); } };
#endif

// The queries only compare characters for equality, so all contents are covered by the cases of which characters
// of the subject equal which characters of the argument. Equal characters are the same unknown; a subject
// character which occurs nowhere in the argument is an unknown of its own, different from all of those.
constexpr unsigned tparts(int m) { return m < 2 ? 1 : m == 2 ? 2 : 5; }
constexpr int tclass(int m, unsigned part, int j)     // class of argument character j
{
    constexpr int k3[5][3] = {{0, 1, 2}, {0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}};
    return m < 2 ? 0 : m == 2 ? (part == 0 ? j : 0) : k3[part][j];
}
constexpr int tclasses(int m, unsigned part) { int r = 0; for(int j = 0; j < m; j++) if(tclass(m, part, j) + 1 > r) r = tclass(m, part, j) + 1; return r; }
constexpr unsigned power(unsigned b, int e) { unsigned r = 1; while(e--) r *= b; return r; }
template <int n, int m, unsigned part> constexpr unsigned cases() { return power(tclasses(m, part) + 1, n); }
template <int n, int m> struct Case
{
    unsigned part, code;
    constexpr int sclass(int i) const { int c = tclasses(m, part) + 1; unsigned k = code; while(i--) k /= c; return int(k % c) - 1; }
    constexpr bool eq(int i, int j) const { return sclass(i) == tclass(m, part, j); }
    constexpr bool at(int i) const { for(int j = 0; j < m; j++) if(!eq(i + j, j)) return false; return true; }
    constexpr bool any(int i) const { for(int j = 0; j < m; j++) if(eq(i, j)) return true; return false; }
    constexpr int find(int pos) const { for(int i = pos; i + m <= n; i++) if(at(i)) return i; return -1; }
    constexpr int rfind(int pos) const { for(int i = n - m < pos ? n - m : pos; i >= 0; i--) if(at(i)) return i; return -1; }
    constexpr int first(int pos) const { for(int i = pos; i < n; i++) if(any(i)) return i; return -1; }
    constexpr int last(int pos) const { for(int i = pos < n ? pos : n - 1; i >= 0; i--) if(any(i)) return i; return -1; }
    constexpr int findc(int pos) const { for(int i = pos; i < n; i++) if(eq(i, 0)) return i; return -1; }
};
template <int n, int m, unsigned part, unsigned code> static inline bool arrange(In& in)
{
    constexpr Case<n, m> c{part, code};
    const In raw = in;
    for(int j = 0; j < m; j++) in.t[j] = raw.t[tclass(m, part, j)];
    for(int i = 0; i < n; i++)
    {
        if(c.sclass(i) >= 0) in.s[i] = raw.t[c.sclass(i)];
        else for(int k = 0; k < tclasses(m, part); k++) if(raw.s[i] == raw.t[k]) return false;
    }
    for(int k = 0; k < tclasses(m, part); k++) for(int l = 0; l < k; l++) if(raw.t[k] == raw.t[l]) return false;
    return true;
}
// result as int, npos as -1
template <class S, class R> static inline int I(const S&, R r) { return r == S::npos ? -1 : (int)r; }
#define Z(m) char z[8]; for(int i = 0; i < m; i++) z[i] = in.t[i]; z[m] = 0

namespace oblt {
template <int n, int m, int pos, int op, unsigned part, unsigned code> void query(CH)
{
    constexpr Case<n, m> C{part, code};
    MK;
    if(arrange<n, m, part, code>(in))
    {
        subj<n> x(in.s); const auto& s = x.s;
        if constexpr(op == 0) OBL_REQUIRE(I(s, s.find(in.t, pos, m)) == C.find(pos));
        if constexpr(op == 1) OBL_REQUIRE(I(s, s.rfind(in.t, pos, m)) == C.rfind(pos));
        if constexpr(op == 2) OBL_REQUIRE(I(s, s.find_first_of(in.t, pos, m)) == C.first(pos));
        if constexpr(op == 3) OBL_REQUIRE(I(s, s.find_last_of(in.t, pos, m)) == C.last(pos));
        if constexpr(op == 4) OBL_REQUIRE(I(s, s.find(in.t[0], pos)) == C.findc(pos));
        Z(m); estd::string_view v(in.t, m); estd::layer1::string<5> l; l.append(in.t, m);
        if constexpr(op == 5) { OBL_REQUIRE(I(s, s.find((const char*)z)) == C.find(0)); OBL_REQUIRE(I(s, s.find(v)) == C.find(0)); OBL_REQUIRE(I(s, s.find(l)) == C.find(0)); }
        if constexpr(op == 6) { OBL_REQUIRE(I(s, s.rfind((const char*)z)) == C.rfind(99)); OBL_REQUIRE(I(s, s.rfind(v)) == C.rfind(99)); OBL_REQUIRE(I(s, s.rfind(l)) == C.rfind(99)); }
        if constexpr(op == 7) { OBL_REQUIRE(I(s, s.find_first_of((const char*)z)) == C.first(0)); OBL_REQUIRE(I(s, s.find_first_of(v)) == C.first(0)); }
        if constexpr(op == 8) { OBL_REQUIRE(I(s, s.find_last_of((const char*)z)) == C.last(99)); OBL_REQUIRE(I(s, s.find_last_of(v)) == C.last(99)); }
        if constexpr(op == 9)
        {
            constexpr bool pre = m <= n && C.at(0), suf = m <= n && C.at(m <= n ? n - m : 0), eq = n == m && C.at(0);
            OBL_REQUIRE(s.starts_with((const char*)z) == pre); OBL_REQUIRE(s.starts_with(v) == pre); OBL_REQUIRE(s.starts_with(l) == pre);
            OBL_REQUIRE(s.ends_with((const char*)z) == suf); OBL_REQUIRE(s.ends_with(v) == suf); OBL_REQUIRE(s.ends_with(l) == suf);
            OBL_REQUIRE((s == (const char*)z) == eq); OBL_REQUIRE(((const char*)z == s) == eq); OBL_REQUIRE((s == v) == eq); OBL_REQUIRE((s == l) == eq); OBL_REQUIRE((l == s) == eq);
            OBL_REQUIRE((s.compare((const char*)z) == 0) == eq); OBL_REQUIRE((s.compare(v) == 0) == eq); OBL_REQUIRE((s.compare(l) == 0) == eq);
            OBL_REQUIRE(n == m || (s.compare(v) < 0) == (n < m));
            if(m > 0) { OBL_REQUIRE(s.starts_with(in.t[0]) == (n > 0 && C.eq(0, 0))); OBL_REQUIRE(s.ends_with(in.t[0]) == (n > 0 && C.eq(n ? n - 1 : 0, 0))); }
        }
    }    OBL_END;
}
}
// every case of every query in the list
template <int n, int m, int pos, int op, unsigned part, class K> struct insts;
template <int n, int m, int pos, int op, unsigned part, unsigned... k> struct insts<n, m, pos, op, part, std::integer_sequence<unsigned, k...>>
{ void* f[sizeof...(k)] = {(void*)(void (*)(char, char, char, char, char, char, char, char))&oblt::query<n, m, pos, op, part, k>...}; };
#define QP(n, m, pos, op, part) extern "C" { __attribute__((used)) insts<n, m, pos, op, part, std::make_integer_sequence<unsigned, cases<n, m, part>()>> cases_##n##_##m##_##pos##_##op##_##part; }
#define QS(n, m, pos, op) QP(n, m, pos, op, 0)
#define Q2(n, m, pos, op) QP(n, m, pos, op, 0) QP(n, m, pos, op, 1)
#define FIND(Q, n, m, pos) Q(n, m, pos, 0) Q(n, m, pos, 1) Q(n, m, pos, 2) Q(n, m, pos, 3)
#define FINDC(Q, n, m, pos) FIND(Q, n, m, pos) Q(n, m, pos, 4)
#if SHARD < 10
FINDC(QS, 0, 1, 0) FINDC(QS, 1, 1, 0) FINDC(QS, 2, 1, 0) FINDC(QS, 3, 1, 0) FINDC(QS, 3, 1, 1) FINDC(QS, 3, 1, 2)
FIND(Q2, 2, 2, 0) FIND(Q2, 2, 2, 1) FIND(Q2, 1, 2, 0) FIND(QS, 1, 3, 0) FIND(QS, 4, 1, 2) FIND(Q2, 3, 2, 0) FIND(Q2, 3, 2, 1)
#else
#define FINDZ(Q, n, m) Q(n, m, 0, 5) Q(n, m, 0, 6) Q(n, m, 0, 7) Q(n, m, 0, 8)
FINDZ(QS, 0, 1) FINDZ(QS, 1, 1) FINDZ(QS, 3, 1) FINDZ(Q2, 2, 2) FINDZ(Q2, 1, 2) FINDZ(Q2, 3, 2)
QS(0, 0, 0, 9) QS(0, 1, 0, 9) QS(1, 0, 0, 9) QS(1, 1, 0, 9) QS(2, 1, 0, 9) Q2(1, 2, 0, 9) Q2(2, 2, 0, 9) Q2(3, 2, 0, 9) QS(2, 3, 0, 9)

#define VIEW(n) \
OBL(q_elem_##n, CH) { MK; subj<n> x(in.s); const auto& s = x.s; OBL_REQUIRE((int)s.size() == n && (int)s.length() == n && s.empty() == (n == 0)); \
    const char* dd = s.clock(); s.cunlock(); for(int i = 0; i < n; i++) OBL_REQUIRE(dd[i] == in.s[i] && (char)s[i] == in.s[i]); \
    int i = 0; for(auto it = s.begin(); it != s.end(); ++it, ++i) OBL_REQUIRE((char)*it == in.s[i]); OBL_REQUIRE(i == n); \
    char o[8] = {9, 9, 9, 9, 9, 9, 9, 9}; OBL_REQUIRE((int)s.copy(o, 2, 0) == (n < 2 ? n : 2)); for(int i = 0; i < 8; i++) OBL_REQUIRE(o[i] == (i < 2 && i < n ? in.s[i] : 9)); \
    estd::string_view v(dd, n); OBL_REQUIRE(estd::hash<estd::string_view>{}(v) == estd::internal::string_hash{}(s)); OBL_END; }
VIEW(0) VIEW(1) VIEW(3) VIEW(5)
#endif
