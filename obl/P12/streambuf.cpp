// std: 17
// thorough: 20
// min: 900
// peel: 2
// rounds: 4
// shards: 1 2 3
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/sstream.h>
#include <estd/streambuf.h>
#include <estd/span.h>
#include "obl.h"

typedef estd::ios_base ios;
namespace impl = estd::internal::impl;
using estd::detail::streambuf;
enum { Eof = -1 };
static inline int u(char c) { return (unsigned char)c; }

// ---- what is expected: a run of n characters (room for cap) and a reading position
struct M
{
    char c[24];
    int n = 0, cap = 24, pos = 0;
};
struct In { char c[12]; };

// operations
enum { Bump = 1, Get, Next, Unget, Avail, Back, Begin, Second, Ahead, EndBack, Sync, Tell,
       Put = 20, PutN = 30, GetN = 50 };

// a reading step on content m.c[0, n)
template <int op, class S> static inline void reading(S& s, M& m, char g)
{
    if constexpr(op == Bump)
    {
        const int r = s.sbumpc();
        OBL_REQUIRE(r == (m.pos < m.n ? u(m.c[m.pos]) : Eof));
        if(m.pos < m.n) m.pos++;
    }
    else if constexpr(op == Get) OBL_REQUIRE(s.sgetc() == (m.pos < m.n ? u(m.c[m.pos]) : Eof));
    else if constexpr(op == Next)
    {
        if(m.pos < m.n) m.pos++;
        OBL_REQUIRE(s.snextc() == (m.pos < m.n ? u(m.c[m.pos]) : Eof));
    }
    else if constexpr(op == Unget)
    {
        const int r = s.sungetc();
        if(m.pos > 0) { m.pos--; OBL_REQUIRE(r == u(m.c[m.pos])); }
        else OBL_REQUIRE(r == Eof);
    }
    else if constexpr(op == Avail) OBL_REQUIRE(s.in_avail() == (m.pos < m.n ? m.n - m.pos : -1));
    else if constexpr(op == Back || op == Ahead)
    {
        const int d = op == Back ? (m.pos > 0 ? -1 : 0) : (m.pos < m.n ? 1 : 0);
        m.pos += d;
        OBL_REQUIRE(s.pubseekoff(d, ios::cur, ios::in) == typename S::pos_type(m.pos));
    }
    else if constexpr(op == Begin) { m.pos = 0; OBL_REQUIRE(s.pubseekoff(0, ios::beg, ios::in) == typename S::pos_type(0)); }
    else if constexpr(op == Second) { if(m.n >= 2) { m.pos = 2; OBL_REQUIRE(s.pubseekoff(2, ios::beg) == typename S::pos_type(2)); } }
    else
    {
        constexpr int k = op - GetN;
        char b[k + 2];
        for(int i = 0; i < k + 2; i++) b[i] = g;
        const int left = m.n - m.pos, r = s.sgetn(b + 1, k);
        OBL_REQUIRE(r == (k < left ? k : left));
        for(int i = 0; i < k + 2; i++) OBL_REQUIRE(b[i] == (i >= 1 && i < 1 + r ? m.c[m.pos + i - 1] : g));
        m.pos += r;
    }
}

namespace oblt {

#if SHARD == 1 || SHARD == 2
// reading a span
template <int N, int... ops> void in_span(char g, char c0, char c1, char c2, char c3)
{
    struct { char g0; char b[4]; char g1; } a = {g, {c0, c1, c2, c3}, g};
    M m = {{c0, c1, c2, c3}, N};
    streambuf<impl::in_span_streambuf<char> > s(estd::span<char>(a.b, N));
    (reading<ops>(s, m, g), ...);
    OBL_REQUIRE(s.gptr() == a.b + m.pos);
    OBL_REQUIRE(a.g0 == g && a.g1 == g && a.b[0] == c0 && a.b[1] == c1 && a.b[2] == c2 && a.b[3] == c3);
    OBL_END;
}
template <int N, int... ops> void in_const_span(char g, char c0, char c1, char c2)
{
    const char a[3] = {c0, c1, c2};
    M m = {{c0, c1, c2}, N};
    streambuf<impl::in_span_streambuf<const char> > s(estd::span<const char>(a, N));
    (reading<ops>(s, m, g), ...);
    OBL_REQUIRE(s.gptr() == a + m.pos && s.eback() == a && s.egptr() == a + N);
    OBL_END;
}
#endif

#if SHARD == 1
// any position of any span
template <int way> void in_span_anywhere(char* p, unsigned left, unsigned at)
{
    at %= 1000000, left %= 1000000;
    const unsigned n = at + 1 + left;
    streambuf<impl::in_span_streambuf<char> > s(estd::span<char>(p, n));
    if(way == 0) s.pubseekoff(at, ios::beg);
    else s.pubseekoff(at, ios::cur, ios::in);
    OBL_REQUIRE(s.gptr() == p + at);
    OBL_REQUIRE(s.in_avail() == int(left + 1));
    OBL_REQUIRE(s.sgetc() == u(p[at]));
    OBL_REQUIRE(s.sbumpc() == u(p[at]));
    OBL_REQUIRE(s.in_avail() == (left == 0 ? -1 : int(left)));
    OBL_REQUIRE(s.sungetc() == u(p[at]));
    OBL_REQUIRE(s.in_avail() == int(left + 1));
    OBL_END;
}
template <int way> void in_span_refuses(char* p, unsigned n, int off)
{
    OBL_ASSUME(n < 1000000);
    streambuf<impl::in_span_streambuf<char> > s(estd::span<char>(p, n));
    typedef decltype(s)::pos_type pos;
    if(way == 0) OBL_REQUIRE(s.pubseekoff(off, ios::beg, ios::out) == pos(-1));
    if(way == 1) OBL_REQUIRE(s.pubseekoff(off, ios::cur, ios::out) == pos(-1));
    OBL_REQUIRE(s.gptr() == p && s.eback() == p && s.egptr() == p + n);
    OBL_END;
}
#endif

#if SHARD == 2
// writing into a span
template <class T, int op, class S> static inline void writing(S& s, T* b, M& m, const T* in, T* e)
{
    if constexpr(op == Put)
    {
        const int r = s.sputc(in[0]);
        if(m.pos < m.cap) { OBL_REQUIRE(r == int(sizeof(T) == 1 ? u(in[0]) : in[0])); e[m.pos++] = in[0]; }
        else OBL_REQUIRE(r == Eof);
    }
    else if constexpr(op == Back || op == Ahead)
    {
        const int d = op == Back ? (m.pos > 0 ? -1 : 0) : (m.pos < m.cap ? 1 : 0);
        m.pos += d;
        OBL_REQUIRE(s.pubseekoff(d, ios::cur, ios::out) == typename S::pos_type(m.pos));
    }
    else if constexpr(op == Begin) { m.pos = 0; OBL_REQUIRE(s.pubseekoff(0, ios::beg, ios::out) == typename S::pos_type(0)); }
    else if constexpr(op == EndBack) { m.pos = m.cap - 1; OBL_REQUIRE(s.pubseekoff(-1, ios::end, ios::out) == typename S::pos_type(m.cap - 1)); }
    else if constexpr(op == Tell) OBL_REQUIRE(s.pubseekoff(1, ios::cur, ios::in) == typename S::pos_type(-1));
    else
    {
        constexpr int k = op - PutN;
        const int room = m.cap - m.pos, r = s.sputn(in, k);
        OBL_REQUIRE(r == (k < room ? k : room));
        for(int i = 0; i < r; i++) e[m.pos++] = in[i];
    }
}
template <class T, int... ops> void out_span(T g, T c0, T c1, T c2, T c3, T c4, T c5)
{
    enum { N = 4 };
    struct { T g0; T b[N]; T g1; } a = {g, {g, g, g, g}, g};
    const T in[6] = {c0, c1, c2, c3, c4, c5};
    T e[N] = {g, g, g, g};
    M m;
    m.cap = N;
    streambuf<impl::out_span_streambuf<T> > s(a.b, N);
    (writing<T, ops>(s, a.b, m, in, e), ...);
    OBL_REQUIRE(s.pbase() == a.b && s.pptr() == a.b + m.pos && s.epptr() == a.b + N);
    OBL_REQUIRE(int(s.pos()) == m.pos);
    OBL_REQUIRE(a.g0 == g && a.g1 == g);
    for(int i = 0; i < N; i++) OBL_REQUIRE(a.b[i] == e[i]);
    OBL_END;
}
#endif

#if SHARD == 3
// string streambufs: what is put at the end comes out at the start
template <int op, class S> static inline void both(S& s, M& m, In& in, char g)
{
    if constexpr(op >= Put && op < GetN)
    {
        constexpr int k = op == Put ? 1 : op - PutN;
        if(op == Put) OBL_REQUIRE(s.sputc(in.c[0]) == u(in.c[0]));
        else OBL_REQUIRE(s.sputn(in.c, k) == k);
        for(int i = 0; i < k; i++) m.c[m.n++] = in.c[i];
        for(int i = 0; i + k < 12; i++) in.c[i] = in.c[i + k];
    }
    else if constexpr(op == Tell) OBL_REQUIRE(s.pubseekoff(0, ios::cur, ios::out) == typename S::pos_type(m.n));
    else if constexpr(op == EndBack) { if(m.n) { m.pos = m.n - 1; OBL_REQUIRE(s.pubseekoff(-1, ios::end, ios::in) == typename S::pos_type(m.n - 1)); } }
    else reading<op>(s, m, g);
}
template <class S> static inline void contents(S& s, const M& m)
{
    OBL_REQUIRE(int(s.str().size()) == m.n);
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(s.str()[i] == m.c[i]);
    OBL_REQUIRE(int(s.pos()) == m.pos);
}
#define CHARS char c0, char c1, char c2, char c3, char c4, char c5
#define TAKE if(!(c0 && c1 && c2 && c3 && c4 && c5)) return; In in = {{c0, c1, c2, c3, c4, c5}}
template <bool null_terminated, int... ops> void layer1_buf(char g, CHARS)
{
    TAKE;
    M m;
    struct { char g0 = 1; estd::layer1::stringbuf<8, null_terminated> s; char g1 = 2; } a;
    (both<ops>(a.s, m, in, g), ...);
    contents(a.s, m);
    OBL_REQUIRE(a.g0 == 1 && a.g1 == 2);
    OBL_END;
}
template <int... ops> void layer2_buf(char g, CHARS)
{
    TAKE;
    M m;
    struct { char g0; char b[8]; char g1; } a = {g, {0, g, g, g, g, g, g, g}, g};
    estd::layer2::basic_stringbuf<char, 8> s(a.b);
    (both<ops>(s, m, in, g), ...);
    contents(s, m);
    OBL_REQUIRE(a.g0 == g && a.g1 == g);
    OBL_END;
}
template <int... ops> void layer3_buf(char g, CHARS)
{
    TAKE;
    M m;
    struct { char g0; char b[8]; char g1; } a = {g, {g, g, g, g, g, g, g, g}, g};
    typename estd::layer3::stringbuf::size_type cap = 8, none = 0;
    estd::layer3::stringbuf s(a.b, none, cap);
    (both<ops>(s, m, in, g), ...);
    contents(s, m);
    OBL_REQUIRE(a.g0 == g && a.g1 == g);
    OBL_END;
}
#endif

}
using namespace oblt;
#define V (void*)
#if SHARD == 1
OBL_INSTANCES(q0, V in_span<0, Bump, Bump>, V in_span<0, Bump, Get>, V in_span<0, Bump, Next>, V in_span<0, Bump, Unget>, V in_span<0, Bump, Avail>, V in_span<0, Bump, Back>, V in_span<0, Bump, Begin>, V in_span<0, Bump, Second>, V in_span<0, Bump, Ahead>, V in_span<0, Bump, GetN + 0>, V in_span<0, Bump, GetN + 1>, V in_span<0, Bump, GetN + 2>, V in_span<0, Bump, GetN + 5>, V in_span<0, Get, Bump>, V in_span<0, Get, Get>, V in_span<0, Get, Next>, V in_span<0, Get, Unget>, V in_span<0, Get, Avail>, V in_span<0, Get, Back>, V in_span<0, Get, Begin>, V in_span<0, Get, Second>, V in_span<0, Get, Ahead>, V in_span<0, Get, GetN + 0>, V in_span<0, Get, GetN + 1>, V in_span<0, Get, GetN + 2>, V in_span<0, Get, GetN + 5>, V in_span<0, Next, Bump>, V in_span<0, Next, Get>, V in_span<0, Next, Next>, V in_span<0, Next, Unget>, V in_span<0, Next, Avail>, V in_span<0, Next, Back>, V in_span<0, Next, Begin>, V in_span<0, Next, Second>, V in_span<0, Next, Ahead>, V in_span<0, Next, GetN + 0>, V in_span<0, Next, GetN + 1>, V in_span<0, Next, GetN + 2>, V in_span<0, Next, GetN + 5>, V in_span<0, Unget, Bump>, V in_span<0, Unget, Get>, V in_span<0, Unget, Next>, V in_span<0, Unget, Unget>, V in_span<0, Unget, Avail>, V in_span<0, Unget, Back>, V in_span<0, Unget, Begin>, V in_span<0, Unget, Second>, V in_span<0, Unget, Ahead>, V in_span<0, Unget, GetN + 0>, V in_span<0, Unget, GetN + 1>, V in_span<0, Unget, GetN + 2>, V in_span<0, Unget, GetN + 5>, V in_span<0, Avail, Bump>, V in_span<0, Avail, Get>, V in_span<0, Avail, Next>, V in_span<0, Avail, Unget>, V in_span<0, Avail, Avail>, V in_span<0, Avail, Back>, V in_span<0, Avail, Begin>, V in_span<0, Avail, Second>, V in_span<0, Avail, Ahead>, V in_span<0, Avail, GetN + 0>, V in_span<0, Avail, GetN + 1>, V in_span<0, Avail, GetN + 2>, V in_span<0, Avail, GetN + 5>, V in_span<0, Back, Bump>, V in_span<0, Back, Get>, V in_span<0, Back, Next>, V in_span<0, Back, Unget>, V in_span<0, Back, Avail>, V in_span<0, Back, Back>, V in_span<0, Back, Begin>, V in_span<0, Back, Second>, V in_span<0, Back, Ahead>, V in_span<0, Back, GetN + 0>, V in_span<0, Back, GetN + 1>, V in_span<0, Back, GetN + 2>, V in_span<0, Back, GetN + 5>, V in_span<0, Begin, Bump>, V in_span<0, Begin, Get>, V in_span<0, Begin, Next>, V in_span<0, Begin, Unget>, V in_span<0, Begin, Avail>, V in_span<0, Begin, Back>, V in_span<0, Begin, Begin>, V in_span<0, Begin, Second>, V in_span<0, Begin, Ahead>, V in_span<0, Begin, GetN + 0>, V in_span<0, Begin, GetN + 1>, V in_span<0, Begin, GetN + 2>, V in_span<0, Begin, GetN + 5>, V in_span<0, Second, Bump>, V in_span<0, Second, Get>, V in_span<0, Second, Next>, V in_span<0, Second, Unget>, V in_span<0, Second, Avail>, V in_span<0, Second, Back>, V in_span<0, Second, Begin>, V in_span<0, Second, Second>, V in_span<0, Second, Ahead>, V in_span<0, Second, GetN + 0>, V in_span<0, Second, GetN + 1>, V in_span<0, Second, GetN + 2>, V in_span<0, Second, GetN + 5>, V in_span<0, Ahead, Bump>, V in_span<0, Ahead, Get>, V in_span<0, Ahead, Next>, V in_span<0, Ahead, Unget>, V in_span<0, Ahead, Avail>, V in_span<0, Ahead, Back>, V in_span<0, Ahead, Begin>, V in_span<0, Ahead, Second>, V in_span<0, Ahead, Ahead>, V in_span<0, Ahead, GetN + 0>, V in_span<0, Ahead, GetN + 1>, V in_span<0, Ahead, GetN + 2>, V in_span<0, Ahead, GetN + 5>, V in_span<0, GetN + 0, Bump>, V in_span<0, GetN + 0, Get>, V in_span<0, GetN + 0, Next>, V in_span<0, GetN + 0, Unget>, V in_span<0, GetN + 0, Avail>, V in_span<0, GetN + 0, Back>, V in_span<0, GetN + 0, Begin>, V in_span<0, GetN + 0, Second>, V in_span<0, GetN + 0, Ahead>, V in_span<0, GetN + 0, GetN + 0>, V in_span<0, GetN + 0, GetN + 1>, V in_span<0, GetN + 0, GetN + 2>, V in_span<0, GetN + 0, GetN + 5>, V in_span<0, GetN + 1, Bump>, V in_span<0, GetN + 1, Get>, V in_span<0, GetN + 1, Next>, V in_span<0, GetN + 1, Unget>, V in_span<0, GetN + 1, Avail>, V in_span<0, GetN + 1, Back>, V in_span<0, GetN + 1, Begin>, V in_span<0, GetN + 1, Second>, V in_span<0, GetN + 1, Ahead>, V in_span<0, GetN + 1, GetN + 0>, V in_span<0, GetN + 1, GetN + 1>, V in_span<0, GetN + 1, GetN + 2>, V in_span<0, GetN + 1, GetN + 5>, V in_span<0, GetN + 2, Bump>, V in_span<0, GetN + 2, Get>, V in_span<0, GetN + 2, Next>, V in_span<0, GetN + 2, Unget>, V in_span<0, GetN + 2, Avail>, V in_span<0, GetN + 2, Back>, V in_span<0, GetN + 2, Begin>, V in_span<0, GetN + 2, Second>, V in_span<0, GetN + 2, Ahead>, V in_span<0, GetN + 2, GetN + 0>, V in_span<0, GetN + 2, GetN + 1>, V in_span<0, GetN + 2, GetN + 2>, V in_span<0, GetN + 2, GetN + 5>, V in_span<0, GetN + 5, Bump>, V in_span<0, GetN + 5, Get>, V in_span<0, GetN + 5, Next>, V in_span<0, GetN + 5, Unget>, V in_span<0, GetN + 5, Avail>, V in_span<0, GetN + 5, Back>, V in_span<0, GetN + 5, Begin>, V in_span<0, GetN + 5, Second>, V in_span<0, GetN + 5, Ahead>, V in_span<0, GetN + 5, GetN + 0>, V in_span<0, GetN + 5, GetN + 1>, V in_span<0, GetN + 5, GetN + 2>, V in_span<0, GetN + 5, GetN + 5>, V in_span<1, Bump, Bump>, V in_span<1, Bump, Get>, V in_span<1, Bump, Next>, V in_span<1, Bump, Unget>, V in_span<1, Bump, Avail>, V in_span<1, Bump, Back>, V in_span<1, Bump, Begin>, V in_span<1, Bump, Second>, V in_span<1, Bump, Ahead>, V in_span<1, Bump, GetN + 0>, V in_span<1, Bump, GetN + 1>, V in_span<1, Bump, GetN + 2>, V in_span<1, Bump, GetN + 5>, V in_span<1, Get, Bump>, V in_span<1, Get, Get>, V in_span<1, Get, Next>, V in_span<1, Get, Unget>, V in_span<1, Get, Avail>, V in_span<1, Get, Back>, V in_span<1, Get, Begin>, V in_span<1, Get, Second>, V in_span<1, Get, Ahead>, V in_span<1, Get, GetN + 0>, V in_span<1, Get, GetN + 1>, V in_span<1, Get, GetN + 2>, V in_span<1, Get, GetN + 5>, V in_span<1, Next, Bump>, V in_span<1, Next, Get>, V in_span<1, Next, Next>, V in_span<1, Next, Unget>, V in_span<1, Next, Avail>, V in_span<1, Next, Back>, V in_span<1, Next, Begin>, V in_span<1, Next, Second>, V in_span<1, Next, Ahead>, V in_span<1, Next, GetN + 0>, V in_span<1, Next, GetN + 1>, V in_span<1, Next, GetN + 2>, V in_span<1, Next, GetN + 5>, V in_span<1, Unget, Bump>, V in_span<1, Unget, Get>, V in_span<1, Unget, Next>, V in_span<1, Unget, Unget>, V in_span<1, Unget, Avail>, V in_span<1, Unget, Back>, V in_span<1, Unget, Begin>, V in_span<1, Unget, Second>, V in_span<1, Unget, Ahead>, V in_span<1, Unget, GetN + 0>, V in_span<1, Unget, GetN + 1>, V in_span<1, Unget, GetN + 2>, V in_span<1, Unget, GetN + 5>, V in_span<1, Avail, Bump>, V in_span<1, Avail, Get>, V in_span<1, Avail, Next>, V in_span<1, Avail, Unget>, V in_span<1, Avail, Avail>, V in_span<1, Avail, Back>, V in_span<1, Avail, Begin>, V in_span<1, Avail, Second>, V in_span<1, Avail, Ahead>, V in_span<1, Avail, GetN + 0>, V in_span<1, Avail, GetN + 1>, V in_span<1, Avail, GetN + 2>, V in_span<1, Avail, GetN + 5>, V in_span<1, Back, Bump>, V in_span<1, Back, Get>, V in_span<1, Back, Next>, V in_span<1, Back, Unget>, V in_span<1, Back, Avail>, V in_span<1, Back, Back>, V in_span<1, Back, Begin>, V in_span<1, Back, Second>, V in_span<1, Back, Ahead>, V in_span<1, Back, GetN + 0>, V in_span<1, Back, GetN + 1>, V in_span<1, Back, GetN + 2>, V in_span<1, Back, GetN + 5>, V in_span<1, Begin, Bump>, V in_span<1, Begin, Get>, V in_span<1, Begin, Next>, V in_span<1, Begin, Unget>, V in_span<1, Begin, Avail>, V in_span<1, Begin, Back>, V in_span<1, Begin, Begin>, V in_span<1, Begin, Second>, V in_span<1, Begin, Ahead>, V in_span<1, Begin, GetN + 0>, V in_span<1, Begin, GetN + 1>, V in_span<1, Begin, GetN + 2>, V in_span<1, Begin, GetN + 5>, V in_span<1, Second, Bump>, V in_span<1, Second, Get>, V in_span<1, Second, Next>, V in_span<1, Second, Unget>, V in_span<1, Second, Avail>, V in_span<1, Second, Back>, V in_span<1, Second, Begin>, V in_span<1, Second, Second>, V in_span<1, Second, Ahead>, V in_span<1, Second, GetN + 0>, V in_span<1, Second, GetN + 1>, V in_span<1, Second, GetN + 2>, V in_span<1, Second, GetN + 5>, V in_span<1, Ahead, Bump>, V in_span<1, Ahead, Get>, V in_span<1, Ahead, Next>, V in_span<1, Ahead, Unget>, V in_span<1, Ahead, Avail>, V in_span<1, Ahead, Back>, V in_span<1, Ahead, Begin>, V in_span<1, Ahead, Second>, V in_span<1, Ahead, Ahead>, V in_span<1, Ahead, GetN + 0>, V in_span<1, Ahead, GetN + 1>, V in_span<1, Ahead, GetN + 2>, V in_span<1, Ahead, GetN + 5>, V in_span<1, GetN + 0, Bump>, V in_span<1, GetN + 0, Get>, V in_span<1, GetN + 0, Next>, V in_span<1, GetN + 0, Unget>, V in_span<1, GetN + 0, Avail>, V in_span<1, GetN + 0, Back>, V in_span<1, GetN + 0, Begin>, V in_span<1, GetN + 0, Second>, V in_span<1, GetN + 0, Ahead>, V in_span<1, GetN + 0, GetN + 0>, V in_span<1, GetN + 0, GetN + 1>, V in_span<1, GetN + 0, GetN + 2>, V in_span<1, GetN + 0, GetN + 5>, V in_span<1, GetN + 1, Bump>, V in_span<1, GetN + 1, Get>, V in_span<1, GetN + 1, Next>, V in_span<1, GetN + 1, Unget>, V in_span<1, GetN + 1, Avail>, V in_span<1, GetN + 1, Back>, V in_span<1, GetN + 1, Begin>, V in_span<1, GetN + 1, Second>, V in_span<1, GetN + 1, Ahead>, V in_span<1, GetN + 1, GetN + 0>, V in_span<1, GetN + 1, GetN + 1>, V in_span<1, GetN + 1, GetN + 2>, V in_span<1, GetN + 1, GetN + 5>, V in_span<1, GetN + 2, Bump>, V in_span<1, GetN + 2, Get>, V in_span<1, GetN + 2, Next>, V in_span<1, GetN + 2, Unget>, V in_span<1, GetN + 2, Avail>, V in_span<1, GetN + 2, Back>, V in_span<1, GetN + 2, Begin>, V in_span<1, GetN + 2, Second>, V in_span<1, GetN + 2, Ahead>, V in_span<1, GetN + 2, GetN + 0>, V in_span<1, GetN + 2, GetN + 1>, V in_span<1, GetN + 2, GetN + 2>, V in_span<1, GetN + 2, GetN + 5>, V in_span<1, GetN + 5, Bump>, V in_span<1, GetN + 5, Get>, V in_span<1, GetN + 5, Next>, V in_span<1, GetN + 5, Unget>, V in_span<1, GetN + 5, Avail>, V in_span<1, GetN + 5, Back>, V in_span<1, GetN + 5, Begin>, V in_span<1, GetN + 5, Second>, V in_span<1, GetN + 5, Ahead>, V in_span<1, GetN + 5, GetN + 0>, V in_span<1, GetN + 5, GetN + 1>, V in_span<1, GetN + 5, GetN + 2>, V in_span<1, GetN + 5, GetN + 5>, V in_span<3, Bump, Bump>, V in_span<3, Bump, Get>, V in_span<3, Bump, Next>, V in_span<3, Bump, Unget>, V in_span<3, Bump, Avail>, V in_span<3, Bump, Back>, V in_span<3, Bump, Begin>, V in_span<3, Bump, Second>, V in_span<3, Bump, Ahead>, V in_span<3, Bump, GetN + 0>, V in_span<3, Bump, GetN + 1>, V in_span<3, Bump, GetN + 2>, V in_span<3, Bump, GetN + 5>, V in_span<3, Get, Bump>, V in_span<3, Get, Get>, V in_span<3, Get, Next>, V in_span<3, Get, Unget>, V in_span<3, Get, Avail>, V in_span<3, Get, Back>, V in_span<3, Get, Begin>, V in_span<3, Get, Second>, V in_span<3, Get, Ahead>, V in_span<3, Get, GetN + 0>, V in_span<3, Get, GetN + 1>, V in_span<3, Get, GetN + 2>, V in_span<3, Get, GetN + 5>, V in_span<3, Next, Bump>, V in_span<3, Next, Get>, V in_span<3, Next, Next>, V in_span<3, Next, Unget>, V in_span<3, Next, Avail>, V in_span<3, Next, Back>, V in_span<3, Next, Begin>, V in_span<3, Next, Second>, V in_span<3, Next, Ahead>, V in_span<3, Next, GetN + 0>, V in_span<3, Next, GetN + 1>, V in_span<3, Next, GetN + 2>, V in_span<3, Next, GetN + 5>, V in_span<3, Unget, Bump>, V in_span<3, Unget, Get>, V in_span<3, Unget, Next>, V in_span<3, Unget, Unget>, V in_span<3, Unget, Avail>, V in_span<3, Unget, Back>, V in_span<3, Unget, Begin>, V in_span<3, Unget, Second>, V in_span<3, Unget, Ahead>, V in_span<3, Unget, GetN + 0>, V in_span<3, Unget, GetN + 1>, V in_span<3, Unget, GetN + 2>, V in_span<3, Unget, GetN + 5>, V in_span<3, Avail, Bump>, V in_span<3, Avail, Get>, V in_span<3, Avail, Next>, V in_span<3, Avail, Unget>, V in_span<3, Avail, Avail>, V in_span<3, Avail, Back>, V in_span<3, Avail, Begin>, V in_span<3, Avail, Second>, V in_span<3, Avail, Ahead>, V in_span<3, Avail, GetN + 0>, V in_span<3, Avail, GetN + 1>, V in_span<3, Avail, GetN + 2>, V in_span<3, Avail, GetN + 5>, V in_span<3, Back, Bump>, V in_span<3, Back, Get>, V in_span<3, Back, Next>, V in_span<3, Back, Unget>, V in_span<3, Back, Avail>, V in_span<3, Back, Back>, V in_span<3, Back, Begin>, V in_span<3, Back, Second>, V in_span<3, Back, Ahead>, V in_span<3, Back, GetN + 0>, V in_span<3, Back, GetN + 1>, V in_span<3, Back, GetN + 2>, V in_span<3, Back, GetN + 5>, V in_span<3, Begin, Bump>, V in_span<3, Begin, Get>, V in_span<3, Begin, Next>, V in_span<3, Begin, Unget>, V in_span<3, Begin, Avail>, V in_span<3, Begin, Back>, V in_span<3, Begin, Begin>, V in_span<3, Begin, Second>, V in_span<3, Begin, Ahead>, V in_span<3, Begin, GetN + 0>, V in_span<3, Begin, GetN + 1>, V in_span<3, Begin, GetN + 2>, V in_span<3, Begin, GetN + 5>, V in_span<3, Second, Bump>, V in_span<3, Second, Get>, V in_span<3, Second, Next>, V in_span<3, Second, Unget>, V in_span<3, Second, Avail>, V in_span<3, Second, Back>, V in_span<3, Second, Begin>, V in_span<3, Second, Second>, V in_span<3, Second, Ahead>, V in_span<3, Second, GetN + 0>, V in_span<3, Second, GetN + 1>, V in_span<3, Second, GetN + 2>, V in_span<3, Second, GetN + 5>, V in_span<3, Ahead, Bump>, V in_span<3, Ahead, Get>, V in_span<3, Ahead, Next>, V in_span<3, Ahead, Unget>, V in_span<3, Ahead, Avail>, V in_span<3, Ahead, Back>, V in_span<3, Ahead, Begin>, V in_span<3, Ahead, Second>, V in_span<3, Ahead, Ahead>, V in_span<3, Ahead, GetN + 0>, V in_span<3, Ahead, GetN + 1>, V in_span<3, Ahead, GetN + 2>, V in_span<3, Ahead, GetN + 5>, V in_span<3, GetN + 0, Bump>, V in_span<3, GetN + 0, Get>, V in_span<3, GetN + 0, Next>, V in_span<3, GetN + 0, Unget>, V in_span<3, GetN + 0, Avail>, V in_span<3, GetN + 0, Back>, V in_span<3, GetN + 0, Begin>, V in_span<3, GetN + 0, Second>, V in_span<3, GetN + 0, Ahead>, V in_span<3, GetN + 0, GetN + 0>, V in_span<3, GetN + 0, GetN + 1>, V in_span<3, GetN + 0, GetN + 2>, V in_span<3, GetN + 0, GetN + 5>, V in_span<3, GetN + 1, Bump>, V in_span<3, GetN + 1, Get>, V in_span<3, GetN + 1, Next>, V in_span<3, GetN + 1, Unget>, V in_span<3, GetN + 1, Avail>, V in_span<3, GetN + 1, Back>, V in_span<3, GetN + 1, Begin>, V in_span<3, GetN + 1, Second>, V in_span<3, GetN + 1, Ahead>, V in_span<3, GetN + 1, GetN + 0>, V in_span<3, GetN + 1, GetN + 1>, V in_span<3, GetN + 1, GetN + 2>, V in_span<3, GetN + 1, GetN + 5>, V in_span<3, GetN + 2, Bump>, V in_span<3, GetN + 2, Get>, V in_span<3, GetN + 2, Next>, V in_span<3, GetN + 2, Unget>, V in_span<3, GetN + 2, Avail>, V in_span<3, GetN + 2, Back>, V in_span<3, GetN + 2, Begin>, V in_span<3, GetN + 2, Second>, V in_span<3, GetN + 2, Ahead>, V in_span<3, GetN + 2, GetN + 0>, V in_span<3, GetN + 2, GetN + 1>, V in_span<3, GetN + 2, GetN + 2>, V in_span<3, GetN + 2, GetN + 5>, V in_span<3, GetN + 5, Bump>, V in_span<3, GetN + 5, Get>, V in_span<3, GetN + 5, Next>, V in_span<3, GetN + 5, Unget>, V in_span<3, GetN + 5, Avail>, V in_span<3, GetN + 5, Back>, V in_span<3, GetN + 5, Begin>, V in_span<3, GetN + 5, Second>, V in_span<3, GetN + 5, Ahead>, V in_span<3, GetN + 5, GetN + 0>, V in_span<3, GetN + 5, GetN + 1>, V in_span<3, GetN + 5, GetN + 2>, V in_span<3, GetN + 5, GetN + 5>)
OBL_INSTANCES(q1, V in_span<1, Second, Avail, GetN + 1, Ahead, GetN + 1, Back>, V in_span<1, Next, Begin, Bump, Back, Second, Avail>, V in_span<1, GetN + 1, GetN + 5, Second, GetN + 2, GetN + 0, Unget>, V in_span<1, Ahead, Bump, GetN + 1, GetN + 0, Next, Second>, V in_span<1, Back, Next, Back, Unget, Bump, GetN + 0>, V in_span<1, Unget, Get, Ahead, GetN + 1, Back, GetN + 1>, V in_span<1, Begin, GetN + 5, Get, Bump, Bump, GetN + 1>, V in_span<1, Ahead, Unget, Get, Begin, Second, Get>, V in_span<1, GetN + 1, Begin, Next, Ahead, Back, GetN + 0>, V in_span<1, Ahead, Next, GetN + 2, Bump, Ahead, Next>, V in_span<1, Ahead, Get, Begin, GetN + 0, Begin, GetN + 1>, V in_span<1, GetN + 0, Second, Second, GetN + 0, Begin, Ahead>, V in_span<1, Bump, GetN + 1, GetN + 2, Get, Unget, GetN + 5>, V in_span<1, GetN + 1, Avail, Back, Back, GetN + 2, Begin>, V in_span<1, GetN + 1, Avail, Get, Avail, Unget, Back>, V in_span<1, Back, Back, Ahead, GetN + 0, GetN + 5, GetN + 5>, V in_span<1, Ahead, Next, Bump, Begin, Begin, Bump>, V in_span<1, Ahead, Bump, Unget, GetN + 1, Begin, Bump>, V in_span<1, Begin, Unget, GetN + 5, GetN + 0, Get, GetN + 5>, V in_span<1, Ahead, Unget, Next, Get, GetN + 2, Avail>, V in_span<1, Bump, Begin, Avail, Second, Back, GetN + 0>, V in_span<1, GetN + 1, GetN + 2, Bump, Ahead, Second, Back>, V in_span<1, Unget, Back, Avail, Second, Second, GetN + 2>, V in_span<1, Second, Unget, Next, Second, Ahead, Back>, V in_span<1, Next, Unget, GetN + 5, GetN + 2, Unget, GetN + 0>, V in_span<1, Bump, Avail, GetN + 5, GetN + 5, Back, Next>, V in_span<1, Unget, GetN + 5, Bump, Ahead, Bump, Unget>, V in_span<1, GetN + 0, Get, Back, Ahead, Ahead, Next>, V in_span<1, Bump, Back, GetN + 5, GetN + 1, Avail, GetN + 1>, V in_span<1, Get, Unget, GetN + 5, Ahead, Ahead, Second>, V in_span<1, Second, GetN + 1, Back, Avail, GetN + 1, Second>, V in_span<1, GetN + 2, Next, Second, Avail, GetN + 0, Bump>, V in_span<1, Avail, Back, Ahead, GetN + 1, GetN + 2, Second>, V in_span<1, GetN + 2, GetN + 5, Unget, GetN + 2, Avail, Ahead>, V in_span<1, Avail, Bump, GetN + 1, Bump, GetN + 2, Bump>, V in_span<1, Next, Ahead, Avail, Begin, Next, Unget>, V in_span<1, Unget, Begin, Second, Bump, Ahead, GetN + 0>, V in_span<1, GetN + 0, GetN + 2, Avail, GetN + 5, Bump, Begin>, V in_span<1, Begin, GetN + 0, Get, Begin, GetN + 5, Unget>, V in_span<1, GetN + 0, Ahead, Back, Back, GetN + 1, GetN + 2>, V in_span<2, Begin, GetN + 0, Next, Bump, GetN + 2, GetN + 2>, V in_span<2, Next, Bump, GetN + 5, Bump, Get, Begin>, V in_span<2, Ahead, Unget, GetN + 5, Begin, GetN + 5, Get>, V in_span<2, GetN + 2, Back, Unget, Avail, Avail, GetN + 5>, V in_span<2, GetN + 2, GetN + 1, Ahead, Second, GetN + 0, GetN + 0>, V in_span<2, Get, Unget, Ahead, GetN + 0, GetN + 2, GetN + 1>, V in_span<2, Begin, GetN + 0, Unget, Get, Begin, Back>, V in_span<2, Back, Get, GetN + 1, Back, Next, GetN + 1>, V in_span<2, Get, GetN + 2, Avail, Avail, GetN + 2, Next>, V in_span<2, GetN + 5, GetN + 1, GetN + 1, GetN + 1, Begin, Back>, V in_span<2, Next, Bump, Unget, Second, GetN + 0, Second>, V in_span<2, Second, Next, Bump, GetN + 1, GetN + 0, Back>, V in_span<2, Second, Unget, Back, Get, Unget, Bump>, V in_span<2, Back, Back, Avail, Unget, GetN + 2, Begin>, V in_span<2, Avail, Unget, Ahead, Next, Ahead, GetN + 2>, V in_span<2, Back, Next, Ahead, Second, Begin, GetN + 0>, V in_span<2, Ahead, GetN + 2, Unget, Second, Second, GetN + 5>, V in_span<2, Bump, GetN + 5, Unget, Begin, Ahead, GetN + 2>, V in_span<2, GetN + 5, GetN + 5, Begin, Ahead, GetN + 1, Second>, V in_span<2, GetN + 1, Bump, Get, Ahead, GetN + 0, GetN + 1>, V in_span<2, Avail, Back, GetN + 5, GetN + 2, Bump, Back>, V in_span<2, GetN + 5, Second, Back, GetN + 1, Avail, Next>, V in_span<2, Next, Second, Unget, GetN + 5, Ahead, Next>, V in_span<2, Avail, Second, Bump, Begin, GetN + 5, Back>, V in_span<2, Avail, Begin, GetN + 1, GetN + 0, Avail, Begin>, V in_span<2, GetN + 5, GetN + 0, Back, Next, Next, Avail>, V in_span<2, GetN + 1, Bump, GetN + 1, GetN + 0, GetN + 5, GetN + 5>, V in_span<2, Begin, Begin, Begin, GetN + 0, GetN + 1, Avail>, V in_span<2, Back, Begin, GetN + 5, Begin, Second, Begin>, V in_span<2, Begin, GetN + 5, Next, Next, GetN + 5, Unget>, V in_span<2, Avail, Get, Avail, Ahead, Bump, GetN + 1>, V in_span<2, GetN + 2, GetN + 2, Back, GetN + 2, Avail, GetN + 5>, V in_span<2, Next, Avail, Unget, GetN + 2, Bump, Ahead>, V in_span<2, Avail, Bump, Bump, GetN + 5, Next, Unget>, V in_span<2, Next, Unget, GetN + 2, GetN + 5, Avail, Unget>, V in_span<2, Next, GetN + 5, Avail, Ahead, Bump, GetN + 0>, V in_span<2, Get, Back, GetN + 1, Second, Ahead, Unget>, V in_span<2, Second, Get, Ahead, Bump, GetN + 1, Next>, V in_span<2, GetN + 5, Begin, Ahead, Second, GetN + 1, Avail>, V in_span<2, Second, Back, GetN + 1, Begin, Begin, Ahead>, V in_span<3, Bump, GetN + 2, Avail, Bump, Next, Second>, V in_span<3, GetN + 5, Back, GetN + 2, Get, GetN + 1, GetN + 5>, V in_span<3, Begin, Ahead, Begin, GetN + 0, Back, GetN + 5>, V in_span<3, Get, Next, Back, Bump, Unget, Get>, V in_span<3, Begin, Get, GetN + 5, Bump, Bump, Unget>, V in_span<3, Bump, Get, GetN + 1, GetN + 1, GetN + 0, GetN + 0>, V in_span<3, GetN + 2, GetN + 1, GetN + 2, Bump, GetN + 0, Unget>, V in_span<3, GetN + 0, GetN + 5, Second, GetN + 1, Unget, Second>, V in_span<3, GetN + 5, Back, Begin, GetN + 1, Ahead, Back>, V in_span<3, GetN + 5, Unget, Begin, Get, GetN + 1, GetN + 0>, V in_span<3, Back, Bump, GetN + 5, GetN + 5, GetN + 1, Back>, V in_span<3, Next, Avail, Get, Second, GetN + 0, Next>, V in_span<3, GetN + 1, Avail, Bump, Unget, Unget, Get>, V in_span<3, Second, Begin, GetN + 2, Back, Begin, GetN + 5>, V in_span<3, Back, Back, GetN + 0, Begin, GetN + 5, GetN + 5>, V in_span<3, Second, Back, Unget, GetN + 0, GetN + 1, Ahead>, V in_span<3, GetN + 0, Back, Get, Unget, Back, Begin>, V in_span<3, Avail, GetN + 0, GetN + 0, Next, Ahead, GetN + 1>, V in_span<3, Second, GetN + 2, Avail, Avail, Back, Begin>, V in_span<3, Get, Get, GetN + 2, GetN + 0, GetN + 1, Second>, V in_span<3, Next, Back, Ahead, Next, GetN + 0, GetN + 0>, V in_span<3, GetN + 0, Avail, Begin, Back, Avail, Back>, V in_span<3, Back, Back, Ahead, GetN + 0, Second, Get>, V in_span<3, Next, GetN + 0, Begin, Unget, Back, GetN + 0>, V in_span<3, Back, GetN + 0, Back, Next, Avail, Back>, V in_span<3, Back, GetN + 1, GetN + 1, Begin, Bump, Ahead>, V in_span<3, Back, GetN + 1, Ahead, Get, GetN + 1, Ahead>, V in_span<3, Get, Avail, Next, GetN + 5, Second, Get>, V in_span<3, GetN + 1, Avail, Next, GetN + 5, Second, Unget>, V in_span<3, Avail, Get, GetN + 2, Unget, Unget, Unget>, V in_span<3, Avail, GetN + 1, Get, GetN + 1, Unget, GetN + 0>, V in_span<3, Next, Second, GetN + 2, Avail, Second, Next>, V in_span<3, Second, Begin, Second, Second, Begin, Back>, V in_span<3, Avail, GetN + 2, GetN + 5, Unget, Unget, GetN + 0>, V in_span<3, Ahead, GetN + 5, GetN + 2, Second, Ahead, GetN + 1>, V in_span<3, GetN + 1, GetN + 2, GetN + 0, GetN + 2, Back, Back>, V in_span<3, Begin, Avail, Next, Bump, Get, GetN + 1>, V in_span<3, GetN + 5, Avail, Begin, GetN + 1, Avail, Second>, V in_span<3, Next, GetN + 2, Ahead, Begin, GetN + 0, Back>, V in_span<3, Next, Avail, Begin, Begin, Bump, Next>, V in_span<4, Bump, Second, Get, Ahead, Avail, Unget>, V in_span<4, Next, Unget, Get, GetN + 5, Ahead, Begin>, V in_span<4, Ahead, Second, Avail, GetN + 0, Get, Unget>, V in_span<4, Next, Unget, Begin, Ahead, Avail, Ahead>, V in_span<4, Back, GetN + 5, Unget, Next, Unget, GetN + 5>, V in_span<4, Ahead, Get, GetN + 5, Unget, Avail, Bump>, V in_span<4, Ahead, Ahead, Second, Get, Second, GetN + 0>, V in_span<4, Ahead, Next, GetN + 0, GetN + 1, Bump, Begin>, V in_span<4, Avail, Bump, Second, Begin, Back, Begin>, V in_span<4, Get, Get, Ahead, Ahead, Second, Ahead>, V in_span<4, GetN + 5, GetN + 5, Ahead, Begin, Ahead, Bump>, V in_span<4, Ahead, Back, Begin, Next, Bump, Back>, V in_span<4, GetN + 5, Get, Ahead, GetN + 1, GetN + 0, Avail>, V in_span<4, Avail, Unget, Avail, Begin, Avail, GetN + 5>, V in_span<4, Ahead, GetN + 2, Begin, Ahead, Get, GetN + 5>, V in_span<4, GetN + 1, GetN + 1, Bump, Avail, GetN + 1, Back>, V in_span<4, GetN + 2, Avail, Back, Get, GetN + 1, Get>, V in_span<4, Bump, Get, GetN + 5, Next, Get, GetN + 0>, V in_span<4, Next, Next, GetN + 5, Ahead, Ahead, Next>, V in_span<4, Next, Ahead, Back, Unget, Begin, Bump>, V in_span<4, GetN + 1, Next, Avail, Second, GetN + 0, Second>, V in_span<4, GetN + 2, Back, GetN + 5, Next, Avail, GetN + 5>, V in_span<4, Bump, Avail, Begin, GetN + 5, GetN + 5, Begin>, V in_span<4, Unget, Next, Bump, GetN + 0, Back, Back>, V in_span<4, Avail, Get, GetN + 0, Second, Back, Begin>, V in_span<4, Back, Back, Bump, GetN + 0, Avail, Ahead>, V in_span<4, Ahead, GetN + 0, Ahead, Bump, Avail, GetN + 0>, V in_span<4, Ahead, Back, Next, Bump, Back, Unget>, V in_span<4, Ahead, GetN + 1, GetN + 5, GetN + 2, Unget, Get>, V in_span<4, Get, Get, GetN + 0, Next, GetN + 2, Begin>, V in_span<4, GetN + 1, Back, Avail, GetN + 5, Bump, Begin>, V in_span<4, Unget, Back, Back, Back, Bump, GetN + 1>, V in_span<4, Back, GetN + 1, GetN + 2, Second, Unget, Unget>, V in_span<4, GetN + 0, Get, Get, GetN + 1, Second, Second>, V in_span<4, GetN + 5, Next, Ahead, Unget, GetN + 1, Second>, V in_span<4, Ahead, GetN + 5, Begin, GetN + 2, Back, Unget>, V in_span<4, GetN + 1, Next, GetN + 0, GetN + 1, Next, Ahead>, V in_span<4, Second, GetN + 2, Second, Next, Get, Unget>, V in_span<4, GetN + 1, Begin, Unget, Next, Avail, GetN + 0>, V in_span<4, Get, Back, Second, GetN + 1, Second, Ahead>)
OBL_INSTANCES(q2, V in_span_anywhere<0>, V in_span_anywhere<1>, V in_span_refuses<0>, V in_span_refuses<1>)
#endif
#if SHARD == 2
OBL_INSTANCES(q0, V in_const_span<2, Get, Begin, GetN + 1, Begin, Unget>, V in_const_span<2, Next, GetN + 0, GetN + 1, Next, GetN + 1>, V in_const_span<2, GetN + 0, Next, Get, Ahead, GetN + 2>, V in_const_span<2, Next, GetN + 2, Back, GetN + 1, GetN + 0>, V in_const_span<2, GetN + 1, Next, Bump, Unget, Second>, V in_const_span<2, GetN + 2, Second, GetN + 2, Next, Next>, V in_const_span<2, Get, Second, GetN + 0, GetN + 2, Ahead>, V in_const_span<2, Ahead, Unget, Next, Second, GetN + 5>, V in_const_span<2, Next, Avail, Ahead, Ahead, GetN + 0>, V in_const_span<2, Unget, Ahead, GetN + 1, Avail, Avail>, V in_const_span<2, Get, Begin, Next, Ahead, Avail>, V in_const_span<2, Ahead, GetN + 0, GetN + 1, Bump, Begin>, V in_const_span<2, GetN + 0, Bump, Second, Ahead, Next>, V in_const_span<2, Unget, GetN + 1, Begin, GetN + 5, Ahead>, V in_const_span<2, Next, GetN + 1, Bump, GetN + 1, Bump>, V in_const_span<2, Bump, Get, GetN + 2, Ahead, Next>, V in_const_span<2, Begin, Avail, Ahead, Unget, Get>, V in_const_span<2, Second, GetN + 1, GetN + 2, Ahead, Get>, V in_const_span<2, Ahead, Next, GetN + 5, Avail, Get>, V in_const_span<2, GetN + 5, Next, Begin, Bump, Back>, V in_const_span<2, Bump, Next, Get, Get, Bump>, V in_const_span<2, Avail, GetN + 5, Back, Avail, Avail>, V in_const_span<2, GetN + 2, Back, Get, GetN + 1, GetN + 0>, V in_const_span<2, Next, Second, GetN + 0, GetN + 5, GetN + 2>, V in_const_span<2, Get, GetN + 2, Begin, GetN + 5, Begin>, V in_const_span<2, Back, Avail, Back, Get, Get>, V in_const_span<2, Back, Avail, Unget, GetN + 2, Back>, V in_const_span<2, Avail, GetN + 5, GetN + 5, Second, Second>, V in_const_span<2, Back, Bump, Get, Get, Begin>, V in_const_span<2, Bump, Next, Unget, Second, Second>, V in_const_span<2, GetN + 1, Ahead, GetN + 5, Begin, GetN + 2>, V in_const_span<2, GetN + 5, GetN + 1, Begin, GetN + 2, Get>, V in_const_span<2, Get, Next, GetN + 0, Second, Next>, V in_const_span<2, GetN + 2, GetN + 2, Second, Avail, Ahead>, V in_const_span<2, Avail, GetN + 2, Unget, Bump, Bump>, V in_const_span<2, Unget, Back, Second, Begin, Ahead>, V in_const_span<2, Back, GetN + 5, GetN + 2, Next, Next>, V in_const_span<2, GetN + 5, Get, Begin, Next, Get>, V in_const_span<2, GetN + 0, Back, Begin, Bump, Back>, V in_const_span<2, Second, Avail, Back, Get, Avail>, V in_const_span<3, Back, Back, Bump, Get, Back>, V in_const_span<3, Begin, Unget, Avail, Unget, Bump>, V in_const_span<3, Begin, Next, Unget, GetN + 5, GetN + 2>, V in_const_span<3, GetN + 0, Bump, GetN + 2, Unget, Avail>, V in_const_span<3, Get, Bump, GetN + 5, GetN + 1, GetN + 1>, V in_const_span<3, GetN + 2, GetN + 2, Next, Bump, GetN + 5>, V in_const_span<3, Back, Ahead, Get, Back, Unget>, V in_const_span<3, Next, Begin, GetN + 0, Get, Get>, V in_const_span<3, Get, GetN + 5, Ahead, Back, Second>, V in_const_span<3, Next, Next, GetN + 1, Next, GetN + 2>, V in_const_span<3, Second, Back, Begin, Get, Next>, V in_const_span<3, GetN + 2, Next, Avail, Second, GetN + 5>, V in_const_span<3, Get, Bump, Bump, Second, Bump>, V in_const_span<3, Bump, Ahead, GetN + 2, Unget, GetN + 5>, V in_const_span<3, Back, GetN + 2, Bump, Avail, Next>, V in_const_span<3, Ahead, Begin, GetN + 1, Begin, Get>, V in_const_span<3, Back, Get, Bump, Second, GetN + 1>, V in_const_span<3, Get, Bump, Second, GetN + 1, Begin>, V in_const_span<3, GetN + 5, GetN + 0, Avail, GetN + 1, Ahead>, V in_const_span<3, Second, Second, Begin, GetN + 0, Unget>, V in_const_span<3, Ahead, Second, Begin, Next, GetN + 1>, V in_const_span<3, Unget, GetN + 0, Bump, Second, GetN + 5>, V in_const_span<3, Back, Next, GetN + 2, Unget, GetN + 5>, V in_const_span<3, Second, Avail, Ahead, GetN + 0, GetN + 2>, V in_const_span<3, GetN + 5, Get, Unget, Next, Next>, V in_const_span<3, GetN + 0, Bump, Next, Second, Ahead>, V in_const_span<3, GetN + 5, GetN + 1, Begin, Unget, GetN + 0>, V in_const_span<3, GetN + 2, Begin, GetN + 1, Begin, Next>, V in_const_span<3, Next, GetN + 1, Back, Ahead, Second>, V in_const_span<3, Back, GetN + 1, Next, Second, Next>, V in_const_span<3, Bump, Ahead, Get, Unget, GetN + 5>, V in_const_span<3, GetN + 0, Avail, GetN + 2, Begin, GetN + 0>, V in_const_span<3, Avail, Second, Back, GetN + 1, Second>, V in_const_span<3, Begin, GetN + 1, Get, GetN + 2, GetN + 0>, V in_const_span<3, Bump, Get, GetN + 1, GetN + 1, GetN + 2>, V in_const_span<3, Ahead, Get, Ahead, Ahead, Ahead>, V in_const_span<3, Bump, Next, GetN + 5, Unget, Ahead>, V in_const_span<3, Bump, Bump, Get, Begin, Begin>, V in_const_span<3, Second, GetN + 0, Bump, GetN + 0, Second>, V in_const_span<3, GetN + 5, Begin, Bump, Next, Back>)
OBL_INSTANCES(q1, V out_span<char, Put, Put>, V out_span<char, Put, Back>, V out_span<char, Put, Ahead>, V out_span<char, Put, Begin>, V out_span<char, Put, EndBack>, V out_span<char, Put, Tell>, V out_span<char, Put, PutN + 0>, V out_span<char, Put, PutN + 1>, V out_span<char, Put, PutN + 2>, V out_span<char, Put, PutN + 3>, V out_span<char, Put, PutN + 5>, V out_span<char, Back, Put>, V out_span<char, Back, Back>, V out_span<char, Back, Ahead>, V out_span<char, Back, Begin>, V out_span<char, Back, EndBack>, V out_span<char, Back, Tell>, V out_span<char, Back, PutN + 0>, V out_span<char, Back, PutN + 1>, V out_span<char, Back, PutN + 2>, V out_span<char, Back, PutN + 3>, V out_span<char, Back, PutN + 5>, V out_span<char, Ahead, Put>, V out_span<char, Ahead, Back>, V out_span<char, Ahead, Ahead>, V out_span<char, Ahead, Begin>, V out_span<char, Ahead, EndBack>, V out_span<char, Ahead, Tell>, V out_span<char, Ahead, PutN + 0>, V out_span<char, Ahead, PutN + 1>, V out_span<char, Ahead, PutN + 2>, V out_span<char, Ahead, PutN + 3>, V out_span<char, Ahead, PutN + 5>, V out_span<char, Begin, Put>, V out_span<char, Begin, Back>, V out_span<char, Begin, Ahead>, V out_span<char, Begin, Begin>, V out_span<char, Begin, EndBack>, V out_span<char, Begin, Tell>, V out_span<char, Begin, PutN + 0>, V out_span<char, Begin, PutN + 1>, V out_span<char, Begin, PutN + 2>, V out_span<char, Begin, PutN + 3>, V out_span<char, Begin, PutN + 5>, V out_span<char, EndBack, Put>, V out_span<char, EndBack, Back>, V out_span<char, EndBack, Ahead>, V out_span<char, EndBack, Begin>, V out_span<char, EndBack, EndBack>, V out_span<char, EndBack, Tell>, V out_span<char, EndBack, PutN + 0>, V out_span<char, EndBack, PutN + 1>, V out_span<char, EndBack, PutN + 2>, V out_span<char, EndBack, PutN + 3>, V out_span<char, EndBack, PutN + 5>, V out_span<char, Tell, Put>, V out_span<char, Tell, Back>, V out_span<char, Tell, Ahead>, V out_span<char, Tell, Begin>, V out_span<char, Tell, EndBack>, V out_span<char, Tell, Tell>, V out_span<char, Tell, PutN + 0>, V out_span<char, Tell, PutN + 1>, V out_span<char, Tell, PutN + 2>, V out_span<char, Tell, PutN + 3>, V out_span<char, Tell, PutN + 5>, V out_span<char, PutN + 0, Put>, V out_span<char, PutN + 0, Back>, V out_span<char, PutN + 0, Ahead>, V out_span<char, PutN + 0, Begin>, V out_span<char, PutN + 0, EndBack>, V out_span<char, PutN + 0, Tell>, V out_span<char, PutN + 0, PutN + 0>, V out_span<char, PutN + 0, PutN + 1>, V out_span<char, PutN + 0, PutN + 2>, V out_span<char, PutN + 0, PutN + 3>, V out_span<char, PutN + 0, PutN + 5>, V out_span<char, PutN + 1, Put>, V out_span<char, PutN + 1, Back>, V out_span<char, PutN + 1, Ahead>, V out_span<char, PutN + 1, Begin>, V out_span<char, PutN + 1, EndBack>, V out_span<char, PutN + 1, Tell>, V out_span<char, PutN + 1, PutN + 0>, V out_span<char, PutN + 1, PutN + 1>, V out_span<char, PutN + 1, PutN + 2>, V out_span<char, PutN + 1, PutN + 3>, V out_span<char, PutN + 1, PutN + 5>, V out_span<char, PutN + 2, Put>, V out_span<char, PutN + 2, Back>, V out_span<char, PutN + 2, Ahead>, V out_span<char, PutN + 2, Begin>, V out_span<char, PutN + 2, EndBack>, V out_span<char, PutN + 2, Tell>, V out_span<char, PutN + 2, PutN + 0>, V out_span<char, PutN + 2, PutN + 1>, V out_span<char, PutN + 2, PutN + 2>, V out_span<char, PutN + 2, PutN + 3>, V out_span<char, PutN + 2, PutN + 5>, V out_span<char, PutN + 3, Put>, V out_span<char, PutN + 3, Back>, V out_span<char, PutN + 3, Ahead>, V out_span<char, PutN + 3, Begin>, V out_span<char, PutN + 3, EndBack>, V out_span<char, PutN + 3, Tell>, V out_span<char, PutN + 3, PutN + 0>, V out_span<char, PutN + 3, PutN + 1>, V out_span<char, PutN + 3, PutN + 2>, V out_span<char, PutN + 3, PutN + 3>, V out_span<char, PutN + 3, PutN + 5>, V out_span<char, PutN + 5, Put>, V out_span<char, PutN + 5, Back>, V out_span<char, PutN + 5, Ahead>, V out_span<char, PutN + 5, Begin>, V out_span<char, PutN + 5, EndBack>, V out_span<char, PutN + 5, Tell>, V out_span<char, PutN + 5, PutN + 0>, V out_span<char, PutN + 5, PutN + 1>, V out_span<char, PutN + 5, PutN + 2>, V out_span<char, PutN + 5, PutN + 3>, V out_span<char, PutN + 5, PutN + 5>, V out_span<char, Put, Begin, PutN + 0, Back, EndBack>, V out_span<char, PutN + 5, PutN + 5, PutN + 2, EndBack, PutN + 0>, V out_span<char, PutN + 2, Begin, PutN + 5, PutN + 0, Begin>, V out_span<char, Tell, Begin, Back, Ahead, Begin>, V out_span<char, PutN + 1, PutN + 3, PutN + 1, Begin, Ahead>, V out_span<char, PutN + 5, Back, PutN + 2, Put, Back>, V out_span<char, PutN + 3, Ahead, PutN + 0, PutN + 0, Tell>, V out_span<char, Back, PutN + 2, PutN + 0, PutN + 3, PutN + 2>, V out_span<char, PutN + 1, PutN + 3, PutN + 5, PutN + 0, Put>, V out_span<char, PutN + 5, Begin, Ahead, EndBack, PutN + 1>, V out_span<char, PutN + 1, Back, PutN + 5, Tell, EndBack>, V out_span<char, Put, Begin, Begin, PutN + 2, PutN + 0>, V out_span<char, PutN + 3, PutN + 3, Ahead, Back, Put>, V out_span<char, PutN + 0, Put, PutN + 2, PutN + 5, EndBack>, V out_span<char, EndBack, Begin, Ahead, Put, Put>, V out_span<char, PutN + 3, PutN + 1, PutN + 3, PutN + 3, PutN + 1>, V out_span<char, Put, Tell, Back, PutN + 5, Put>, V out_span<char, Ahead, EndBack, PutN + 3, PutN + 3, PutN + 3>, V out_span<char, PutN + 1, Ahead, Ahead, PutN + 1, Tell>, V out_span<char, PutN + 3, PutN + 3, Put, Back, PutN + 1>, V out_span<char, Tell, Tell, PutN + 0, Begin, PutN + 3>, V out_span<char, PutN + 0, PutN + 5, Tell, Back, Begin>, V out_span<char, EndBack, PutN + 1, Ahead, PutN + 0, EndBack>, V out_span<char, PutN + 5, Ahead, Back, Begin, Back>, V out_span<char, Begin, Ahead, PutN + 3, PutN + 0, Back>, V out_span<char, EndBack, Back, PutN + 3, Back, EndBack>, V out_span<char, PutN + 0, PutN + 1, PutN + 2, PutN + 5, Ahead>, V out_span<char, PutN + 5, Begin, Tell, PutN + 0, Begin>, V out_span<char, PutN + 0, Ahead, PutN + 5, PutN + 5, Ahead>, V out_span<char, PutN + 2, PutN + 3, Begin, EndBack, EndBack>, V out_span<char, EndBack, PutN + 1, EndBack, PutN + 1, Ahead>, V out_span<char, EndBack, Ahead, PutN + 2, Begin, PutN + 2>, V out_span<char, Begin, Begin, PutN + 3, PutN + 3, Tell>, V out_span<char, Put, Put, PutN + 3, PutN + 3, PutN + 2>, V out_span<char, PutN + 5, Back, PutN + 1, PutN + 1, Ahead>, V out_span<char, Tell, PutN + 1, PutN + 3, PutN + 3, PutN + 5>, V out_span<char, Back, EndBack, PutN + 2, Ahead, PutN + 2>, V out_span<char, PutN + 0, PutN + 0, PutN + 0, PutN + 1, PutN + 3>, V out_span<char, Tell, Tell, Tell, PutN + 1, EndBack>, V out_span<char, PutN + 5, PutN + 3, Tell, PutN + 3, PutN + 2>, V out_span<char, Put, PutN + 1, Ahead, PutN + 3, PutN + 5>, V out_span<char, EndBack, PutN + 1, Put, Tell, PutN + 2>, V out_span<char, PutN + 2, Ahead, PutN + 0, PutN + 5, PutN + 2>, V out_span<char, Tell, Ahead, Ahead, PutN + 5, PutN + 3>, V out_span<char, Tell, Back, PutN + 2, PutN + 3, PutN + 0>, V out_span<char, Begin, Ahead, EndBack, PutN + 3, EndBack>, V out_span<char, PutN + 2, PutN + 0, Put, Back, Begin>, V out_span<char, PutN + 2, PutN + 0, PutN + 5, PutN + 1, EndBack>, V out_span<char, Back, Begin, PutN + 0, PutN + 1, EndBack>, V out_span<char, PutN + 1, Tell, PutN + 3, Begin, PutN + 2>, V out_span<char, Back, PutN + 3, PutN + 3, PutN + 5, Tell>, V out_span<char, PutN + 2, Back, Ahead, PutN + 1, Back>, V out_span<char, PutN + 0, PutN + 1, PutN + 2, Put, PutN + 2>, V out_span<char, Ahead, PutN + 1, PutN + 1, PutN + 0, PutN + 3>, V out_span<char, PutN + 5, PutN + 0, Begin, Begin, Begin>, V out_span<char, PutN + 2, PutN + 1, EndBack, PutN + 3, PutN + 5>, V out_span<char, PutN + 0, EndBack, PutN + 3, PutN + 5, PutN + 3>, V out_span<char, PutN + 2, Back, PutN + 0, PutN + 0, Tell>, V out_span<char, PutN + 5, Put, Begin, Back, Put>, V out_span<char, EndBack, Back, Ahead, PutN + 2, PutN + 5>, V out_span<char, Begin, PutN + 2, PutN + 5, Back, Put>, V out_span<char, PutN + 1, PutN + 3, Begin, PutN + 2, EndBack>, V out_span<char, PutN + 5, PutN + 5, PutN + 2, Put, EndBack>, V out_span<char, Put, PutN + 0, Tell, PutN + 3, Begin>, V out_span<char, PutN + 2, Put, Tell, PutN + 2, Tell>, V out_span<char, Put, PutN + 5, Put, Tell, PutN + 5>, V out_span<char, PutN + 0, PutN + 1, PutN + 1, Put, PutN + 3>, V out_span<char, PutN + 1, PutN + 0, PutN + 2, EndBack, PutN + 0>, V out_span<char, Ahead, Put, PutN + 2, PutN + 1, PutN + 2>, V out_span<char, PutN + 5, Tell, PutN + 0, PutN + 2, PutN + 0>, V out_span<char, PutN + 5, Ahead, Tell, PutN + 2, Tell>, V out_span<char, PutN + 3, PutN + 5, PutN + 2, PutN + 3, Ahead>, V out_span<char, PutN + 2, PutN + 3, Put, Tell, PutN + 2>, V out_span<char, Begin, Put, EndBack, PutN + 2, EndBack>, V out_span<char, Begin, Back, PutN + 3, EndBack, Ahead>, V out_span<char, Put, Tell, Put, PutN + 2, PutN + 3>, V out_span<char, Back, Ahead, EndBack, PutN + 0, Put>, V out_span<char, Back, PutN + 0, Tell, PutN + 5, PutN + 3>, V out_span<char, PutN + 3, PutN + 5, EndBack, Back, PutN + 2>, V out_span<char, Begin, EndBack, PutN + 3, PutN + 2, PutN + 1>)
OBL_INSTANCES(q2, V out_span<unsigned char, PutN + 5, PutN + 5, PutN + 2, Back>, V out_span<unsigned char, PutN + 2, PutN + 3, PutN + 0, Tell>, V out_span<unsigned char, PutN + 2, PutN + 3, Ahead, Tell>, V out_span<unsigned char, PutN + 0, Put, PutN + 1, PutN + 5>, V out_span<unsigned char, Put, PutN + 2, PutN + 5, PutN + 0>, V out_span<unsigned char, PutN + 2, EndBack, PutN + 3, Back>, V out_span<unsigned char, Put, Tell, PutN + 3, Back>, V out_span<unsigned char, PutN + 5, Tell, EndBack, EndBack>, V out_span<unsigned char, Put, EndBack, PutN + 5, Begin>, V out_span<unsigned char, PutN + 2, Tell, PutN + 2, EndBack>, V out_span<unsigned char, PutN + 0, Back, PutN + 0, PutN + 5>, V out_span<unsigned char, EndBack, PutN + 5, Tell, Back>, V out_span<unsigned char, EndBack, Back, PutN + 2, PutN + 2>, V out_span<unsigned char, PutN + 1, Back, Back, Put>, V out_span<unsigned char, Tell, PutN + 1, PutN + 5, Put>, V out_span<unsigned char, Back, PutN + 2, PutN + 1, Put>, V out_span<unsigned char, PutN + 2, Tell, PutN + 5, Begin>, V out_span<unsigned char, Tell, PutN + 3, Back, Ahead>, V out_span<unsigned char, PutN + 1, Ahead, PutN + 1, Tell>, V out_span<unsigned char, PutN + 1, PutN + 0, Tell, Ahead>, V out_span<unsigned char, PutN + 0, Put, PutN + 3, Ahead>, V out_span<unsigned char, PutN + 3, Back, Begin, Back>, V out_span<unsigned char, Tell, PutN + 0, Put, Back>, V out_span<unsigned char, EndBack, PutN + 1, PutN + 5, PutN + 1>, V out_span<unsigned char, Begin, Back, EndBack, PutN + 1>, V out_span<unsigned char, Tell, EndBack, PutN + 0, Put>, V out_span<unsigned char, Ahead, EndBack, Back, Begin>, V out_span<unsigned char, PutN + 2, PutN + 3, EndBack, PutN + 2>, V out_span<unsigned char, PutN + 5, EndBack, PutN + 5, Ahead>, V out_span<unsigned char, PutN + 3, Begin, PutN + 5, Tell>, V out_span<unsigned char, Begin, PutN + 3, Begin, Tell>, V out_span<unsigned char, Put, PutN + 0, PutN + 2, Back>, V out_span<unsigned char, Put, PutN + 5, Back, Ahead>, V out_span<unsigned char, PutN + 1, PutN + 2, PutN + 1, EndBack>, V out_span<unsigned char, PutN + 3, Tell, PutN + 1, PutN + 2>, V out_span<unsigned char, EndBack, Begin, PutN + 2, EndBack>, V out_span<unsigned char, Begin, Back, Back, PutN + 5>, V out_span<unsigned char, Begin, PutN + 2, Ahead, PutN + 2>, V out_span<unsigned char, Tell, Tell, Tell, PutN + 0>, V out_span<unsigned char, Put, PutN + 0, Ahead, PutN + 3>, V out_span<uint16_t, PutN + 3, Put, PutN + 1, Tell>, V out_span<uint16_t, Begin, PutN + 1, EndBack, PutN + 0>, V out_span<uint16_t, Ahead, Ahead, PutN + 3, PutN + 1>, V out_span<uint16_t, PutN + 1, Ahead, PutN + 5, PutN + 3>, V out_span<uint16_t, Ahead, Tell, EndBack, PutN + 5>, V out_span<uint16_t, Back, Back, Back, PutN + 2>, V out_span<uint16_t, EndBack, PutN + 3, PutN + 1, PutN + 2>, V out_span<uint16_t, Back, Tell, PutN + 5, Back>, V out_span<uint16_t, PutN + 2, Put, Ahead, Tell>, V out_span<uint16_t, Tell, EndBack, PutN + 3, EndBack>, V out_span<uint16_t, PutN + 3, PutN + 5, PutN + 3, Begin>, V out_span<uint16_t, Begin, Ahead, PutN + 0, EndBack>, V out_span<uint16_t, Back, Ahead, PutN + 3, PutN + 0>, V out_span<uint16_t, Ahead, PutN + 2, PutN + 3, Ahead>, V out_span<uint16_t, PutN + 2, PutN + 0, PutN + 1, PutN + 0>, V out_span<uint16_t, Ahead, PutN + 1, Ahead, Put>, V out_span<uint16_t, Tell, Put, PutN + 2, Ahead>, V out_span<uint16_t, Put, PutN + 5, Tell, Begin>, V out_span<uint16_t, EndBack, PutN + 0, PutN + 1, Ahead>, V out_span<uint16_t, EndBack, EndBack, PutN + 2, Back>, V out_span<uint16_t, PutN + 5, PutN + 3, EndBack, PutN + 5>, V out_span<uint16_t, Back, Put, EndBack, Ahead>, V out_span<uint16_t, Back, EndBack, PutN + 2, PutN + 3>, V out_span<uint16_t, PutN + 2, Back, PutN + 1, PutN + 0>, V out_span<uint16_t, EndBack, Ahead, EndBack, Back>, V out_span<uint16_t, PutN + 2, EndBack, EndBack, PutN + 2>, V out_span<uint16_t, Ahead, PutN + 1, Ahead, Put>, V out_span<uint16_t, Tell, Back, PutN + 5, Begin>, V out_span<uint16_t, PutN + 5, Begin, PutN + 1, Ahead>, V out_span<uint16_t, Tell, Ahead, PutN + 5, Put>, V out_span<uint16_t, PutN + 5, PutN + 1, PutN + 2, PutN + 3>, V out_span<uint16_t, EndBack, PutN + 3, Back, Begin>, V out_span<uint16_t, PutN + 0, Ahead, Back, Put>, V out_span<uint16_t, PutN + 2, Ahead, Begin, PutN + 1>, V out_span<uint16_t, Ahead, PutN + 5, Put, Back>, V out_span<uint16_t, PutN + 1, Begin, PutN + 1, PutN + 2>, V out_span<uint16_t, Ahead, PutN + 0, Back, Ahead>, V out_span<uint16_t, PutN + 5, Ahead, Tell, Tell>, V out_span<uint16_t, Begin, Put, PutN + 5, Back>, V out_span<uint16_t, PutN + 2, Ahead, Tell, Tell>, V out_span<uint32_t, PutN + 0, EndBack, Ahead, Ahead>, V out_span<uint32_t, PutN + 5, PutN + 5, Put, Begin>, V out_span<uint32_t, Begin, PutN + 1, Ahead, PutN + 5>, V out_span<uint32_t, EndBack, Back, Tell, PutN + 3>, V out_span<uint32_t, PutN + 5, Put, PutN + 2, PutN + 5>, V out_span<uint32_t, PutN + 5, PutN + 2, PutN + 2, Put>, V out_span<uint32_t, Tell, PutN + 2, PutN + 1, Back>, V out_span<uint32_t, PutN + 2, PutN + 0, Ahead, Back>, V out_span<uint32_t, EndBack, EndBack, Tell, PutN + 1>, V out_span<uint32_t, Back, EndBack, Ahead, Back>, V out_span<uint32_t, EndBack, PutN + 3, PutN + 5, PutN + 5>, V out_span<uint32_t, EndBack, PutN + 1, Ahead, Put>, V out_span<uint32_t, EndBack, Back, Ahead, PutN + 2>, V out_span<uint32_t, Back, PutN + 0, PutN + 1, PutN + 0>, V out_span<uint32_t, Ahead, Put, PutN + 3, Put>, V out_span<uint32_t, Begin, Begin, EndBack, PutN + 5>, V out_span<uint32_t, PutN + 0, PutN + 5, EndBack, PutN + 2>, V out_span<uint32_t, PutN + 0, EndBack, PutN + 3, PutN + 2>, V out_span<uint32_t, Put, Ahead, Put, PutN + 3>, V out_span<uint32_t, Put, PutN + 2, EndBack, PutN + 5>, V out_span<uint32_t, PutN + 3, PutN + 1, Back, Ahead>, V out_span<uint32_t, PutN + 2, Ahead, Back, PutN + 2>, V out_span<uint32_t, Tell, Tell, EndBack, Tell>, V out_span<uint32_t, PutN + 3, PutN + 5, PutN + 3, EndBack>, V out_span<uint32_t, PutN + 0, PutN + 0, Back, EndBack>, V out_span<uint32_t, Begin, PutN + 0, PutN + 5, EndBack>, V out_span<uint32_t, Tell, PutN + 3, PutN + 5, Begin>, V out_span<uint32_t, Tell, PutN + 2, PutN + 1, Ahead>, V out_span<uint32_t, PutN + 0, Put, Ahead, Back>, V out_span<uint32_t, PutN + 5, Ahead, PutN + 3, Ahead>, V out_span<uint32_t, Back, PutN + 3, PutN + 2, Put>, V out_span<uint32_t, PutN + 5, Put, PutN + 3, Put>, V out_span<uint32_t, PutN + 0, Tell, Back, Tell>, V out_span<uint32_t, Ahead, Begin, EndBack, PutN + 5>, V out_span<uint32_t, EndBack, Ahead, Back, Tell>, V out_span<uint32_t, Back, PutN + 3, EndBack, Ahead>, V out_span<uint32_t, EndBack, Begin, Ahead, Put>, V out_span<uint32_t, PutN + 1, PutN + 0, PutN + 1, Begin>, V out_span<uint32_t, PutN + 0, PutN + 3, PutN + 1, PutN + 3>, V out_span<uint32_t, EndBack, Put, Tell, Ahead>)
#endif
#if SHARD == 3
OBL_INSTANCES(q0, V layer1_buf<true, PutN + 2, Put, Put>, V layer1_buf<true, PutN + 2, Put, PutN + 3>, V layer1_buf<true, PutN + 2, Put, Bump>, V layer1_buf<true, PutN + 2, Put, Unget>, V layer1_buf<true, PutN + 2, Put, Begin>, V layer1_buf<true, PutN + 2, Put, GetN + 0>, V layer1_buf<true, PutN + 2, Put, GetN + 5>, V layer1_buf<true, PutN + 2, PutN + 1, PutN + 2>, V layer1_buf<true, PutN + 2, PutN + 1, EndBack>, V layer1_buf<true, PutN + 2, PutN + 1, Next>, V layer1_buf<true, PutN + 2, PutN + 1, Back>, V layer1_buf<true, PutN + 2, PutN + 1, Ahead>, V layer1_buf<true, PutN + 2, PutN + 1, GetN + 2>, V layer1_buf<true, PutN + 2, PutN + 2, PutN + 1>, V layer1_buf<true, PutN + 2, PutN + 2, Tell>, V layer1_buf<true, PutN + 2, PutN + 2, Get>, V layer1_buf<true, PutN + 2, PutN + 2, Avail>, V layer1_buf<true, PutN + 2, PutN + 2, Second>, V layer1_buf<true, PutN + 2, PutN + 2, GetN + 1>, V layer1_buf<true, PutN + 2, PutN + 3, Put>, V layer1_buf<true, PutN + 2, PutN + 3, Bump>, V layer1_buf<true, PutN + 2, PutN + 3, Unget>, V layer1_buf<true, PutN + 2, PutN + 3, Begin>, V layer1_buf<true, PutN + 2, PutN + 3, GetN + 0>, V layer1_buf<true, PutN + 2, PutN + 3, GetN + 5>, V layer1_buf<true, PutN + 2, Tell, PutN + 2>, V layer1_buf<true, PutN + 2, Tell, EndBack>, V layer1_buf<true, PutN + 2, Tell, Next>, V layer1_buf<true, PutN + 2, Tell, Back>, V layer1_buf<true, PutN + 2, Tell, Ahead>, V layer1_buf<true, PutN + 2, Tell, GetN + 2>, V layer1_buf<true, PutN + 2, EndBack, PutN + 1>, V layer1_buf<true, PutN + 2, EndBack, Tell>, V layer1_buf<true, PutN + 2, EndBack, Get>, V layer1_buf<true, PutN + 2, EndBack, Avail>, V layer1_buf<true, PutN + 2, EndBack, Second>, V layer1_buf<true, PutN + 2, EndBack, GetN + 1>, V layer1_buf<true, PutN + 2, Bump, Put>, V layer1_buf<true, PutN + 2, Bump, PutN + 3>, V layer1_buf<true, PutN + 2, Bump, Bump>, V layer1_buf<true, PutN + 2, Bump, Unget>, V layer1_buf<true, PutN + 2, Bump, Begin>, V layer1_buf<true, PutN + 2, Bump, GetN + 0>, V layer1_buf<true, PutN + 2, Bump, GetN + 5>, V layer1_buf<true, PutN + 2, Get, PutN + 2>, V layer1_buf<true, PutN + 2, Get, EndBack>, V layer1_buf<true, PutN + 2, Get, Next>, V layer1_buf<true, PutN + 2, Get, Back>, V layer1_buf<true, PutN + 2, Get, Ahead>, V layer1_buf<true, PutN + 2, Get, GetN + 2>, V layer1_buf<true, PutN + 2, Next, PutN + 1>, V layer1_buf<true, PutN + 2, Next, Tell>, V layer1_buf<true, PutN + 2, Next, Get>, V layer1_buf<true, PutN + 2, Next, Avail>, V layer1_buf<true, PutN + 2, Next, Second>, V layer1_buf<true, PutN + 2, Next, GetN + 1>, V layer1_buf<true, PutN + 2, Unget, Put>, V layer1_buf<true, PutN + 2, Unget, PutN + 3>, V layer1_buf<true, PutN + 2, Unget, Bump>, V layer1_buf<true, PutN + 2, Unget, Unget>, V layer1_buf<true, PutN + 2, Unget, Begin>, V layer1_buf<true, PutN + 2, Unget, GetN + 0>, V layer1_buf<true, PutN + 2, Unget, GetN + 5>, V layer1_buf<true, PutN + 2, Avail, PutN + 2>, V layer1_buf<true, PutN + 2, Avail, EndBack>, V layer1_buf<true, PutN + 2, Avail, Next>, V layer1_buf<true, PutN + 2, Avail, Back>, V layer1_buf<true, PutN + 2, Avail, Ahead>, V layer1_buf<true, PutN + 2, Avail, GetN + 2>, V layer1_buf<true, PutN + 2, Back, PutN + 1>, V layer1_buf<true, PutN + 2, Back, Tell>, V layer1_buf<true, PutN + 2, Back, Get>, V layer1_buf<true, PutN + 2, Back, Avail>, V layer1_buf<true, PutN + 2, Back, Second>, V layer1_buf<true, PutN + 2, Back, GetN + 1>, V layer1_buf<true, PutN + 2, Begin, Put>, V layer1_buf<true, PutN + 2, Begin, PutN + 3>, V layer1_buf<true, PutN + 2, Begin, Bump>, V layer1_buf<true, PutN + 2, Begin, Unget>, V layer1_buf<true, PutN + 2, Begin, Begin>, V layer1_buf<true, PutN + 2, Begin, GetN + 0>, V layer1_buf<true, PutN + 2, Begin, GetN + 5>, V layer1_buf<true, PutN + 2, Second, PutN + 2>, V layer1_buf<true, PutN + 2, Second, EndBack>, V layer1_buf<true, PutN + 2, Second, Next>, V layer1_buf<true, PutN + 2, Second, Back>, V layer1_buf<true, PutN + 2, Second, Ahead>, V layer1_buf<true, PutN + 2, Second, GetN + 2>, V layer1_buf<true, PutN + 2, Ahead, PutN + 1>, V layer1_buf<true, PutN + 2, Ahead, Tell>, V layer1_buf<true, PutN + 2, Ahead, Get>, V layer1_buf<true, PutN + 2, Ahead, Avail>, V layer1_buf<true, PutN + 2, Ahead, Second>, V layer1_buf<true, PutN + 2, Ahead, GetN + 1>, V layer1_buf<true, PutN + 2, GetN + 0, Put>, V layer1_buf<true, PutN + 2, GetN + 0, PutN + 3>, V layer1_buf<true, PutN + 2, GetN + 0, Bump>, V layer1_buf<true, PutN + 2, GetN + 0, Unget>, V layer1_buf<true, PutN + 2, GetN + 0, Begin>, V layer1_buf<true, PutN + 2, GetN + 0, GetN + 0>, V layer1_buf<true, PutN + 2, GetN + 0, GetN + 5>, V layer1_buf<true, PutN + 2, GetN + 1, PutN + 2>, V layer1_buf<true, PutN + 2, GetN + 1, EndBack>, V layer1_buf<true, PutN + 2, GetN + 1, Next>, V layer1_buf<true, PutN + 2, GetN + 1, Back>, V layer1_buf<true, PutN + 2, GetN + 1, Ahead>, V layer1_buf<true, PutN + 2, GetN + 1, GetN + 2>, V layer1_buf<true, PutN + 2, GetN + 2, PutN + 1>, V layer1_buf<true, PutN + 2, GetN + 2, Tell>, V layer1_buf<true, PutN + 2, GetN + 2, Get>, V layer1_buf<true, PutN + 2, GetN + 2, Avail>, V layer1_buf<true, PutN + 2, GetN + 2, Second>, V layer1_buf<true, PutN + 2, GetN + 2, GetN + 1>, V layer1_buf<true, PutN + 2, GetN + 5, Put>, V layer1_buf<true, PutN + 2, GetN + 5, PutN + 3>, V layer1_buf<true, PutN + 2, GetN + 5, Bump>, V layer1_buf<true, PutN + 2, GetN + 5, Unget>, V layer1_buf<true, PutN + 2, GetN + 5, Begin>, V layer1_buf<true, PutN + 2, GetN + 5, GetN + 0>, V layer1_buf<true, PutN + 2, GetN + 5, GetN + 5>, V layer1_buf<true, PutN + 2, Unget, Tell, PutN + 1, GetN + 5, Get>, V layer1_buf<true, PutN + 2, Avail, PutN + 2, PutN + 1, Bump, GetN + 1>, V layer1_buf<true, PutN + 2, Back, Avail, GetN + 0, EndBack, Get>, V layer1_buf<true, PutN + 2, Next, Get, Second, Next, Unget>, V layer1_buf<true, PutN + 2, Bump, Next, GetN + 1, Next, Second>, V layer1_buf<true, PutN + 2, Next, Avail, Next, EndBack, GetN + 1>, V layer1_buf<true, PutN + 2, PutN + 1, Ahead, Avail, Bump, Next>, V layer1_buf<true, PutN + 2, Begin, GetN + 2, Bump, GetN + 5, Next>, V layer1_buf<true, PutN + 2, PutN + 1, Second, Back, GetN + 5, Second>, V layer1_buf<true, PutN + 2, Next, GetN + 1, GetN + 2, Bump, Second>, V layer1_buf<true, PutN + 2, Get, Begin, GetN + 1, Avail, GetN + 0>, V layer1_buf<true, PutN + 2, PutN + 1, GetN + 2, Get, Second, PutN + 3>, V layer1_buf<true, PutN + 2, GetN + 1, PutN + 2, GetN + 0, PutN + 2, EndBack>, V layer1_buf<true, PutN + 2, Bump, Put, GetN + 1, Unget, Next>, V layer1_buf<true, PutN + 2, Avail, GetN + 2, PutN + 2, Put, Bump>, V layer1_buf<true, PutN + 2, Get, PutN + 1, GetN + 0, PutN + 3, Avail>, V layer1_buf<true, PutN + 2, Avail, GetN + 1, Back, Next, Ahead>, V layer1_buf<true, PutN + 2, Tell, Avail, Tell, Get, Begin>, V layer1_buf<true, PutN + 2, PutN + 2, PutN + 2, GetN + 5, Ahead, Back>, V layer1_buf<true, PutN + 2, Back, Get, EndBack, Get, Begin>, V layer1_buf<true, PutN + 2, GetN + 2, Put, Get, Back, Bump>, V layer1_buf<true, PutN + 2, Second, Ahead, GetN + 2, Begin, PutN + 3>, V layer1_buf<true, PutN + 2, Tell, Back, Get, Tell, Bump>, V layer1_buf<true, PutN + 2, Begin, GetN + 5, GetN + 5, EndBack, EndBack>, V layer1_buf<true, PutN + 2, Back, GetN + 2, Get, GetN + 2, PutN + 3>, V layer1_buf<true, PutN + 2, Tell, GetN + 0, Next, GetN + 0, PutN + 3>, V layer1_buf<true, PutN + 2, PutN + 1, Back, PutN + 3, Bump, GetN + 2>, V layer1_buf<true, PutN + 2, GetN + 1, Unget, PutN + 1, Bump, Bump>, V layer1_buf<true, PutN + 2, Bump, Next, PutN + 1, PutN + 1, EndBack>, V layer1_buf<true, PutN + 2, Back, Back, PutN + 1, GetN + 1, PutN + 2>, V layer1_buf<true, PutN + 2, GetN + 0, Ahead, GetN + 2, Next, GetN + 0>, V layer1_buf<true, PutN + 2, Next, GetN + 2, PutN + 3, Put, Second>, V layer1_buf<true, PutN + 2, EndBack, Second, Avail, Second, PutN + 2>, V layer1_buf<true, PutN + 2, Second, GetN + 2, GetN + 5, Second, GetN + 2>, V layer1_buf<true, PutN + 2, Ahead, Begin, PutN + 1, Unget, GetN + 5>, V layer1_buf<true, PutN + 2, GetN + 2, Get, GetN + 2, Next, PutN + 3>, V layer1_buf<true, PutN + 2, PutN + 3, Tell, GetN + 2, GetN + 5, Get>, V layer1_buf<true, PutN + 2, Begin, Back, PutN + 3, Get, Next>, V layer1_buf<true, PutN + 2, Back, Get, GetN + 0, Begin, Put>, V layer1_buf<true, PutN + 2, EndBack, PutN + 2, Tell, Second, Bump>, V layer1_buf<true, PutN + 2, Tell, GetN + 0, Second, EndBack, GetN + 5>, V layer1_buf<true, PutN + 2, Tell, Second, PutN + 2, Bump, Put>, V layer1_buf<true, PutN + 2, Bump, Put, Next, Tell, PutN + 2>, V layer1_buf<true, PutN + 2, Unget, Begin, Bump, GetN + 2, Tell>, V layer1_buf<true, PutN + 2, GetN + 0, GetN + 0, Begin, GetN + 0, EndBack>, V layer1_buf<true, PutN + 2, GetN + 2, Second, GetN + 5, EndBack, Get>, V layer1_buf<true, PutN + 2, Ahead, Next, GetN + 1, PutN + 1, PutN + 3>, V layer1_buf<true, PutN + 2, Avail, Tell, GetN + 1, EndBack, Begin>, V layer1_buf<true, PutN + 2, Avail, GetN + 1, Unget, GetN + 1, GetN + 0>, V layer1_buf<true, PutN + 2, GetN + 2, Unget, Back, Put, Avail>, V layer1_buf<true, PutN + 2, Ahead, PutN + 3, Avail, Get, Ahead>, V layer1_buf<true, PutN + 2, Get, GetN + 1, GetN + 1, PutN + 1, Tell>, V layer1_buf<true, PutN + 2, Unget, Bump, Avail, GetN + 2, GetN + 0>, V layer1_buf<false, PutN + 2, Put, Put>, V layer1_buf<false, PutN + 2, Put, PutN + 3>, V layer1_buf<false, PutN + 2, Put, Bump>, V layer1_buf<false, PutN + 2, Put, Unget>, V layer1_buf<false, PutN + 2, Put, Begin>, V layer1_buf<false, PutN + 2, Put, GetN + 0>, V layer1_buf<false, PutN + 2, Put, GetN + 5>, V layer1_buf<false, PutN + 2, PutN + 1, PutN + 2>, V layer1_buf<false, PutN + 2, PutN + 1, EndBack>, V layer1_buf<false, PutN + 2, PutN + 1, Next>, V layer1_buf<false, PutN + 2, PutN + 1, Back>, V layer1_buf<false, PutN + 2, PutN + 1, Ahead>, V layer1_buf<false, PutN + 2, PutN + 1, GetN + 2>, V layer1_buf<false, PutN + 2, PutN + 2, PutN + 1>, V layer1_buf<false, PutN + 2, PutN + 2, Tell>, V layer1_buf<false, PutN + 2, PutN + 2, Get>, V layer1_buf<false, PutN + 2, PutN + 2, Avail>, V layer1_buf<false, PutN + 2, PutN + 2, Second>, V layer1_buf<false, PutN + 2, PutN + 2, GetN + 1>, V layer1_buf<false, PutN + 2, PutN + 3, Put>, V layer1_buf<false, PutN + 2, PutN + 3, Bump>, V layer1_buf<false, PutN + 2, PutN + 3, Unget>, V layer1_buf<false, PutN + 2, PutN + 3, Begin>, V layer1_buf<false, PutN + 2, PutN + 3, GetN + 0>, V layer1_buf<false, PutN + 2, PutN + 3, GetN + 5>, V layer1_buf<false, PutN + 2, Tell, PutN + 2>, V layer1_buf<false, PutN + 2, Tell, EndBack>, V layer1_buf<false, PutN + 2, Tell, Next>, V layer1_buf<false, PutN + 2, Tell, Back>, V layer1_buf<false, PutN + 2, Tell, Ahead>, V layer1_buf<false, PutN + 2, Tell, GetN + 2>, V layer1_buf<false, PutN + 2, EndBack, PutN + 1>, V layer1_buf<false, PutN + 2, EndBack, Tell>, V layer1_buf<false, PutN + 2, EndBack, Get>, V layer1_buf<false, PutN + 2, EndBack, Avail>, V layer1_buf<false, PutN + 2, EndBack, Second>, V layer1_buf<false, PutN + 2, EndBack, GetN + 1>, V layer1_buf<false, PutN + 2, Bump, Put>, V layer1_buf<false, PutN + 2, Bump, PutN + 3>, V layer1_buf<false, PutN + 2, Bump, Bump>, V layer1_buf<false, PutN + 2, Bump, Unget>, V layer1_buf<false, PutN + 2, Bump, Begin>, V layer1_buf<false, PutN + 2, Bump, GetN + 0>, V layer1_buf<false, PutN + 2, Bump, GetN + 5>, V layer1_buf<false, PutN + 2, Get, PutN + 2>, V layer1_buf<false, PutN + 2, Get, EndBack>, V layer1_buf<false, PutN + 2, Get, Next>, V layer1_buf<false, PutN + 2, Get, Back>, V layer1_buf<false, PutN + 2, Get, Ahead>, V layer1_buf<false, PutN + 2, Get, GetN + 2>, V layer1_buf<false, PutN + 2, Next, PutN + 1>, V layer1_buf<false, PutN + 2, Next, Tell>, V layer1_buf<false, PutN + 2, Next, Get>, V layer1_buf<false, PutN + 2, Next, Avail>, V layer1_buf<false, PutN + 2, Next, Second>, V layer1_buf<false, PutN + 2, Next, GetN + 1>, V layer1_buf<false, PutN + 2, Unget, Put>, V layer1_buf<false, PutN + 2, Unget, PutN + 3>, V layer1_buf<false, PutN + 2, Unget, Bump>, V layer1_buf<false, PutN + 2, Unget, Unget>, V layer1_buf<false, PutN + 2, Unget, Begin>, V layer1_buf<false, PutN + 2, Unget, GetN + 0>, V layer1_buf<false, PutN + 2, Unget, GetN + 5>, V layer1_buf<false, PutN + 2, Avail, PutN + 2>, V layer1_buf<false, PutN + 2, Avail, EndBack>, V layer1_buf<false, PutN + 2, Avail, Next>, V layer1_buf<false, PutN + 2, Avail, Back>, V layer1_buf<false, PutN + 2, Avail, Ahead>, V layer1_buf<false, PutN + 2, Avail, GetN + 2>, V layer1_buf<false, PutN + 2, Back, PutN + 1>, V layer1_buf<false, PutN + 2, Back, Tell>, V layer1_buf<false, PutN + 2, Back, Get>, V layer1_buf<false, PutN + 2, Back, Avail>, V layer1_buf<false, PutN + 2, Back, Second>, V layer1_buf<false, PutN + 2, Back, GetN + 1>, V layer1_buf<false, PutN + 2, Begin, Put>, V layer1_buf<false, PutN + 2, Begin, PutN + 3>, V layer1_buf<false, PutN + 2, Begin, Bump>, V layer1_buf<false, PutN + 2, Begin, Unget>, V layer1_buf<false, PutN + 2, Begin, Begin>, V layer1_buf<false, PutN + 2, Begin, GetN + 0>, V layer1_buf<false, PutN + 2, Begin, GetN + 5>, V layer1_buf<false, PutN + 2, Second, PutN + 2>, V layer1_buf<false, PutN + 2, Second, EndBack>, V layer1_buf<false, PutN + 2, Second, Next>, V layer1_buf<false, PutN + 2, Second, Back>, V layer1_buf<false, PutN + 2, Second, Ahead>, V layer1_buf<false, PutN + 2, Second, GetN + 2>, V layer1_buf<false, PutN + 2, Ahead, PutN + 1>, V layer1_buf<false, PutN + 2, Ahead, Tell>, V layer1_buf<false, PutN + 2, Ahead, Get>, V layer1_buf<false, PutN + 2, Ahead, Avail>, V layer1_buf<false, PutN + 2, Ahead, Second>, V layer1_buf<false, PutN + 2, Ahead, GetN + 1>, V layer1_buf<false, PutN + 2, GetN + 0, Put>, V layer1_buf<false, PutN + 2, GetN + 0, PutN + 3>, V layer1_buf<false, PutN + 2, GetN + 0, Bump>, V layer1_buf<false, PutN + 2, GetN + 0, Unget>, V layer1_buf<false, PutN + 2, GetN + 0, Begin>, V layer1_buf<false, PutN + 2, GetN + 0, GetN + 0>, V layer1_buf<false, PutN + 2, GetN + 0, GetN + 5>, V layer1_buf<false, PutN + 2, GetN + 1, PutN + 2>, V layer1_buf<false, PutN + 2, GetN + 1, EndBack>, V layer1_buf<false, PutN + 2, GetN + 1, Next>, V layer1_buf<false, PutN + 2, GetN + 1, Back>, V layer1_buf<false, PutN + 2, GetN + 1, Ahead>, V layer1_buf<false, PutN + 2, GetN + 1, GetN + 2>, V layer1_buf<false, PutN + 2, GetN + 2, PutN + 1>, V layer1_buf<false, PutN + 2, GetN + 2, Tell>, V layer1_buf<false, PutN + 2, GetN + 2, Get>, V layer1_buf<false, PutN + 2, GetN + 2, Avail>, V layer1_buf<false, PutN + 2, GetN + 2, Second>, V layer1_buf<false, PutN + 2, GetN + 2, GetN + 1>, V layer1_buf<false, PutN + 2, GetN + 5, Put>, V layer1_buf<false, PutN + 2, GetN + 5, PutN + 3>, V layer1_buf<false, PutN + 2, GetN + 5, Bump>, V layer1_buf<false, PutN + 2, GetN + 5, Unget>, V layer1_buf<false, PutN + 2, GetN + 5, Begin>, V layer1_buf<false, PutN + 2, GetN + 5, GetN + 0>, V layer1_buf<false, PutN + 2, GetN + 5, GetN + 5>, V layer1_buf<false, PutN + 2, Next, Avail, Unget, GetN + 0, GetN + 0>, V layer1_buf<false, PutN + 2, Avail, Second, EndBack, Get, Get>, V layer1_buf<false, PutN + 2, Avail, Next, Put, Back, Second>, V layer1_buf<false, PutN + 2, Bump, Next, GetN + 1, Next, Get>, V layer1_buf<false, PutN + 2, Put, Tell, Unget, Ahead, GetN + 1>, V layer1_buf<false, PutN + 2, GetN + 2, PutN + 2, Ahead, Begin, Bump>, V layer1_buf<false, PutN + 2, GetN + 1, GetN + 5, PutN + 1, Unget, PutN + 1>, V layer1_buf<false, PutN + 2, Get, PutN + 3, Begin, EndBack, GetN + 0>, V layer1_buf<false, PutN + 2, Put, Ahead, Unget, GetN + 1, Unget>, V layer1_buf<false, PutN + 2, Second, GetN + 5, Second, Back, Put>, V layer1_buf<false, PutN + 2, GetN + 5, Put, GetN + 1, GetN + 2, Put>, V layer1_buf<false, PutN + 2, Tell, PutN + 1, Unget, GetN + 5, EndBack>, V layer1_buf<false, PutN + 2, Begin, GetN + 5, Get, PutN + 3, PutN + 1>, V layer1_buf<false, PutN + 2, PutN + 1, GetN + 0, GetN + 0, Next, PutN + 3>, V layer1_buf<false, PutN + 2, GetN + 0, Next, GetN + 2, GetN + 1, Back>, V layer1_buf<false, PutN + 2, Back, Begin, Back, Get, GetN + 0>, V layer1_buf<false, PutN + 2, GetN + 0, Tell, Second, Next, Tell>, V layer1_buf<false, PutN + 2, Begin, Next, PutN + 2, EndBack, PutN + 1>, V layer1_buf<false, PutN + 2, Bump, EndBack, GetN + 0, GetN + 0, Put>, V layer1_buf<false, PutN + 2, Unget, Bump, Avail, PutN + 2, Put>, V layer1_buf<false, PutN + 2, Unget, Put, Tell, Next, PutN + 2>, V layer1_buf<false, PutN + 2, GetN + 2, Bump, Put, PutN + 3, Next>, V layer1_buf<false, PutN + 2, Put, Avail, Bump, EndBack, PutN + 1>, V layer1_buf<false, PutN + 2, Tell, PutN + 2, Bump, Get, Put>, V layer1_buf<false, PutN + 2, EndBack, Avail, Back, PutN + 1, Bump>, V layer1_buf<false, PutN + 2, Next, Unget, Get, Bump, Second>, V layer1_buf<false, PutN + 2, PutN + 1, Next, GetN + 0, GetN + 5, Begin>, V layer1_buf<false, PutN + 2, Tell, Bump, GetN + 1, GetN + 1, Ahead>, V layer1_buf<false, PutN + 2, GetN + 5, Back, GetN + 5, GetN + 0, PutN + 2>, V layer1_buf<false, PutN + 2, EndBack, Next, GetN + 5, EndBack, PutN + 1>, V layer1_buf<false, PutN + 2, Next, Next, PutN + 2, Second, GetN + 5>, V layer1_buf<false, PutN + 2, Next, EndBack, GetN + 2, GetN + 2, Begin>, V layer1_buf<false, PutN + 2, GetN + 2, Bump, GetN + 5, Tell, Next>, V layer1_buf<false, PutN + 2, PutN + 2, Unget, Next, Bump, EndBack>, V layer1_buf<false, PutN + 2, PutN + 2, GetN + 5, GetN + 2, Avail, Ahead>, V layer1_buf<false, PutN + 2, Get, PutN + 1, PutN + 3, Second, Begin>, V layer1_buf<false, PutN + 2, Tell, GetN + 0, Begin, PutN + 2, Put>, V layer1_buf<false, PutN + 2, GetN + 1, Avail, Avail, Second, PutN + 1>, V layer1_buf<false, PutN + 2, Avail, Next, Second, PutN + 3, Begin>, V layer1_buf<false, PutN + 2, GetN + 1, Next, Get, PutN + 3, Next>, V layer1_buf<false, PutN + 2, Put, Get, Unget, Begin, GetN + 5>, V layer1_buf<false, PutN + 2, Tell, Get, Begin, Begin, EndBack>, V layer1_buf<false, PutN + 2, Avail, Get, GetN + 1, Unget, GetN + 1>, V layer1_buf<false, PutN + 2, GetN + 2, Second, Avail, PutN + 2, Avail>, V layer1_buf<false, PutN + 2, Begin, Unget, Unget, Tell, PutN + 3>, V layer1_buf<false, PutN + 2, GetN + 2, GetN + 1, GetN + 1, Get, PutN + 3>, V layer1_buf<false, PutN + 2, PutN + 2, Back, Bump, GetN + 2, Put>, V layer1_buf<false, PutN + 2, Tell, Next, Next, Ahead, Put>, V layer1_buf<false, PutN + 2, Ahead, Back, Tell, GetN + 1, PutN + 2>, V layer1_buf<false, PutN + 2, Bump, Unget, Avail, GetN + 1, Next>, V layer1_buf<false, PutN + 2, Bump, Second, Back, GetN + 1, Bump>, V layer1_buf<false, PutN + 2, PutN + 2, GetN + 5, Unget, Ahead, Avail>, V layer1_buf<false, PutN + 2, PutN + 1, GetN + 0, Avail, GetN + 5, Second>)
OBL_INSTANCES(q1, V layer2_buf<Back, Unget, GetN + 1, Bump, Tell>, V layer2_buf<PutN + 1, Back, Back, Back, Put>, V layer2_buf<Next, GetN + 5, Begin, GetN + 2, GetN + 5>, V layer2_buf<Unget, Unget, Unget, Back, PutN + 3>, V layer2_buf<Unget, Ahead, PutN + 2, Unget, GetN + 1>, V layer2_buf<EndBack, GetN + 5, GetN + 1, PutN + 3, PutN + 1>, V layer2_buf<Unget, Avail, GetN + 0, Second, Get>, V layer2_buf<Tell, Unget, GetN + 5, Avail, EndBack>, V layer2_buf<Get, Avail, EndBack, Next, Next>, V layer2_buf<GetN + 1, Get, Bump, Unget, GetN + 0>, V layer2_buf<Ahead, Get, PutN + 3, Get, PutN + 1>, V layer2_buf<Next, PutN + 2, Next, Avail, Second>, V layer2_buf<Unget, PutN + 2, Tell, EndBack, Back>, V layer2_buf<Put, Next, EndBack, Bump, EndBack>, V layer2_buf<Back, Bump, Begin, Begin, Put>, V layer2_buf<PutN + 3, Second, GetN + 5, PutN + 2, Bump>, V layer2_buf<Back, Back, GetN + 5, Back, GetN + 1>, V layer2_buf<Avail, Unget, EndBack, GetN + 1, PutN + 1>, V layer2_buf<Unget, GetN + 2, Next, Get, Ahead>, V layer2_buf<Put, Put, Second, Unget, GetN + 2>, V layer2_buf<Bump, EndBack, Back, Unget, GetN + 5>, V layer2_buf<PutN + 3, GetN + 1, PutN + 3, Avail, Next>, V layer2_buf<Second, Unget, PutN + 3, GetN + 1, Ahead>, V layer2_buf<Next, Next, Bump, Get, PutN + 3>, V layer2_buf<GetN + 1, Put, Bump, Avail, PutN + 2>, V layer2_buf<Tell, Ahead, PutN + 1, Tell, Second>, V layer2_buf<Begin, Tell, Back, GetN + 0, PutN + 1>, V layer2_buf<GetN + 2, Next, PutN + 3, GetN + 2, GetN + 5>, V layer2_buf<Unget, Next, Ahead, PutN + 1, PutN + 2>, V layer2_buf<Begin, Next, GetN + 1, Tell, PutN + 1>, V layer2_buf<Next, EndBack, Get, Get, Bump>, V layer2_buf<Bump, Unget, Ahead, Begin, Unget>, V layer2_buf<Ahead, Bump, PutN + 2, GetN + 0, Bump>, V layer2_buf<Tell, Tell, PutN + 1, PutN + 3, Begin>, V layer2_buf<Avail, Tell, Put, Avail, Put>, V layer2_buf<Bump, PutN + 3, GetN + 0, Avail, GetN + 5>, V layer2_buf<GetN + 5, PutN + 3, EndBack, Tell, Bump>, V layer2_buf<Bump, Get, Second, GetN + 5, Unget>, V layer2_buf<GetN + 5, Ahead, Second, Avail, Ahead>, V layer2_buf<Get, GetN + 5, EndBack, Back, Second>, V layer2_buf<Get, Get, Ahead, Unget, GetN + 1>, V layer2_buf<GetN + 5, PutN + 2, Bump, PutN + 2, Get>, V layer2_buf<Unget, PutN + 1, Bump, Unget, PutN + 2>, V layer2_buf<PutN + 2, Next, Avail, GetN + 0, GetN + 2>, V layer2_buf<Avail, GetN + 5, Put, Back, GetN + 0>, V layer2_buf<GetN + 2, Get, Get, Avail, Back>, V layer2_buf<Ahead, GetN + 5, Second, Begin, Avail>, V layer2_buf<Begin, GetN + 5, EndBack, Second, Get>, V layer2_buf<Unget, Back, EndBack, EndBack, Put>, V layer2_buf<Avail, Avail, GetN + 5, Get, PutN + 1>, V layer2_buf<Unget, Second, GetN + 1, PutN + 3, Get>, V layer2_buf<PutN + 2, EndBack, Bump, Ahead, PutN + 1>, V layer2_buf<Tell, Bump, Next, Second, Back>, V layer2_buf<Avail, PutN + 3, Avail, Bump, Avail>, V layer2_buf<Put, Get, Second, GetN + 0, Avail>, V layer2_buf<Put, Unget, Get, Avail, Unget>, V layer2_buf<GetN + 2, Avail, PutN + 3, Next, Second>, V layer2_buf<Tell, Begin, Bump, Unget, Bump>)
OBL_INSTANCES(q2, V layer3_buf<PutN + 1, Ahead, GetN + 5, Put, EndBack>, V layer3_buf<Ahead, Bump, PutN + 1, Ahead, PutN + 1>, V layer3_buf<Avail, Tell, Second, GetN + 5, Second>, V layer3_buf<PutN + 1, Second, Second, Get, Ahead>, V layer3_buf<GetN + 1, Ahead, Unget, Tell, Bump>, V layer3_buf<PutN + 3, Tell, Bump, Back, GetN + 1>, V layer3_buf<Tell, GetN + 0, PutN + 2, EndBack, Begin>, V layer3_buf<GetN + 0, Next, PutN + 1, Begin, GetN + 0>, V layer3_buf<Bump, Avail, GetN + 5, Second, Begin>, V layer3_buf<Bump, Next, Second, Avail, Put>, V layer3_buf<Next, Second, Next, GetN + 2, Ahead>, V layer3_buf<GetN + 5, GetN + 0, Bump, GetN + 1, EndBack>, V layer3_buf<Ahead, Put, PutN + 1, Put, GetN + 1>, V layer3_buf<Begin, PutN + 2, Second, Unget, EndBack>, V layer3_buf<Bump, Ahead, Begin, GetN + 2, Begin>, V layer3_buf<Begin, EndBack, Unget, Next, GetN + 1>, V layer3_buf<Begin, Get, EndBack, GetN + 2, PutN + 1>, V layer3_buf<Bump, PutN + 3, EndBack, GetN + 2, Ahead>, V layer3_buf<Second, PutN + 3, Bump, Begin, PutN + 3>, V layer3_buf<Avail, Ahead, Put, PutN + 1, GetN + 0>, V layer3_buf<Tell, Next, Ahead, Unget, PutN + 1>, V layer3_buf<Ahead, Unget, Second, PutN + 2, PutN + 1>, V layer3_buf<Back, EndBack, GetN + 1, GetN + 5, Back>, V layer3_buf<Unget, GetN + 0, PutN + 3, GetN + 2, Begin>, V layer3_buf<Second, PutN + 2, PutN + 2, PutN + 2, GetN + 5>, V layer3_buf<Tell, Put, EndBack, Avail, Unget>, V layer3_buf<Avail, Second, EndBack, Ahead, GetN + 2>, V layer3_buf<Get, Get, PutN + 2, Get, Ahead>, V layer3_buf<Begin, Tell, PutN + 2, Back, GetN + 5>, V layer3_buf<EndBack, Avail, GetN + 1, Begin, GetN + 1>, V layer3_buf<GetN + 5, Unget, Avail, Ahead, Second>, V layer3_buf<Unget, PutN + 2, Bump, PutN + 2, GetN + 1>, V layer3_buf<Second, GetN + 1, PutN + 1, Put, Avail>, V layer3_buf<EndBack, GetN + 0, EndBack, Begin, Put>, V layer3_buf<Avail, Begin, Next, EndBack, PutN + 3>, V layer3_buf<Tell, PutN + 3, Avail, Ahead, Get>, V layer3_buf<EndBack, GetN + 0, GetN + 1, EndBack, PutN + 2>, V layer3_buf<GetN + 5, GetN + 5, Tell, Avail, Next>, V layer3_buf<Begin, Next, Put, PutN + 3, Unget>, V layer3_buf<Put, GetN + 2, GetN + 2, PutN + 1, GetN + 0>, V layer3_buf<Second, GetN + 1, PutN + 3, GetN + 0, Second>, V layer3_buf<Unget, GetN + 0, Bump, Next, Next>, V layer3_buf<GetN + 0, PutN + 3, Avail, Second, PutN + 2>, V layer3_buf<Begin, EndBack, Unget, Begin, Begin>, V layer3_buf<Avail, Avail, Put, GetN + 1, PutN + 3>, V layer3_buf<Bump, GetN + 2, EndBack, Avail, Unget>, V layer3_buf<GetN + 2, GetN + 0, Put, Bump, Put>, V layer3_buf<PutN + 1, PutN + 2, Begin, EndBack, GetN + 0>, V layer3_buf<GetN + 0, Back, Ahead, GetN + 0, PutN + 3>, V layer3_buf<PutN + 2, Begin, PutN + 2, Next, GetN + 2>, V layer3_buf<Avail, GetN + 0, GetN + 1, PutN + 3, GetN + 5>, V layer3_buf<Begin, Back, Avail, GetN + 5, Put>, V layer3_buf<Put, PutN + 2, PutN + 3, Ahead, Tell>, V layer3_buf<Next, GetN + 0, GetN + 0, GetN + 0, GetN + 2>, V layer3_buf<Unget, Unget, Avail, GetN + 0, Back>, V layer3_buf<Get, PutN + 2, Ahead, Get, Begin>, V layer3_buf<Second, GetN + 2, GetN + 5, Next, Second>, V layer3_buf<Next, Avail, Back, Get, Avail>, V layer3_buf<Back, Avail, PutN + 3, Second, Ahead>)
#endif
