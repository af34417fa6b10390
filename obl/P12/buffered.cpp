// std: 17
// thorough: 20
// min: 600
// peel: 1
// rounds: 13
// shards: 4 5 6 7
// thorough-shards: 8 9
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// link: estd/ext/willemt/bipbuffer/bipbuffer.c estd/port/posix/streambuf.cpp
#include "cstr.h"
#include <estd/sstream.h>
#include <estd/streambuf.h>
#include <estd/span.h>
#include "obl.h"

typedef estd::ios_base ios;
namespace impl = estd::internal::impl;
using estd::detail::streambuf;
enum { Eof = -1 };
static inline int u(char c) { return (unsigned char)c; }

// ---- what is expected: a run of n characters (room for cap) and a reading position
struct M
{
    char c[24];
    int n = 0, cap = 24, pos = 0;
};
struct In { char c[12]; };

// operations
enum { Bump = 1, Get, Next, Unget, Avail, Back, Begin, Second, Ahead, EndBack, Sync, Tell,
       Put = 20, PutN = 30, GetN = 50 };

// a reading step on content m.c[0, n)
template <int op, class S> static inline void reading(S& s, M& m, char g)
{
    if constexpr(op == Bump)
    {
        const int r = s.sbumpc();
        OBL_REQUIRE(r == (m.pos < m.n ? u(m.c[m.pos]) : Eof));
        if(m.pos < m.n) m.pos++;
    }
    else if constexpr(op == Get) OBL_REQUIRE(s.sgetc() == (m.pos < m.n ? u(m.c[m.pos]) : Eof));
    else if constexpr(op == Next)
    {
        if(m.pos < m.n) m.pos++;
        OBL_REQUIRE(s.snextc() == (m.pos < m.n ? u(m.c[m.pos]) : Eof));
    }
    else if constexpr(op == Unget)
    {
        const int r = s.sungetc();
        if(m.pos > 0) { m.pos--; OBL_REQUIRE(r == u(m.c[m.pos])); }
        else OBL_REQUIRE(r == Eof);
    }
    else if constexpr(op == Avail) OBL_REQUIRE(s.in_avail() == (m.pos < m.n ? m.n - m.pos : -1));
    else if constexpr(op == Back || op == Ahead)
    {
        const int d = op == Back ? (m.pos > 0 ? -1 : 0) : (m.pos < m.n ? 1 : 0);
        m.pos += d;
        OBL_REQUIRE(s.pubseekoff(d, ios::cur, ios::in) == typename S::pos_type(m.pos));
    }
    else if constexpr(op == Begin) { m.pos = 0; OBL_REQUIRE(s.pubseekoff(0, ios::beg, ios::in) == typename S::pos_type(0)); }
    else if constexpr(op == Second) { if(m.n >= 2) { m.pos = 2; OBL_REQUIRE(s.pubseekoff(2, ios::beg) == typename S::pos_type(2)); } }
    else
    {
        constexpr int k = op - GetN;
        char b[k + 2];
        for(int i = 0; i < k + 2; i++) b[i] = g;
        const int left = m.n - m.pos, r = s.sgetn(b + 1, k);
        OBL_REQUIRE(r == (k < left ? k : left));
        for(int i = 0; i < k + 2; i++) OBL_REQUIRE(b[i] == (i >= 1 && i < 1 + r ? m.c[m.pos + i - 1] : g));
        m.pos += r;
    }
}

namespace oblt {

#if SHARD != 5
// buffered over a destination with room for cap
template <class S, int len> static inline void arrived(S& s, const M& m, const char* d, int n)
{
    OBL_REQUIRE(n >= 0 && n <= m.n && n <= m.cap && m.n - n <= len);
    for(int i = 0; i < n; i++) OBL_REQUIRE(d[i] == m.c[i]);
}
template <int op, int len, class S> static inline void buffering(S& s, M& m, In& in, bool& dry)
{
    if constexpr(op == Sync) { const int r = s.pubsync(); dry = true; (void)r; }
    else
    {
        constexpr int k = op == Put ? 1 : op - PutN;
        int r;
        if constexpr(op == Put)
        {
            r = s.sputc(in.c[0]);
            OBL_REQUIRE(r == Eof || m.n < m.cap + len);
            r = r == Eof ? 0 : 1;
        }
        else r = s.sputn(in.c, k);
        OBL_REQUIRE(r >= 0 && r <= k);
        // refused only what neither the buffer nor the destination has room for
        OBL_REQUIRE(r == k || m.n + r >= m.cap);
        for(int i = 0; i < r; i++) m.c[m.n++] = in.c[i];
        for(int i = 0; i + k < 12; i++) in.c[i] = in.c[i + k];
        dry = false;
    }
}
#define CHARS char c0, char c1, char c2, char c3, char c4, char c5
#define TAKE In in = {{c0, c1, c2, c3, c4, c5, c5, c4, c3, c2, c1, c0}}
template <template <class, unsigned> class B, int len, int cap, int... ops> void into_span(char g, CHARS)
{
    TAKE;
    M m;
    m.cap = cap;
    bool dry = true;
    struct { char g0; char b[cap + 1]; } a;
    a.g0 = g;
    for(int i = 0; i <= cap; i++) a.b[i] = g;
    struct { B<streambuf<impl::out_span_streambuf<char> >, len> s; char g1; } s = {B<streambuf<impl::out_span_streambuf<char> >, len>(estd::span<char>(a.b, cap)), g};
    (buffering<ops, len>(s.s, m, in, dry), ...);
    const int n = s.s.rdbuf().pos();
    arrived<decltype(s.s), len>(s.s, m, a.b, n);
    if(dry) OBL_REQUIRE(n == (m.n < cap ? m.n : cap));
    for(int i = n; i <= cap; i++) OBL_REQUIRE(a.b[i] == g);
    OBL_REQUIRE(a.g0 == g && s.g1 == g);
    OBL_END;
}
template <template <class, unsigned> class B, int len, int... ops> void into_string(char g, CHARS)
{
    TAKE;
    OBL_ASSUME(c0 && c1 && c2 && c3 && c4 && c5);
    M m;
    bool dry = true;
    estd::layer1::stringbuf<24, false> d;
    struct { B<estd::layer1::stringbuf<24, false>&, len> s; char g1; } s = {B<estd::layer1::stringbuf<24, false>&, len>(d), g};
    (buffering<ops, len>(s.s, m, in, dry), ...);
    const int n = d.str().size();
    char t[24];
    for(int i = 0; i < n; i++) t[i] = d.str()[i];
    arrived<decltype(s.s), len>(s.s, m, t, n);
    if(dry) OBL_REQUIRE(n == m.n);
    OBL_REQUIRE(s.s.pubsync() == 0 || n == m.n);
    OBL_REQUIRE(int(d.str().size()) == m.n);
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(d.str()[i] == m.c[i]);
    OBL_REQUIRE(s.g1 == g);
    OBL_END;
}
#endif

#if SHARD == 5
// a bipbuffer in front of a source
template <int len, int N, int... ops> void ahead(char g, char c0, char c1, char c2, char c3, char c4, char c5, char c6)
{
    char a[7] = {c0, c1, c2, c3, c4, c5, c6};
    M m = {{c0, c1, c2, c3, c4, c5, c6}, N};
    typedef streambuf<impl::in_span_streambuf<char> > Source;
    Source d(estd::span<char>(a, N));
    struct { estd::internal::in_bipbuf_streambuf<Source&, len> s; char g1; } s = {estd::internal::in_bipbuf_streambuf<Source&, len>(d), g};
    ([&] { if constexpr(ops == Sync) s.s.pubsync(); else reading<ops>(s.s, m, g); }(), ...);
    OBL_REQUIRE(s.s.in_avail() <= len && s.s.in_avail() <= m.n - m.pos);
    OBL_REQUIRE(s.g1 == g);
    OBL_END;
}
// through the virtual interface
template <int... ops> void virtually(char g, char c0, char c1, char c2, char c3, char c4, char c5)
{
    OBL_ASSUME(c0 && c1 && c2 && c3 && c4 && c5);
    In in = {{c0, c1, c2, c3, c4, c5}};
    M m;
    estd::layer1::stringbuf<8> d;
    estd::internal::basic_streambuf_wrapped<estd::layer1::stringbuf<8>&> w(d);
    estd::basic_streambuf<char>& s = w;
    ([&]
    {
        if constexpr(ops >= Put && ops < GetN)
        {
            constexpr int k = ops == Put ? 1 : ops - PutN;
            if(ops == Put) OBL_REQUIRE(s.sputc(in.c[0]) != Eof);
            else OBL_REQUIRE(s.sputn(in.c, k) == k);
            for(int i = 0; i < k; i++) m.c[m.n++] = in.c[i];
            for(int i = 0; i + k < 12; i++) in.c[i] = in.c[i + k];
        }
        else if constexpr(ops == Sync) OBL_REQUIRE(s.pubsync() == 0);
        else reading<ops>(s, m, g);
    }(), ...);
    OBL_REQUIRE(int(d.str().size()) == m.n);
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(d.str()[i] == m.c[i]);
    OBL_END;
}
// stdio (stand-ins below)
struct Fake { M* m; int back; };
template <int... ops> void posix(char g, char c0, char c1, char c2, char c3, char c4, char c5)
{
    In in = {{c0, c1, c2, c3, c4, c5}};
    M m = {{c0, c1, c2}, 3}, d = m;
    Fake f = {&d, Eof};
    estd::posix_streambuf<char> s(*reinterpret_cast<FILE*>(&f));
    ([&]
    {
        if constexpr(ops >= Put && ops < GetN)
        {
            constexpr int k = ops == Put ? 1 : ops - PutN;
            if(ops == Put) OBL_REQUIRE(s.sputc(in.c[3]) == u(in.c[3]));
            else OBL_REQUIRE(s.sputn(in.c + 3, k) == k);
            for(int i = 0; i < k; i++) m.c[m.n++] = in.c[3 + i];
        }
        else reading<ops>(s, m, g);
    }(), ...);
    OBL_REQUIRE(d.n == m.n && d.pos == m.pos);
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(d.c[i] == m.c[i]);
    OBL_END;
}
#endif
}
using namespace oblt;
#if SHARD == 5
static inline M& fake(FILE* f) { return *reinterpret_cast<Fake*>(f)->m; }
extern "C" int fgetc(FILE* f) { M& m = fake(f); return m.pos < m.n ? u(m.c[m.pos++]) : Eof; }
extern "C" int ungetc(int c, FILE* f) { if(c != Eof) fake(f).c[--fake(f).pos] = char(c); return c; }
extern "C" int fputc(int c, FILE* f) { M& m = fake(f); m.c[m.n++] = char(c); return u(char(c)); }
extern "C" size_t fread(void* p, size_t s, size_t n, FILE* f) { size_t i = 0; for(; i < n; i++) { int c = fgetc(f); if(c == Eof) break; static_cast<char*>(p)[i] = char(c); } return i; }
extern "C" size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { for(size_t i = 0; i < n; i++) fputc(static_cast<const char*>(p)[i], f); return n; }
#endif
#define V (void*)
#if SHARD == 4
OBL_INSTANCES(q, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, Put, PutN + 1, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, PutN + 3, Put, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, PutN + 3, Sync, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, PutN + 3, Sync, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, Put, Sync, Sync, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, PutN + 1, Put, Sync, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 3, PutN + 3, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, Put, PutN + 3, PutN + 1, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 1, Put, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, Put, Put, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 1, Put, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, PutN + 3, PutN + 1, PutN + 5, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, PutN + 1, Sync, Sync, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, Put, Put, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, PutN + 5, Put, PutN + 3, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, Put, PutN + 1, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, Sync, PutN + 1, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 3, Put, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, Sync, PutN + 5, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, Sync, PutN + 5, PutN + 3, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, PutN + 1, Put, Put, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, PutN + 3, PutN + 3, PutN + 3, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 1, Sync, Sync, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, Put, PutN + 5, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Put, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, Sync, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 1, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 3, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 0, PutN + 5, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 1, PutN + 1, PutN + 3, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, Sync, Put, Sync, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 5, PutN + 1, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 3, Sync, PutN + 5, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, Sync, Put, PutN + 5, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, Sync, PutN + 5, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, Put, PutN + 1, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, Sync, PutN + 1, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 3, PutN + 3, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 5, PutN + 1, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, PutN + 1, Put, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, Put, Put, PutN + 1, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 3, Sync, PutN + 1, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 1, PutN + 1, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 1, PutN + 5, Put, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 3, PutN + 3, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 1, PutN + 5, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, Sync, PutN + 5, Sync, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 3, PutN + 5, Sync, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 3, PutN + 3, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, PutN + 5, PutN + 1, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Put, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, Sync, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 1, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 3, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 5, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 5, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 5, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 5, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, PutN + 1, Sync, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 3, Sync, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, PutN + 1, PutN + 1, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Sync, PutN + 5, PutN + 1, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, Sync, PutN + 3, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Sync, PutN + 5, PutN + 3, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, PutN + 1, Sync, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Sync, PutN + 1, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Put, PutN + 5, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, Put, PutN + 1, PutN + 3, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, Put, PutN + 1, PutN + 1, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, PutN + 1, PutN + 1, PutN + 1, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, PutN + 1, Sync, PutN + 5, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 3, PutN + 1, Sync, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 5, PutN + 3, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Sync, PutN + 1, PutN + 5, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, Sync, Put, Sync, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, Sync, Sync, PutN + 1, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, Sync, Sync, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, Sync, PutN + 3, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 3, Sync, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, PutN + 1, Sync, Sync, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, Sync, PutN + 1, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 5, Sync, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Put, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, Sync, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 1, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 3, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, Put>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, Sync>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, PutN + 1>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 5, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, Sync, PutN + 3, PutN + 3, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 5, Sync, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 3, Put, Put, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 1, Put, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, PutN + 3, Sync, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, Put, Put, PutN + 1, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 3, Sync, Put, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, PutN + 3, Put, PutN + 1, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, Sync, Sync, PutN + 5, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 1, PutN + 5, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 3, Put, PutN + 5, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 1, Put, PutN + 3, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, Sync, PutN + 3, PutN + 5, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, Sync, PutN + 5, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 1, Put, PutN + 3, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, Sync, PutN + 3, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, Sync, PutN + 5, PutN + 1, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, PutN + 3, Sync, PutN + 5, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, Put, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 1, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 3, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 5, Put>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 5, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 5, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 1, PutN + 5, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, PutN + 5, Put, PutN + 1, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, Sync, Sync, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, Sync, PutN + 5, Put, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 1, PutN + 1, PutN + 3, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, PutN + 1, PutN + 1, PutN + 1, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 1, PutN + 5, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, Put, PutN + 3, PutN + 1, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 5, Sync, PutN + 1, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, Put, PutN + 3, PutN + 3, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 3, PutN + 3, Sync, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, Put, Sync, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, Put, Sync, PutN + 5, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 1, PutN + 1, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, PutN + 3, PutN + 1, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, PutN + 5, PutN + 3, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, Sync, PutN + 5, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 3, PutN + 1, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, Sync, PutN + 5, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, PutN + 3, Sync, PutN + 5, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, PutN + 3, PutN + 1, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, Put, Sync, Put, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, Put, PutN + 3, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, Put, PutN + 3, Put, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, PutN + 1, Sync, PutN + 1, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 3, PutN + 5, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, Put, PutN + 5, PutN + 1, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, Put, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 1, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 3, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, Put>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 5, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 1, PutN + 3, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, PutN + 3, Put, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, Put, PutN + 5, Put, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, PutN + 5, PutN + 1, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, PutN + 3, PutN + 1, PutN + 1, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 3, Put, Sync, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, Sync, Sync, Sync, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, Sync, Put, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 3, PutN + 1, PutN + 3, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, Sync, PutN + 1, PutN + 5, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 3, Put, PutN + 1, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, PutN + 1, Sync, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, Sync, PutN + 3, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 1, PutN + 1, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 3, PutN + 1, Sync, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 3, PutN + 3, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 3, PutN + 3, PutN + 1, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 5, PutN + 1, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, Sync, PutN + 5, Sync, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, PutN + 1, Sync, Sync, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, PutN + 1, PutN + 3, PutN + 3, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, Put, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, Sync, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 1, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 3, PutN + 5>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, Put>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, Sync>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, PutN + 1>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 4, PutN + 5, PutN + 5>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 9>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 12>, V into_span<estd::internal::out_buffered_stringbuf, 3, 2, PutN + 7, Sync, PutN + 3>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 9>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 12>, V into_span<estd::internal::out_buffered_stringbuf, 3, 5, PutN + 7, Sync, PutN + 3>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 9>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 12>, V into_string<estd::internal::out_buffered_stringbuf, 3, PutN + 7, Sync, PutN + 3>)
#endif
#if SHARD == 6
OBL_INSTANCES(q, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, PutN + 5, PutN + 1, PutN + 1, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, PutN + 1, PutN + 1, Put, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, Sync, PutN + 3, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, PutN + 3, PutN + 5, PutN + 1, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 3, Put, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Sync, Put, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, PutN + 1, Put, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, Put, PutN + 1, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, Sync, PutN + 1, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, Sync, Put, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, Put, Put, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, PutN + 1, PutN + 1, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, Sync, Sync, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 1, Put, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 1, PutN + 1, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, Sync, PutN + 3, PutN + 3, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, PutN + 5, Put, PutN + 3, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 1, PutN + 1, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 7, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, PutN + 1, PutN + 1, Sync, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, Put, PutN + 1, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, PutN + 3, PutN + 5, Put, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 3, Sync, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, Sync, PutN + 3, Sync, Sync>)
#endif
#if SHARD == 7
OBL_INSTANCES(q, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 7, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 1, Put, PutN + 3, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, PutN + 1, Put, Put, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, Put, PutN + 5, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, PutN + 3, Sync, Sync, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, PutN + 5, PutN + 1, PutN + 1, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, PutN + 1, PutN + 3, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, Sync, PutN + 1, PutN + 1, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 5, Put, PutN + 1, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, Sync, Sync, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, PutN + 5, Sync, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 3, PutN + 1, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, Sync, PutN + 3, Sync, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 9>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 1, Sync, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 5, PutN + 5, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, PutN + 5, Sync, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, PutN + 5, Sync, Sync, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, PutN + 3, Put, PutN + 3, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 1, Put, PutN + 3, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, Put, PutN + 1, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, PutN + 3, Sync, PutN + 3, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, PutN + 5, Sync, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, PutN + 3, Put, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 1, PutN + 1, PutN + 1, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 12>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, Sync, Put, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, Sync, PutN + 3, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, Put, Sync, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, Put, PutN + 3, Sync, Sync>)
#endif
#if SHARD == 8
OBL_INSTANCES(q, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, PutN + 3, PutN + 1, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, PutN + 3, Put, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, Put, PutN + 1, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Sync, PutN + 5, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, PutN + 5, PutN + 3, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, PutN + 3, PutN + 1, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, PutN + 3, PutN + 1, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, Put, Sync, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, PutN + 5, PutN + 1, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, Sync, PutN + 5, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, Sync, PutN + 3, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 1, Put, Put, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, Put, Sync, PutN + 3, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, Put, Put, Put, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, PutN + 3, PutN + 3, PutN + 3, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, Sync, Sync, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 5, Put, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, Sync, PutN + 3, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, Put, PutN + 1, PutN + 5, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Sync, Put, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, Put, Put, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, PutN + 1, PutN + 3, PutN + 5, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, Sync, Sync, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, PutN + 3, Put, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, Put, Put, Sync, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Sync, Sync, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, Sync, Sync, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, PutN + 5, PutN + 5, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, PutN + 1, PutN + 1, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 1, Put, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 5, PutN + 1, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, PutN + 5, Put, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, Put, PutN + 5, PutN + 1, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 9>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, PutN + 5, PutN + 3, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, Sync, Sync, PutN + 1, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, Sync, Put, PutN + 5, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, Sync, PutN + 1, PutN + 3, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, PutN + 3, PutN + 1, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 1, PutN + 1, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, Sync, PutN + 3, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, Sync, PutN + 1, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, Put, PutN + 3, PutN + 3, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, Put, Put, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, Put>)
#endif
#if SHARD == 9
OBL_INSTANCES(q, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Put, Sync, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 5, Sync, Put, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, Sync, PutN + 1, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, PutN + 1, Sync, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 12>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, PutN + 1, Sync, PutN + 1, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, Sync, Sync, PutN + 5, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, Put, PutN + 5, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, PutN + 3, PutN + 1, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, Put, PutN + 5, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 5, Put, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 1, Sync, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 3, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 5, Put, PutN + 1, PutN + 3, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 3, Sync, PutN + 3, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 7, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Put, Sync, Sync, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 12>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, Put, PutN + 3, Sync, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, Put, PutN + 3, Put, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Put, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, Sync, Sync, Put, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Put, PutN + 3, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, Sync, Put, PutN + 1, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, PutN + 1, PutN + 1, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Put, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Sync, Sync, Sync, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, Put, Sync, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Sync, Sync, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, Put, Sync, PutN + 3, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Put, PutN + 5, Sync, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, PutN + 5, Put, Sync, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, PutN + 3, Sync, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 1, Sync, PutN + 3, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, PutN + 1, Put, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 1, Sync, Sync, PutN + 5, Sync, PutN + 5>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 3, PutN + 1, PutN + 1, PutN + 1, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 3, PutN + 3, PutN + 1, PutN + 5, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, PutN + 1, Put, Put, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 3, PutN + 3, Sync, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 5, Sync, PutN + 1, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, Put, Sync, Put, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Put, PutN + 5, Sync, PutN + 5, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, Sync, PutN + 3, PutN + 5, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 3, PutN + 5, Put, Put, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 5, Sync, PutN + 3, PutN + 1, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 3, PutN + 5, Put, Sync, Sync>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, PutN + 9>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 3, Sync, PutN + 3, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, Put>, V into_string<estd::internal::out_bipbuf_streambuf, 4, PutN + 3, Sync, Sync, PutN + 3, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 5, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, PutN + 1, PutN + 1, PutN + 1, Put, Put>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 2, Sync, PutN + 1>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, Put, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, Sync>, V into_string<estd::internal::out_bipbuf_streambuf, 3, PutN + 5, PutN + 5>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 0, PutN + 1, Put, PutN + 3, PutN + 3, PutN + 1>, V into_string<estd::internal::out_bipbuf_streambuf, 4, Sync, PutN + 3>, V into_string<estd::internal::out_bipbuf_streambuf, 1, PutN + 1, PutN + 3>, V into_span<estd::internal::out_bipbuf_streambuf, 3, 5, Sync, PutN + 5>)
#endif
#if SHARD == 5
OBL_INSTANCES(q0, V ahead<2, 0, GetN + 0, GetN + 1, Get, GetN + 3>, V ahead<2, 0, Next, Get, GetN + 0, GetN + 3>, V ahead<2, 0, Next, GetN + 1, Get, GetN + 1>, V ahead<2, 0, GetN + 3, GetN + 0, Get, Sync>, V ahead<2, 0, Get, Sync, GetN + 5, GetN + 1>, V ahead<2, 0, Next, GetN + 5, GetN + 1, GetN + 3>, V ahead<2, 0, Get, Get, Sync, GetN + 0>, V ahead<2, 0, GetN + 1, Bump, Bump, Sync>, V ahead<2, 0, GetN + 0, GetN + 5, GetN + 1, Sync>, V ahead<2, 0, GetN + 0, Sync, GetN + 0, Bump>, V ahead<2, 0, Bump, GetN + 1, GetN + 0, Bump>, V ahead<2, 0, GetN + 3, GetN + 1, GetN + 0, Sync>, V ahead<2, 0, GetN + 3, GetN + 5, GetN + 1, Get>, V ahead<2, 0, Get, Sync, GetN + 1, Next>, V ahead<2, 0, GetN + 3, Sync, GetN + 3, Bump>, V ahead<2, 0, Bump, GetN + 5, Get, GetN + 5>, V ahead<2, 0, Sync, GetN + 5, Sync, GetN + 3>, V ahead<2, 0, GetN + 0, GetN + 3, Sync, Next>, V ahead<2, 0, Next, Bump, GetN + 0, Next>, V ahead<2, 0, GetN + 0, GetN + 0, Get, GetN + 3>, V ahead<2, 1, Get, Next, Bump, Get>, V ahead<2, 1, GetN + 0, Bump, GetN + 1, Next>, V ahead<2, 1, Bump, GetN + 0, Sync, Get>, V ahead<2, 1, GetN + 5, Sync, GetN + 1, Sync>, V ahead<2, 1, Get, GetN + 1, Next, GetN + 1>, V ahead<2, 1, Bump, GetN + 3, GetN + 1, GetN + 5>, V ahead<2, 1, GetN + 5, Next, Sync, Bump>, V ahead<2, 1, GetN + 1, Next, GetN + 3, GetN + 1>, V ahead<2, 1, Sync, Sync, Sync, GetN + 1>, V ahead<2, 1, Next, Sync, GetN + 5, GetN + 5>, V ahead<2, 1, GetN + 1, Next, GetN + 3, Bump>, V ahead<2, 1, GetN + 5, GetN + 3, GetN + 0, GetN + 0>, V ahead<2, 1, Get, GetN + 3, GetN + 1, Bump>, V ahead<2, 1, GetN + 5, GetN + 3, Bump, Sync>, V ahead<2, 1, GetN + 5, Bump, Bump, GetN + 1>, V ahead<2, 1, Next, Next, GetN + 1, Sync>, V ahead<2, 1, Sync, Next, GetN + 0, GetN + 3>, V ahead<2, 1, GetN + 1, GetN + 0, Sync, Next>, V ahead<2, 1, Sync, Get, GetN + 5, GetN + 5>, V ahead<2, 1, GetN + 1, GetN + 0, Next, Next>, V ahead<2, 3, GetN + 3, GetN + 5, GetN + 3, GetN + 1>, V ahead<2, 3, Get, Bump, GetN + 3, GetN + 1>, V ahead<2, 3, Get, GetN + 1, GetN + 1, Get>, V ahead<2, 3, GetN + 3, Bump, GetN + 0, Bump>, V ahead<2, 3, Next, Bump, Bump, Get>, V ahead<2, 3, GetN + 0, GetN + 3, GetN + 3, GetN + 1>, V ahead<2, 3, GetN + 0, GetN + 5, Bump, Next>, V ahead<2, 3, GetN + 0, Get, Get, Get>, V ahead<2, 3, GetN + 5, GetN + 1, Next, Next>, V ahead<2, 3, Sync, Bump, GetN + 0, Bump>, V ahead<2, 3, GetN + 3, Bump, Bump, GetN + 0>, V ahead<2, 3, GetN + 3, GetN + 5, GetN + 3, Get>, V ahead<2, 3, GetN + 3, GetN + 3, Sync, Next>, V ahead<2, 3, GetN + 0, Get, GetN + 5, GetN + 3>, V ahead<2, 3, GetN + 5, Sync, GetN + 0, GetN + 0>, V ahead<2, 3, Sync, GetN + 1, GetN + 1, GetN + 0>, V ahead<2, 3, Get, Sync, Next, GetN + 5>, V ahead<2, 3, Sync, GetN + 3, GetN + 1, Sync>, V ahead<2, 3, Bump, GetN + 1, Bump, GetN + 3>, V ahead<2, 3, Next, Next, GetN + 0, Next>, V ahead<2, 7, Sync, Sync, Bump, Get>, V ahead<2, 7, GetN + 5, GetN + 1, GetN + 1, Sync>, V ahead<2, 7, Bump, GetN + 3, Sync, Sync>, V ahead<2, 7, Next, GetN + 0, Sync, GetN + 5>, V ahead<2, 7, Get, Get, GetN + 3, Bump>, V ahead<2, 7, Get, GetN + 3, GetN + 0, GetN + 1>, V ahead<2, 7, Bump, GetN + 5, Next, Get>, V ahead<2, 7, GetN + 5, Get, Get, Bump>, V ahead<2, 7, GetN + 0, GetN + 0, Bump, GetN + 1>, V ahead<2, 7, Next, Get, GetN + 1, Next>, V ahead<2, 7, GetN + 1, Next, GetN + 5, GetN + 3>, V ahead<2, 7, Get, GetN + 5, Get, Next>, V ahead<2, 7, Next, GetN + 1, GetN + 0, Sync>, V ahead<2, 7, Next, GetN + 5, GetN + 0, Next>, V ahead<2, 7, Next, GetN + 5, Sync, GetN + 1>, V ahead<2, 7, Bump, GetN + 5, Bump, Sync>, V ahead<2, 7, Get, Next, Sync, GetN + 0>, V ahead<2, 7, Sync, GetN + 5, GetN + 3, Get>, V ahead<2, 7, Next, GetN + 5, GetN + 1, Bump>, V ahead<2, 7, GetN + 5, Next, GetN + 5, Get>, V ahead<4, 0, Sync, GetN + 5, GetN + 1, Next>, V ahead<4, 0, GetN + 1, Next, GetN + 5, Bump>, V ahead<4, 0, GetN + 1, GetN + 0, Sync, GetN + 3>, V ahead<4, 0, GetN + 1, Bump, GetN + 3, GetN + 1>, V ahead<4, 0, Sync, Bump, GetN + 5, GetN + 5>, V ahead<4, 0, Sync, GetN + 1, Bump, GetN + 0>, V ahead<4, 0, Next, Bump, Get, GetN + 5>, V ahead<4, 0, Next, GetN + 0, Get, Next>, V ahead<4, 0, GetN + 0, Get, GetN + 1, GetN + 1>, V ahead<4, 0, GetN + 1, GetN + 5, Next, Next>, V ahead<4, 0, Get, Get, Get, Sync>, V ahead<4, 0, Sync, GetN + 0, GetN + 1, GetN + 1>, V ahead<4, 0, Get, GetN + 3, Get, GetN + 1>, V ahead<4, 0, GetN + 3, GetN + 1, Next, Next>, V ahead<4, 0, GetN + 0, Sync, Sync, Sync>, V ahead<4, 0, Next, Get, Sync, GetN + 0>, V ahead<4, 0, Sync, GetN + 0, GetN + 5, Bump>, V ahead<4, 0, Next, GetN + 1, Next, Next>, V ahead<4, 0, Next, GetN + 1, GetN + 3, Get>, V ahead<4, 0, Next, Bump, GetN + 5, Get>, V ahead<4, 1, GetN + 5, Bump, Next, Next>, V ahead<4, 1, GetN + 0, GetN + 5, Sync, GetN + 3>, V ahead<4, 1, Next, Next, GetN + 1, GetN + 5>, V ahead<4, 1, GetN + 5, GetN + 0, GetN + 0, GetN + 1>, V ahead<4, 1, GetN + 0, Next, Sync, GetN + 5>, V ahead<4, 1, GetN + 1, Next, Get, GetN + 0>, V ahead<4, 1, Sync, GetN + 0, Sync, GetN + 3>, V ahead<4, 1, Sync, GetN + 5, GetN + 1, GetN + 5>, V ahead<4, 1, GetN + 0, GetN + 5, GetN + 3, GetN + 5>, V ahead<4, 1, GetN + 5, GetN + 5, Next, GetN + 3>, V ahead<4, 1, GetN + 0, GetN + 0, GetN + 1, Get>, V ahead<4, 1, GetN + 5, GetN + 0, Next, Get>, V ahead<4, 1, GetN + 0, Sync, GetN + 5, Sync>, V ahead<4, 1, Get, Sync, Get, GetN + 5>, V ahead<4, 1, GetN + 5, Sync, GetN + 0, GetN + 1>, V ahead<4, 1, GetN + 0, GetN + 1, Next, GetN + 5>, V ahead<4, 1, Next, Get, Next, Get>, V ahead<4, 1, GetN + 0, GetN + 1, Get, GetN + 3>, V ahead<4, 1, GetN + 0, GetN + 0, Get, GetN + 5>, V ahead<4, 1, Bump, GetN + 0, Get, GetN + 5>, V ahead<4, 3, GetN + 1, Bump, GetN + 1, GetN + 3>, V ahead<4, 3, Next, GetN + 3, Get, GetN + 3>, V ahead<4, 3, GetN + 0, Sync, GetN + 5, GetN + 1>, V ahead<4, 3, Sync, Sync, GetN + 3, GetN + 1>, V ahead<4, 3, Bump, GetN + 3, Sync, GetN + 1>, V ahead<4, 3, GetN + 1, GetN + 0, Next, Next>, V ahead<4, 3, GetN + 5, GetN + 5, GetN + 5, GetN + 3>, V ahead<4, 3, GetN + 5, GetN + 0, GetN + 5, Sync>, V ahead<4, 3, Next, Bump, Sync, Bump>, V ahead<4, 3, GetN + 3, GetN + 3, GetN + 1, GetN + 3>, V ahead<4, 3, GetN + 1, GetN + 0, Sync, Bump>, V ahead<4, 3, GetN + 5, Next, GetN + 1, GetN + 0>, V ahead<4, 3, Bump, GetN + 0, Next, GetN + 1>, V ahead<4, 3, Next, Bump, GetN + 5, Sync>, V ahead<4, 3, Bump, GetN + 0, GetN + 5, Bump>, V ahead<4, 3, GetN + 3, Next, GetN + 5, GetN + 3>, V ahead<4, 3, GetN + 0, Next, GetN + 3, GetN + 0>, V ahead<4, 3, Sync, GetN + 5, GetN + 5, Sync>, V ahead<4, 3, Bump, GetN + 5, Bump, GetN + 0>, V ahead<4, 3, Next, Next, GetN + 0, GetN + 3>, V ahead<4, 7, Sync, Sync, Get, GetN + 0>, V ahead<4, 7, GetN + 0, Bump, Bump, GetN + 1>, V ahead<4, 7, GetN + 1, GetN + 0, GetN + 3, Bump>, V ahead<4, 7, GetN + 0, Next, GetN + 1, GetN + 0>, V ahead<4, 7, GetN + 1, GetN + 1, GetN + 3, GetN + 0>, V ahead<4, 7, Sync, GetN + 3, GetN + 3, GetN + 3>, V ahead<4, 7, Get, Bump, Get, Get>, V ahead<4, 7, GetN + 1, GetN + 3, GetN + 3, GetN + 1>, V ahead<4, 7, Sync, GetN + 0, GetN + 0, Get>, V ahead<4, 7, GetN + 5, GetN + 1, GetN + 3, GetN + 0>, V ahead<4, 7, Get, Get, GetN + 3, Bump>, V ahead<4, 7, GetN + 5, GetN + 0, GetN + 3, Bump>, V ahead<4, 7, Bump, Next, Sync, GetN + 5>, V ahead<4, 7, Get, GetN + 1, GetN + 1, Bump>, V ahead<4, 7, GetN + 1, GetN + 3, Get, Next>, V ahead<4, 7, GetN + 5, Sync, Bump, Next>, V ahead<4, 7, GetN + 1, GetN + 3, Sync, Bump>, V ahead<4, 7, GetN + 5, GetN + 0, GetN + 3, Sync>, V ahead<4, 7, GetN + 3, GetN + 1, GetN + 3, GetN + 3>, V ahead<4, 7, GetN + 3, GetN + 3, GetN + 3, GetN + 3>)
OBL_INSTANCES(q1, V virtually<PutN + 2, PutN + 3, Sync, GetN + 1>, V virtually<GetN + 2, Put, GetN + 1, Put>, V virtually<PutN + 3, GetN + 2, Sync, PutN + 2>, V virtually<Sync, GetN + 1, PutN + 3, PutN + 3>, V virtually<GetN + 2, PutN + 3, GetN + 2, GetN + 2>, V virtually<PutN + 3, Put, GetN + 2, PutN + 2>, V virtually<GetN + 2, GetN + 2, PutN + 2, PutN + 2>, V virtually<PutN + 2, GetN + 2, GetN + 2, GetN + 2>, V virtually<GetN + 1, Put, Sync, PutN + 2>, V virtually<Sync, GetN + 2, GetN + 1, Sync>, V virtually<PutN + 2, Sync, Sync, GetN + 2>, V virtually<Sync, PutN + 3, GetN + 2, Put>, V virtually<Put, PutN + 2, GetN + 2, Sync>, V virtually<PutN + 2, GetN + 2, PutN + 2, Put>, V virtually<GetN + 1, GetN + 2, GetN + 2, PutN + 2>, V virtually<PutN + 3, GetN + 2, Put, GetN + 1>, V virtually<Sync, GetN + 2, PutN + 3, PutN + 3>, V virtually<GetN + 2, Sync, GetN + 2, Sync>, V virtually<Sync, PutN + 2, Sync, PutN + 2>, V virtually<Sync, PutN + 3, GetN + 1, Sync>, V virtually<PutN + 2, GetN + 1, Put, Put>, V virtually<PutN + 3, GetN + 1, Put, GetN + 2>, V virtually<PutN + 2, Put, PutN + 2, GetN + 1>, V virtually<PutN + 2, PutN + 3, Put, Sync>, V virtually<PutN + 3, GetN + 2, GetN + 2, PutN + 3>, V virtually<Sync, Put, GetN + 2, Sync>, V virtually<GetN + 1, Put, GetN + 1, GetN + 2>, V virtually<Sync, GetN + 2, Put, GetN + 1>, V virtually<GetN + 1, PutN + 3, Sync, Put>, V virtually<GetN + 2, Put, Sync, Sync>, V virtually<GetN + 2, Sync, Put, Sync>, V virtually<GetN + 2, Put, GetN + 1, Put>, V virtually<GetN + 1, Sync, GetN + 2, Sync>, V virtually<GetN + 2, GetN + 2, PutN + 2, PutN + 3>, V virtually<PutN + 2, Sync, Put, Sync>, V virtually<GetN + 2, Put, PutN + 2, PutN + 3>, V virtually<Put, Sync, GetN + 1, PutN + 3>, V virtually<Sync, PutN + 3, GetN + 1, Sync>, V virtually<Sync, PutN + 2, GetN + 1, PutN + 3>, V virtually<PutN + 3, Sync, GetN + 2, Sync>, V virtually<Put, GetN + 2, PutN + 2, Sync>, V virtually<GetN + 1, PutN + 2, Sync, PutN + 3>, V virtually<Sync, PutN + 2, PutN + 3, GetN + 1>, V virtually<GetN + 1, GetN + 2, GetN + 2, PutN + 3>, V virtually<PutN + 3, Sync, PutN + 2, Sync>, V virtually<PutN + 2, Put, GetN + 2, Put>, V virtually<PutN + 2, GetN + 2, GetN + 1, GetN + 1>, V virtually<GetN + 1, GetN + 2, GetN + 1, Sync>, V virtually<Put, Sync, Put, PutN + 2>, V virtually<PutN + 2, Put, GetN + 1, PutN + 3>)
OBL_INSTANCES(q2, V posix<GetN + 2, PutN + 1, GetN + 5, PutN + 1>, V posix<GetN + 1, PutN + 2, GetN + 5, Put>, V posix<GetN + 1, GetN + 2, GetN + 5, GetN + 1>, V posix<PutN + 2, GetN + 5, Put, PutN + 2>, V posix<PutN + 1, Put, GetN + 5, GetN + 1>, V posix<GetN + 2, Put, GetN + 2, PutN + 1>, V posix<GetN + 5, PutN + 1, GetN + 5, PutN + 1>, V posix<PutN + 1, PutN + 1, GetN + 1, GetN + 2>, V posix<Put, PutN + 1, GetN + 2, GetN + 2>, V posix<PutN + 1, PutN + 2, GetN + 1, GetN + 5>, V posix<GetN + 2, GetN + 1, PutN + 1, PutN + 1>, V posix<GetN + 5, PutN + 2, Put, PutN + 1>, V posix<PutN + 2, GetN + 2, GetN + 2, Put>, V posix<GetN + 2, PutN + 2, GetN + 1, GetN + 2>, V posix<GetN + 5, GetN + 2, GetN + 5, Put>, V posix<GetN + 1, GetN + 5, GetN + 2, PutN + 1>, V posix<Put, PutN + 1, GetN + 1, GetN + 5>, V posix<PutN + 1, GetN + 5, GetN + 5, PutN + 2>, V posix<PutN + 1, GetN + 5, GetN + 2, GetN + 1>, V posix<GetN + 5, Put, PutN + 1, GetN + 5>, V posix<GetN + 2, GetN + 2, GetN + 2, GetN + 2>, V posix<GetN + 5, GetN + 1, PutN + 2, GetN + 2>, V posix<PutN + 2, GetN + 1, Put, GetN + 5>, V posix<GetN + 2, PutN + 1, PutN + 1, GetN + 5>, V posix<PutN + 2, GetN + 5, GetN + 2, GetN + 2>, V posix<GetN + 5, PutN + 2, Put, Put>, V posix<GetN + 1, PutN + 1, GetN + 2, PutN + 1>, V posix<GetN + 5, PutN + 1, GetN + 5, GetN + 5>, V posix<GetN + 1, Put, GetN + 2, PutN + 1>, V posix<GetN + 5, PutN + 1, PutN + 2, GetN + 5>, V posix<GetN + 1, PutN + 1, Put, GetN + 1>, V posix<GetN + 2, Put, PutN + 2, PutN + 2>, V posix<GetN + 2, GetN + 2, Put, GetN + 5>, V posix<PutN + 2, Put, PutN + 1, GetN + 2>, V posix<PutN + 1, GetN + 2, PutN + 1, PutN + 1>, V posix<PutN + 1, GetN + 5, GetN + 2, PutN + 2>, V posix<Put, GetN + 2, PutN + 1, GetN + 1>, V posix<GetN + 1, PutN + 2, PutN + 2, GetN + 1>, V posix<PutN + 1, GetN + 1, GetN + 5, Put>, V posix<Put, PutN + 1, PutN + 2, Put>, V posix<GetN + 5, GetN + 2, PutN + 2, Put>, V posix<GetN + 5, GetN + 2, PutN + 2, GetN + 2>, V posix<PutN + 2, PutN + 1, GetN + 2, GetN + 5>, V posix<GetN + 5, PutN + 2, Put, GetN + 1>, V posix<GetN + 5, GetN + 2, GetN + 1, GetN + 2>, V posix<PutN + 2, GetN + 1, GetN + 1, PutN + 1>, V posix<GetN + 1, Put, GetN + 1, GetN + 1>, V posix<GetN + 5, GetN + 1, GetN + 1, PutN + 1>, V posix<PutN + 2, GetN + 5, Put, GetN + 1>, V posix<Put, Put, GetN + 5, PutN + 1>, V posix<GetN + 2, GetN + 1, GetN + 1, GetN + 1>, V posix<Put, GetN + 5, GetN + 2, PutN + 2>, V posix<PutN + 1, PutN + 2, GetN + 2, Put>, V posix<Put, GetN + 5, GetN + 1, Put>, V posix<PutN + 1, GetN + 2, PutN + 2, PutN + 2>, V posix<PutN + 1, PutN + 2, Put, GetN + 5>, V posix<PutN + 2, GetN + 2, Put, PutN + 2>, V posix<PutN + 2, GetN + 2, Put, GetN + 5>, V posix<PutN + 2, GetN + 2, GetN + 5, GetN + 2>, V posix<PutN + 2, GetN + 5, GetN + 5, GetN + 1>)
#endif
