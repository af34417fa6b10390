// std: 17
// min: 2
// peel: 4
// link: estd/ext/willemt/bipbuffer/bipbuffer.c estd/port/posix/streambuf.cpp
// A buffer of 256 characters between two others.
#include <estd/streambuf.h>
#include <estd/internal/impl/streambuf/bipbuf.h>
#include <estd/span.h>
#include "obl.h"
#include "cstr.h"
using namespace estd::internal;
enum { N = 256, R = 300 };
namespace oblt {
template <int> void out_whole(char v, char g)
{
    typedef streambuf<impl::out_span_streambuf<char> > D;
    struct { char g0, b[R], g1; } a;
    a.g0 = a.g1 = g;
    for(int i = 0; i < R; ++i) a.b[i] = g;
    char t[N];
    for(int i = 0; i < N; ++i) t[i] = v;
    estd::internal::out_bipbuf_streambuf<D, N> s(estd::span<char>(a.b, R));
    OBL_REQUIRE(s.sputn(t, N) == N);
    OBL_REQUIRE(s.pubsync() == 0);
    OBL_REQUIRE(s.rdbuf().pos() == N && a.b[0] == v && a.b[N - 1] == v && a.b[N] == g && a.g0 == g && a.g1 == g);
    OBL_END;
}
template <int> void in_whole(char v)
{
    typedef streambuf<impl::in_span_streambuf<char> > S;
    char a[R];
    for(int i = 0; i < R; ++i) a[i] = 1;
    a[0] = v; 
    S d(estd::span<char>(a, R));
    estd::internal::in_bipbuf_streambuf<S&, N> s(d);
    OBL_REQUIRE(s.pubsync() == 0);
    OBL_REQUIRE(s.in_avail() > 0 && s.sgetc() == (unsigned char)v && s.sbumpc() == (unsigned char)v && s.sgetc() == 1);
    OBL_END;
}
}
OBL_INSTANCES(out_whole, (void*)&oblt::out_whole<0>)
OBL_INSTANCES(in_whole, (void*)&oblt::in_whole<0>)
