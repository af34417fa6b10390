// std: 17
// thorough: 20
// min: 12
// peel: 4
// rounds: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// Streambufs made in other ways, given another memory, emptied, looked at.
#include "cstr.h"
#include <estd/streambuf.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/string_view.h>
#include "obl.h"
using estd::ios_base;
namespace ei = estd::internal;
typedef ei::streambuf<ei::impl::out_span_streambuf<char> > Out;
typedef ei::streambuf<ei::impl::in_span_streambuf<char> > In;
enum { Eof = -1 };
namespace oblt {
template <int way> void made(char c, char d, char e)
{
    struct { char g; char b[2]; char h; } m{e, {0, 0}, e};
    const estd::span<char> s(m.b, (size_t)2);
    estd::span<char> t(m.b, (size_t)2);
    auto use = [&](Out& o)
    {
        OBL_REQUIRE(o.sputc(c) == (unsigned char)c && m.b[0] == c && m.b[1] == 0);
        OBL_REQUIRE(o.sputc(d) == (unsigned char)d && m.b[0] == c && m.b[1] == d && o.sputc(e) == Eof && m.g == e && m.h == e);
    };
    if(way == 0) { Out o(s); use(o); }
    else if(way == 1) { Out o(static_cast<estd::span<char>&&>(t)); use(o); }
    else if(way == 2) { Out o(m.b); use(o); }
    else { Out o(m.b, 2); use(o); }
    OBL_END;
}
// other memory: starts over there, and only there
void other_memory(char c, char d)
{
    char a[2] = {0, 0}, b[3] = {0, 0, 0};
    Out o(a, 2);
    o.sputc(c);
    o.setbuf_experimental(b, 2);
    OBL_REQUIRE(o.sputc(d) == (unsigned char)d && o.sputc(c) == (unsigned char)c && o.sputc(d) == Eof);
    OBL_REQUIRE(a[0] == c && a[1] == 0 && b[0] == d && b[1] == c && b[2] == 0);
    OBL_END;
}
// text put so far is seen, and can be emptied to start over
void looked_at(char c, char d)
{
    OBL_ASSUME(c != 0); OBL_ASSUME(d != 0);
    ei::streambuf<ei::impl::out_stringbuf<estd::layer1::string<7, false> > > o;
    o.sputc('a'); o.sputn("bc", 2); o.sputc('d');
    const auto& k = o;
    const auto v = k.view();
    OBL_REQUIRE(v.size() == 4 && v[0] == 'a' && v[1] == 'b' && v[2] == 'c' && v[3] == 'd' && &k.str() == &k.str());
    o.clear();
    OBL_REQUIRE(o.str().size() == 0 && o.view().size() == 0);
    OBL_REQUIRE(o.sputc('x') == 'x' && o.view().size() == 1 && o.view()[0] == 'x');
    OBL_END;
}
template <int to> void sought(char c, char d, char e)
{
    char b[3] = {c, d, e};
    In s(estd::span<char>(b, (size_t)3));
    s.sbumpc();
    const auto at = s.pubseekpos(to);
    const int now = at == decltype(at)(-1) ? 1 : to;
    OBL_REQUIRE(at == decltype(at)(-1) || at == to);
    OBL_REQUIRE(s.sgetc() == (now < 3 ? (int)(unsigned char)b[now] : Eof));
    OBL_REQUIRE(s.pubseekpos(0, ios_base::out) == decltype(at)(-1) && s.sgetc() == (now < 3 ? (int)(unsigned char)b[now] : Eof));
    OBL_END;
}
template <int to> void put_at(char c, char d, char e)
{
    char b[3] = {0, 0, 0};
    Out o(b, 3);
    o.sputc(c); o.sputc(d);
    OBL_REQUIRE(o.pubseekpos(to) == to && o.sputc(e) == (unsigned char)e);
    OBL_REQUIRE(b[0] == (to == 0 ? e : c) && b[1] == (to == 1 ? e : d) && b[2] == (to == 2 ? e : 0));
    OBL_END;
}
}
OBL_INSTANCES(looked_at, (void*)&oblt::looked_at, (void*)&oblt::sought<0>, (void*)&oblt::sought<2>, (void*)&oblt::sought<3>, (void*)&oblt::put_at<0>, (void*)&oblt::put_at<1>, (void*)&oblt::put_at<2>)
OBL_INSTANCES(made, (void*)&oblt::made<0>, (void*)&oblt::made<1>, (void*)&oblt::made<2>, (void*)&oblt::made<3>)
OBL_INSTANCES(other_memory, (void*)&oblt::other_memory)
