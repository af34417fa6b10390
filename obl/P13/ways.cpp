// std: 17
// thorough: 20
// min: 10
// peel: 4
// rounds: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// Streams made of a streambuf which is copied or moved in, and manipulators on either side.
#include "cstr.h"
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/iomanip.h>
#include "obl.h"
using estd::ios_base;
enum { Eof = -1 };
namespace is = estd::internal;
// a streambuf which tells where it came from
struct Buf
{
    typedef char char_type;
    typedef estd::char_traits<char> traits_type;
    typedef int int_type;
    typedef int pos_type;
    typedef int off_type;
    char* at; int room; int n = 0; int copied = 0, moved = 0;
    Buf(char* at, int room) : at(at), room(room) {}
    Buf(const Buf& b) : at(b.at), room(b.room), n(b.n), copied(b.copied + 1), moved(b.moved) {}
    Buf(Buf&& b) : at(b.at), room(b.room), n(b.n), copied(b.copied), moved(b.moved + 1) { b.at = nullptr; b.room = 0; }
    int sputc(char c) { if(n >= room) return Eof; at[n++] = c; return (unsigned char)c; }
    estd::streamsize sputn(const char* s, estd::streamsize k) { estd::streamsize i = 0; for(; i < k && n < room; i++) at[n++] = s[i]; return i; }
    int pubsync() { return 0; }
    int pubseekoff(int, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return 0; }
    int sgetc() { return n < room ? (unsigned char)at[n] : Eof; }
    int sbumpc() { return n < room ? (unsigned char)at[n++] : Eof; }
    int sungetc() { return n > 0 ? (unsigned char)at[--n] : Eof; }
    estd::streamsize in_avail() { return n < room ? room - n : -1; }
    estd::streamsize sgetn(char* d, estd::streamsize k) { int i = 0; for(; i < k && n < room; i++) d[i] = at[n++]; return i; }
};
typedef estd::detail::basic_ostream<Buf> Out;
typedef estd::detail::basic_istream<Buf> In;
namespace oblt {
// what a stream is made of it uses: a copy leaves the source as it was, a move takes over
void out_of_copy(char c, char d)
{
    char b[4] = {0, 0, 0, 0};
    Buf s(b, 4);
    s.sputc(c);
    Out o(s);
    OBL_REQUIRE(o.good() && o.rdbuf() != &s && o.rdbuf()->n == 1 && o.rdbuf()->copied == 1 && s.at == b && s.n == 1);
    o.put(d);
    OBL_REQUIRE(o.good() && b[0] == c && b[1] == d && b[2] == 0 && o.rdbuf()->n == 2 && s.n == 1);
    OBL_END;
}
void out_of_move(char c, char d)
{
    char b[4] = {0, 0, 0, 0};
    Buf s(b, 4);
    s.sputc(c);
    Out o(static_cast<Buf&&>(s));
    OBL_REQUIRE(o.good() && o.rdbuf()->n == 1 && o.rdbuf()->copied == 0 && o.rdbuf()->moved == 1 && s.at == nullptr);
    o.put(d);
    OBL_REQUIRE(o.good() && b[0] == c && b[1] == d && b[2] == 0);
    OBL_END;
}
void in_of_copy(char c, char d)
{
    char b[2] = {c, d};
    Buf s(b, 2);
    In i(s);
    OBL_REQUIRE(i.good() && i.gcount() == 0 && i.rdbuf() != &s && i.rdbuf()->copied == 1 && s.at == b);
    OBL_REQUIRE(i.get() == (unsigned char)c && i.gcount() == 1 && s.n == 0 && i.get() == (unsigned char)d && i.get() == Eof && i.eof());
    OBL_END;
}
void in_of_move(char c, char d)
{
    char b[2] = {c, d};
    Buf s(b, 2);
    s.sbumpc();
    In i(static_cast<Buf&&>(s));
    OBL_REQUIRE(i.good() && i.gcount() == 0 && i.rdbuf()->copied == 0 && s.at == nullptr);
    OBL_REQUIRE(i.get() == (unsigned char)d && i.get() == Eof && i.eof());
    OBL_END;
}
void of_arguments(char c)
{
    char b[2] = {c, c};
    In i(b, 2);
    Out o(b, 1);
    OBL_REQUIRE(i.good() && o.good() && i.rdbuf()->copied == 0 && i.rdbuf()->moved == 0 && i.get() == (unsigned char)c && o.rdbuf()->room == 1);
    OBL_END;
}
// manipulators name the base on either side, and nothing else
template <unsigned flags> void bases(char c)
{
    char b[1] = {c};
    In i(b, 1);
    Out o(b, 1);
    i.setf(ios_base::fmtflags(flags)); o.setf(ios_base::fmtflags(flags));
    const auto rest = ios_base::fmtflags(i.flags() & ~ios_base::basefield), rosto = ios_base::fmtflags(o.flags() & ~ios_base::basefield);
    OBL_REQUIRE(&(i >> estd::hex) == &i && i.flags() == (rest | ios_base::hex));
    OBL_REQUIRE(&(i >> estd::dec) == &i && i.flags() == (rest | ios_base::dec));
    OBL_REQUIRE(&(o << estd::hex) == &o && o.flags() == (rosto | ios_base::hex));
    OBL_REQUIRE(&(o << estd::dec) == &o && o.flags() == (rosto | ios_base::dec));
    OBL_REQUIRE(i.good() && o.good() && i.rdbuf()->n == 0 && o.rdbuf()->n == 0 && b[0] == c);
    OBL_END;
}
}
OBL_INSTANCES(made, (void*)&oblt::out_of_copy, (void*)&oblt::out_of_move, (void*)&oblt::in_of_copy, (void*)&oblt::in_of_move, (void*)&oblt::of_arguments)
OBL_INSTANCES(bases, (void*)&oblt::bases<0>, (void*)&oblt::bases<ios_base::hex>, (void*)&oblt::bases<ios_base::dec>, (void*)&oblt::bases<ios_base::oct>, (void*)&oblt::bases<ios_base::boolalpha | ios_base::unitbuf>)
