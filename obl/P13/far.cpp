// std: 17
// thorough: 20
// min: 4
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// More than 256 characters in one go.
#include "cstr.h"
#include <estd/streambuf.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/string_view.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include "obl.h"
namespace ei = estd::internal;
typedef ei::streambuf<ei::impl::out_span_streambuf<char> > Out;
typedef ei::streambuf<ei::impl::in_span_streambuf<char> > In;
enum { N = 270, At = 265 };
struct room { char g, b[N], h; };
static inline void mark(room& m, char c = 'a') { m.g = m.h = 7; for(int i = 0; i < N; ++i) m.b[i] = c; m.b[At] = 'b'; }
namespace oblt {
template <int op> void far_chars(char c)
{
    room m, k;
    mark(m); mark(k, 'z'); k.b[At] = 'z';
    if(op == 0) { Out o(k.b, N); OBL_REQUIRE(o.sputn(m.b, 268) == 268 && k.b[At] == 'b' && k.b[0] == 'a' && k.b[267] == 'a' && k.b[268] == 'z'); OBL_REQUIRE(o.sputc(c) == (unsigned char)c && k.b[268] == c && k.b[12] == 'a'); }
    if(op == 1) { Out o(k.b, 268); OBL_REQUIRE(o.sputn(m.b, N) == 268 && k.b[267] == 'a' && k.b[268] == 'z'); }
    if(op == 2) { In i(estd::span<char>(m.b, (size_t)N)); OBL_REQUIRE(i.in_avail() == N && i.sgetn(k.b, 265) == 265 && k.b[264] == 'a' && k.b[265] == 'z' && i.in_avail() == N - 265 && i.sbumpc() == 'b' && i.sgetc() == 'a'); }
    if(op == 3) { In i(estd::span<char>(m.b, (size_t)N)); OBL_REQUIRE(i.pubseekoff(At, estd::ios_base::beg) == At && i.sgetc() == 'b' && i.sungetc() == 'a' && i.pubseekoff(1, estd::ios_base::cur) == At && i.sgetc() == 'b'); }
    if(op == 4) { estd::detail::basic_istream<In> i(estd::span<char>(m.b, (size_t)N)); i.read(k.b, 268); OBL_REQUIRE(i.good() && i.gcount() == 268 && k.b[At] == 'b' && k.b[267] == 'a' && k.b[268] == 'z' && i.get() == 'a'); }
    if(op == 5) { estd::detail::basic_istream<In> i(estd::span<char>(m.b, (size_t)N)); i.ignore(264); OBL_REQUIRE(i.good() && i.gcount() == 264 && i.get() == 'a' && i.get() == 'b'); }
    if(op == 7) { estd::detail::basic_ostream<Out> o(k.b, N); o.write(m.b, 268); OBL_REQUIRE(o.good() && o.tellp() == 268 && k.b[At] == 'b' && k.b[267] == 'a' && k.b[268] == 'z'); o.put(c); OBL_REQUIRE(o.good() && k.b[268] == c); }
    if(op == 8) { estd::detail::basic_ostream<Out> o(k.b, N); o << estd::string_view(m.b, 268); OBL_REQUIRE(o.good() && o.tellp() == 268 && k.b[At] == 'b' && k.b[267] == 'a' && k.b[268] == 'z'); }
    if(op == 9) { ei::streambuf<ei::impl::out_stringbuf<estd::layer1::string<N, false> > > o; OBL_REQUIRE(o.sputn(m.b, 268) == 268 && o.str().size() == 268 && o.str()[At] == 'b' && o.sputc(c) == (unsigned char)c && o.str()[268] == c); }
    OBL_REQUIRE(m.g == 7 && m.h == 7 && k.g == 7 && k.h == 7);
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_chars<n>
OBL_INSTANCES(far_chars, F(4), F(5), F(7), F(8))
