// std: 17
// thorough: 20
// min: 60
// peel: 1
// rounds: 10
// shards: 5
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/iomanip.h>
#include "obl.h"

using estd::ios_base;
enum { Eof = -1 };

// what a stream does to its streambuf is recorded
struct Log
{
    int puts = 0, runs = 0, chars = 0, syncs = 0, seeks = 0, off = 0, dir = 0, which = 0;
};
struct Sink
{
    typedef char char_type;
    typedef estd::char_traits<char> traits_type;
    typedef int int_type;
    typedef int pos_type;
    typedef int off_type;
    Log* log;
    bool refuse, stuck;         // takes no character; cannot be synchronised
    int room;                   // characters it takes of a run
    Sink(Log* l, bool refuse, bool stuck, int room) : log(l), refuse(refuse), stuck(stuck), room(room) {}
    int sputc(char c) { log->puts++; return refuse ? int(Eof) : int((unsigned char)c); }
    estd::streamsize sputn(const char*, estd::streamsize n) { log->runs++; const int r = n < room ? n : room; log->chars += r; return r; }
    int pubsync() { log->syncs++; return stuck ? -1 : 0; }
    int pubseekoff(int off, ios_base::seekdir d, ios_base::openmode w = ios_base::in | ios_base::out) { log->seeks++; log->off = off; log->dir = d; log->which = w; return off + 7; }
};
typedef estd::detail::basic_ostream<Sink> Out;

// characters of which only some have arrived yet
struct Source
{
    typedef char char_type;
    typedef estd::char_traits<char> traits_type;
    typedef int int_type;
    typedef int pos_type;
    typedef int off_type;
    char c[4];
    int have, pos = 0;
    bool ends;                  // what comes after: the end, or more one day
    int syncs = 0;
    bool stuck = false;
    Source(char a, char b, char d, int have, bool ends) : c{a, b, d, 0}, have(have), ends(ends) {}
    int sgetc() { return pos < have ? (unsigned char)c[pos] : Eof; }
    int sbumpc() { return pos < have ? (unsigned char)c[pos++] : Eof; }
    int sungetc() { return pos > 0 ? (unsigned char)c[--pos] : Eof; }
    estd::streamsize in_avail() { return pos < have ? have - pos : ends ? -1 : 0; }
    estd::streamsize sgetn(char* d, estd::streamsize n) { int i = 0; for(; i < n && pos < have; i++) d[i] = c[pos++]; return i; }
    int pubsync() { syncs++; return stuck ? -1 : 0; }
    int pubseekoff(int, ios_base::seekdir, ios_base::openmode = ios_base::in) { return -1; }
};

enum { Put, InsC, InsInt, Write, Text, Endl, Flush };
namespace oblt {
// flushing after every insertion, when asked to and as long as the stream is good
template <int op, bool unit> void flushes(char c, unsigned char v, bool refuse, bool stuck, unsigned char room)
{
    Log l;
    Out o(&l, refuse, stuck, room % 3);
    if(unit) unitbuf(o);
    OBL_REQUIRE(bool(o.flags() & ios_base::unitbuf) == unit);
    bool lost;
    if constexpr(op == Put) { o.put(c); lost = refuse; OBL_REQUIRE(l.puts == 1 && l.runs == 0); }
    if constexpr(op == InsC) { o << c; lost = refuse; OBL_REQUIRE(l.puts == 1 && l.runs == 0); }
    if constexpr(op == InsInt) { o << int(10 + v % 90); lost = room % 3 < 2; OBL_REQUIRE(l.runs == 1 && l.chars == room % 3); }
    if constexpr(op == Write) { const char t[2] = {c, c}; o.write(t, 2); lost = room % 3 < 2; OBL_REQUIRE(l.runs == 1 && l.chars == room % 3); }
    if constexpr(op == Text) { o << "ab"; lost = room % 3 < 2; OBL_REQUIRE(l.runs == 1 && l.chars == room % 3); }
    if constexpr(op == Endl) { o << estd::endl; lost = refuse; OBL_REQUIRE(l.puts == 1 && l.syncs == 1); }
    if constexpr(op == Flush) { o.flush(); lost = false; OBL_REQUIRE(l.puts == 0 && l.runs == 0 && l.syncs == 1); }
    if constexpr(op != Endl && op != Flush) OBL_REQUIRE(l.syncs == (unit && !lost ? 1 : 0));
    OBL_REQUIRE(o.fail() == (lost || (l.syncs && stuck)));
    OBL_REQUIRE(o.good() == !o.fail());
    nounitbuf(o);
    OBL_REQUIRE(!(o.flags() & ios_base::unitbuf));
    OBL_END;
}
template <int n> void positions(int off, unsigned char dir)
{
    Log l;
    Out o(&l, true, false, 0);
    if constexpr(n == 0)
    {
        OBL_REQUIRE(&o.seekp(off, dir) == &o);
        OBL_REQUIRE(l.seeks == 1 && l.off == off && l.dir == dir && l.which == ios_base::out);
    }
    if constexpr(n == 1)
    {
        OBL_REQUIRE(o.tellp() == 7);
        OBL_REQUIRE(l.seeks == 1 && l.off == 0 && l.dir == ios_base::cur && l.which == ios_base::out);
    }
    if constexpr(n == 2)
    {
        o.put('x');
        OBL_REQUIRE(o.tellp() == -1 && l.seeks == 0);
        o.clear();
        OBL_REQUIRE(o.good() && o.tellp() == 7);
    }
    OBL_END;
}
// a word which has not arrived completely is left for another attempt; at the end it is complete
template <int have, bool ends, char second> void word(char x, char y)
{
    const char a = 'a' + (unsigned char)x % 26, b = second ? second : char('a' + (unsigned char)y % 26);
    estd::internal::flagged_istream<Source> in(a, b, a, have, ends);
    estd::layer1::string<8, false> s;
    s.push_back('?');
    in >> s;
    constexpr bool whole = ends || (second == ' ' && have >= 2);
    constexpr int n = second == ' ' && have >= 2 ? 1 : have;
    if constexpr(whole)
    {
        OBL_REQUIRE(in.rdbuf()->pos == n && int(s.size()) == n);
        const char* d = s.clock();
        if(n > 0) OBL_REQUIRE(d[0] == a);
        if(n > 1) OBL_REQUIRE(d[1] == b);
        if(n > 2) OBL_REQUIRE(d[2] == a);
        s.cunlock();
        OBL_REQUIRE(in.eof() == (n == have) && in.fail() == (n == 0));
    }
    else
    {
        OBL_REQUIRE(in.rdbuf()->pos == 0);
        OBL_REQUIRE(in.rdstate() == ios_base::nodatabit && !in.good() && !in.fail() && !in.eof());
    }
    OBL_END;
}
// a stream told to wait reads on once there is something
template <bool ends> void waits(char x, char y)
{
    estd::internal::flagged_istream<Source, estd::internal::istream_flags::blocking> in(x, y, x, 2, ends);
    OBL_REQUIRE(in.peek() == (unsigned char)x);
    OBL_REQUIRE(in.get() == (unsigned char)x);
    OBL_REQUIRE(in.peek() == (unsigned char)y);
    OBL_REQUIRE(in.get() == (unsigned char)y);
    if(ends) OBL_REQUIRE(in.peek() == Eof && in.good());
    OBL_END;
}
// nothing there yet is no end
template <bool ends> void some(char x, char g)
{
    estd::internal::flagged_istream<Source> in(x, x, x, 1, ends);
    char b[3] = {g, g, g};
    OBL_REQUIRE(in.readsome(b, 2) == 1 && b[0] == x && b[1] == g && in.good());
    OBL_REQUIRE(in.readsome(b + 1, 2) == 0 && b[0] == x && b[1] == g && b[2] == g);
    OBL_REQUIRE(in.gcount() == 0 && in.eof() == ends && !in.fail());
    OBL_END;
}
// no room at all, not even for the terminator
void no_room(char x, char g)
{
    estd::internal::flagged_istream<Source> in(x, x, x, 2, true);
    char b = g;
    in.getline(&b, 0);
    OBL_REQUIRE(b == g);
    in.clear();
    in.read(&b, 0);
    OBL_REQUIRE(b == g);
    OBL_END;
}
void syncs(bool stuck)
{
    estd::internal::flagged_istream<Source> in('x', 'y', 'z', 2, true);
    in.rdbuf()->stuck = stuck;
    OBL_REQUIRE(&in.sync() == &in);
    OBL_REQUIRE(in.rdbuf()->syncs == 1 && in.bad() == stuck && in.good() == !stuck);
    OBL_END;
}
// the state every stream has
template <int n, int mask = 0> void state(unsigned char a, unsigned char b, unsigned char m, unsigned char w)
{
    ios_base s;
    if constexpr(n == 0) a &= 15, b &= 15, m &= 15;     // the bits there are
    w &= 15;                                            // narrow by default
    OBL_REQUIRE(s.good() && s.rdstate() == 0 && s.width() == 0 && s.flags() == (ios_base::dec | ios_base::right));
    if constexpr(n == 0)
    {
        s.setstate(a);
        OBL_REQUIRE(s.rdstate() == a);
        s.setstate(b);
        OBL_REQUIRE(s.rdstate() == (a | b));
        OBL_REQUIRE(s.good() == ((a | b) == 0));
        OBL_REQUIRE(s.eof() == bool((a | b) & ios_base::eofbit) && s.bad() == bool((a | b) & ios_base::badbit));
        OBL_REQUIRE(s.fail() == bool((a | b) & (ios_base::failbit | ios_base::badbit)));
        s.clear(m);
        OBL_REQUIRE(s.rdstate() == m);
        s.clear();
        OBL_REQUIRE(s.good());
        OBL_REQUIRE(s.width() == 0 && s.flags() == (ios_base::dec | ios_base::right));
    }
    if constexpr(n == 1)
    {
        OBL_REQUIRE(s.flags(a) == (ios_base::dec | ios_base::right));
        OBL_REQUIRE(s.setf(b) == a);
        unsigned char want = a;
        want |= b;
        OBL_REQUIRE(s.flags() == want);
        OBL_REQUIRE(s.unsetf(mask) == want);
        OBL_REQUIRE(s.flags() == (want & ~mask & 0xff));
        OBL_REQUIRE(s.good() && s.width() == 0);
    }
    if constexpr(n == 2)
    {
        s.flags(a);
        OBL_REQUIRE(s.setf(b & mask, mask) == a);
        OBL_REQUIRE(s.flags() == ((a & ~mask & 0xff) | (b & mask)));
        OBL_REQUIRE(s.good() && s.width() == 0);
    }
    if constexpr(n == 3)
    {
        OBL_REQUIRE(s.width(w) == 0 && s.width() == w);
        OBL_REQUIRE(s.width(0) == w && s.width() == 0);
        OBL_REQUIRE(s.good() && s.flags() == (ios_base::dec | ios_base::right));
    }
    OBL_END;
}
}
OBL_STATIC(bits_apart, (ios_base::failbit | ios_base::badbit | ios_base::eofbit | ios_base::nodatabit) == ios_base::failbit + ios_base::badbit + ios_base::eofbit + ios_base::nodatabit && ios_base::goodbit == 0);
OBL_STATIC(flags_apart, (ios_base::basefield | ios_base::uppercase | ios_base::left | ios_base::right | ios_base::boolalpha | ios_base::unitbuf | ios_base::skipws) ==
    ios_base::basefield + ios_base::uppercase + ios_base::left + ios_base::right + ios_base::boolalpha + ios_base::unitbuf + ios_base::skipws);
OBL_STATIC(bases_differ, ios_base::dec != ios_base::hex && ios_base::hex != ios_base::oct && ios_base::oct != ios_base::dec);
OBL_STATIC(bases_in_field, (ios_base::dec & ~ios_base::basefield) == 0 && (ios_base::hex & ~ios_base::basefield) == 0 && (ios_base::oct & ~ios_base::basefield) == 0);
OBL_STATIC(modes_apart, (ios_base::in & ios_base::out) == 0 && ios_base::in != 0 && ios_base::out != 0);
OBL_STATIC(dirs_apart, ios_base::beg != ios_base::cur && ios_base::cur != ios_base::end && ios_base::beg != ios_base::end);

#define F(op) (void*)&oblt::flushes<op, false>, (void*)&oblt::flushes<op, true>
OBL_INSTANCES(flushes, F(Put), F(InsC), F(InsInt), F(Write), F(Text), F(Endl), F(Flush))
OBL_INSTANCES(positions, (void*)&oblt::positions<0>, (void*)&oblt::positions<1>, (void*)&oblt::positions<2>)
#define W(h) (void*)&oblt::word<h, false, 0>, (void*)&oblt::word<h, true, 0>, (void*)&oblt::word<h, false, ' '>, (void*)&oblt::word<h, true, ' '>
OBL_INSTANCES(words, W(0), W(1), W(2), W(3))
OBL_INSTANCES(waits, (void*)&oblt::waits<false>, (void*)&oblt::waits<true>)
OBL_INSTANCES(some, (void*)&oblt::some<false>, (void*)&oblt::some<true>, (void*)&oblt::no_room)
OBL_INSTANCES(syncs, (void*)&oblt::syncs)
#define MASKS(n) (void*)&oblt::state<n, 0>, (void*)&oblt::state<n, 1>, (void*)&oblt::state<n, 2>, (void*)&oblt::state<n, 4>, (void*)&oblt::state<n, 8>, (void*)&oblt::state<n, 16>, (void*)&oblt::state<n, 32>, (void*)&oblt::state<n, 64>, (void*)&oblt::state<n, 128>, (void*)&oblt::state<n, 255>, (void*)&oblt::state<n, ios_base::basefield>, (void*)&oblt::state<n, ios_base::left | ios_base::right>, (void*)&oblt::state<n, ios_base::hex | ios_base::unitbuf>
OBL_INSTANCES(state, (void*)&oblt::state<0>, MASKS(1), MASKS(2), (void*)&oblt::state<3>)
