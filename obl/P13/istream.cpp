// std: 17
// thorough: 20
// min: 250
// peel: 1
// rounds: 12
// shards: 3 4
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/span.h>
#include "obl.h"

using estd::ios_base;
enum { Eof = -1 };
static inline int u(char c) { return (unsigned char)c; }

// the characters to come and what the stream should say
struct M
{
    char c[8];
    int n, pos = 0, count = 0;
    unsigned char state = 0;
    bool good() const { return state == 0; }
    bool end() const { return pos >= n; }
    int next() const { return end() ? Eof : u(c[pos]); }
};
static inline bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }

enum { Get, Peek, Unget, Ws, Char, Text, Sync, Number, Ignore = 20, IgnoreTo = 30, Read = 40, Some = 50, Line = 60, LineTo = 70, Tell = 80, Begin, Second, Clear };
// the shape of a character: itself, but 'a' any which is not a white space, 'b' any at all
constexpr char Delim = ';';

template <int op, class I> static inline void step(I& i, M& m, char g)
{
    constexpr int k = op % 10;
    char b[12];
    for(int j = 0; j < 12; j++) b[j] = g;
    if constexpr(op == Get)
    {
        const int want = m.next();
        if(m.end()) m.state |= ios_base::failbit | ios_base::eofbit, m.count = 0; else m.pos++, m.count = 1;
        OBL_REQUIRE(i.get() == want);
    }
    else if constexpr(op == Peek)
    {
        m.count = 0;
        OBL_REQUIRE(i.peek() == (m.good() ? m.next() : int(Eof)));
    }
    else if constexpr(op == Unget)
    {
        m.count = 0;
        if(m.pos > 0) m.pos--; else m.state |= ios_base::badbit;
        OBL_REQUIRE(&i.unget() == &i);
    }
    else if constexpr(op == Ws)
    {
        if(m.good()) while(!m.end() && space(m.c[m.pos])) m.pos++;
        OBL_REQUIRE(&(i >> estd::ws) == &i);
        m.count = i.gcount();       // left open
    }
    else if constexpr(op == Char)
    {
        char v = g;
        if(m.good()) while(!m.end() && space(m.c[m.pos])) m.pos++;
        const bool end = m.end();
        const char want = end ? g : m.c[m.pos];
        OBL_REQUIRE(&(i >> v) == &i);
        if(end) m.state |= ios_base::failbit | ios_base::eofbit; else m.pos++;
        OBL_REQUIRE(v == want);
        m.count = i.gcount();
    }
    else if constexpr(op == Text)
    {
        estd::layer1::string<8, false> s;
        s.push_back('?');
        OBL_REQUIRE(&(i >> s) == &i);
        while(!m.end() && space(m.c[m.pos])) m.pos++;
        const int from = m.pos;
        while(!m.end() && !space(m.c[m.pos])) m.pos++;
        if(m.end()) m.state |= ios_base::eofbit;
        if(m.pos == from) m.state |= ios_base::failbit;
        OBL_REQUIRE(int(s.size()) == m.pos - from);
        const char* d = s.clock();
        for(int j = from; j < m.pos; j++) OBL_REQUIRE(d[j - from] == m.c[j]);
        s.cunlock();
        m.count = i.gcount();
    }
    else if constexpr(op == Number)
    {
        // figures up to something else; there are at most 4
        unsigned v = 5, want = 0;
        while(!m.end() && space(m.c[m.pos])) m.pos++;
        const int from = m.pos;
        while(!m.end() && m.c[m.pos] >= '0' && m.c[m.pos] <= '9') want = want * 10 + (m.c[m.pos++] - '0');
        if(m.end()) m.state |= ios_base::eofbit;
        if(m.pos == from) m.state |= ios_base::failbit;
        OBL_REQUIRE(&(i >> v) == &i);
        OBL_REQUIRE(v == want);
        m.count = i.gcount();
    }
    else if constexpr(op == Sync) OBL_REQUIRE(&i.sync() == &i);
    else if constexpr(op >= Ignore && op < IgnoreTo)
    {
        m.count = 0;
        for(int j = 0; j < k; j++)
        {
            if(m.end()) { m.state |= ios_base::failbit * 0 | ios_base::eofbit; break; }
            m.pos++, m.count++;
        }
        i.ignore(k);
        m.state |= i.rdstate() & ios_base::failbit;      // left open
    }
    else if constexpr(op >= IgnoreTo && op < Read)
    {
        m.count = 0;
        for(int j = 0; j < k; j++)
        {
            if(m.end()) { m.state |= ios_base::eofbit; break; }
            m.count++;
            if(m.c[m.pos++] == Delim) break;
        }
        i.ignore(k, Delim);
        m.state |= i.rdstate() & ios_base::failbit;
    }
    else if constexpr(op >= Read && op < Some)
    {
        const int left = m.n - m.pos;
        m.count = k < left ? k : left;
        if(k > left) m.state |= ios_base::failbit | ios_base::eofbit;
        OBL_REQUIRE(&i.read(b + 1, k) == &i);
        for(int j = 0; j < 12; j++) OBL_REQUIRE(b[j] == (j >= 1 && j < 1 + m.count ? m.c[m.pos + j - 1] : g));
        m.pos += m.count;
    }
    else if constexpr(op >= Some && op < Line)
    {
        const int left = m.n - m.pos;
        m.count = k < left ? k : left;
        const int r = i.readsome(b + 1, k);
        OBL_REQUIRE(r == m.count);
        for(int j = 0; j < 12; j++) OBL_REQUIRE(b[j] == (j >= 1 && j < 1 + m.count ? m.c[m.pos + j - 1] : g));
        m.pos += m.count;
        m.state |= i.rdstate() & ios_base::eofbit;
    }
    else if constexpr(op >= Line && op < Tell)
    {
        // room for k characters, the terminator among them
        constexpr char delim = op < LineTo ? '\n' : Delim;
        int n = 0;
        m.count = 0;
        char want[8];
        for(;;)
        {
            if(m.end()) { m.state |= ios_base::eofbit; if(m.count == 0) m.state |= ios_base::failbit; break; }
            if(m.c[m.pos] == delim) { m.pos++, m.count++; break; }
            if(n + 1 >= k) { m.state |= ios_base::failbit; break; }
            want[n++] = m.c[m.pos++], m.count++;
        }
        want[n] = 0;
        if constexpr(op < LineTo) OBL_REQUIRE(&i.getline(b + 1, k) == &i);
        else OBL_REQUIRE(&i.getline(b + 1, k, delim) == &i);
        for(int j = 0; j < 12; j++) OBL_REQUIRE(b[j] == (j >= 1 && j < 2 + n ? want[j - 1] : g));
    }
    else if constexpr(op == Clear) { m.state = 0; i.clear(); }
    else if constexpr(op == Begin || op == Second)
    {
        if(op == Begin || m.n >= 2)
        {
            m.pos = op == Begin ? 0 : 2;
            OBL_REQUIRE(&i.seekg(m.pos, ios_base::beg) == &i);
            m.state &= ~ios_base::failbit;
        }
    }
    OBL_REQUIRE(i.rdstate() == m.state);
    OBL_REQUIRE(i.gcount() == m.count);
}
template <char c> static inline char like(char x)
{
    if constexpr(c == 'a') return 'a' + (unsigned char)x % 26;      // any letter
    else if constexpr(c == 'd') return '0' + (unsigned char)x % 10; // a figure
    else if constexpr(c == 'b') return x;                          // anything
    else return c;
}

namespace oblt {
// content (up to 5 characters) shaped like c0...
template <char c0, char c1, char c2, char c3, char c4, int... ops> void reads(char g, char x0, char x1, char x2, char x3, char x4)
{
    constexpr int n = c0 == 0 ? 0 : c1 == 0 ? 1 : c2 == 0 ? 2 : c3 == 0 ? 3 : c4 == 0 ? 4 : 5;
    M m = {{like<c0>(x0), like<c1>(x1), like<c2>(x2), like<c3>(x3), like<c4>(x4)}, n};
    char a[5] = {m.c[0], m.c[1], m.c[2], m.c[3], m.c[4]};
    estd::detail::ispanstream i{estd::span<char>(a, n)};
    OBL_REQUIRE(i.good() && i.gcount() == 0);
    (step<ops>(i, m, g), ...);
    OBL_REQUIRE(i.rdbuf()->gptr() == a + m.pos);
    OBL_END;
}
}
#define R(...) (void*)&oblt::reads<__VA_ARGS__>
#define A5 'a','a','a','a','a'
#define B0 0,0,0,0,0
#define B1 'b',0,0,0,0
#define B2 'b','b',0,0,0
#define B3 'b','b','b',0,0
#define B5 'b','b','b','b','b'
#define BLOCK0(op) R(B0, op), R(B1, op), R(B2, op, Get), R(B3, op, Peek), R(B5, op, op, Get), R(B3, Get, op, Get), R(B3, op, op), R(B2, Get, Get, op), R(B3, op, Unget, Get)
#if SHARD == 3
OBL_INSTANCES(unformatted, BLOCK0(Get), BLOCK0(Peek), BLOCK0(Unget), BLOCK0(Sync), BLOCK0(Ignore), BLOCK0(Ignore + 1), BLOCK0(Ignore + 2), BLOCK0(Ignore + 3), BLOCK0(Ignore + 6),
  BLOCK0(Read), BLOCK0(Read + 1), BLOCK0(Read + 2), BLOCK0(Read + 3), BLOCK0(Read + 6), BLOCK0(Some), BLOCK0(Some + 1), BLOCK0(Some + 2), BLOCK0(Some + 3), BLOCK0(Some + 6), BLOCK0(Begin), BLOCK0(Second))
#endif
#if SHARD == 4
#define D ';'
#define N '\n'
#define BLOCK(op, d) R(B0, op), R(d,0,0,0,0, op, Get), R('a',0,0,0,0, op), R('a',d,0,0,0, op, Get), R('a','a',d,'b',0, op, Get), R('a','a','a','a',0, op, Get), R('a','a',d,'a',d, op, op, Get), \
  R(d,d,'a',0,0, op, op, op), R('a','a','a',d,'a', op, op, Get), R('a','a','a','a',d, Get, op, Unget, Get), R('a',d,'b','b',0, op, Begin, Get)
OBL_INSTANCES(lines, BLOCK(IgnoreTo, D), BLOCK(IgnoreTo + 1, D), BLOCK(IgnoreTo + 2, D), BLOCK(IgnoreTo + 3, D), BLOCK(IgnoreTo + 9, D),
  BLOCK(Line + 1, N), BLOCK(Line + 2, N), BLOCK(Line + 3, N), BLOCK(Line + 4, N), BLOCK(Line + 8, N), BLOCK(LineTo + 2, D), BLOCK(LineTo + 3, D), BLOCK(LineTo + 4, D), BLOCK(LineTo + 8, D))
#define SP(op, ...) R(B0, op), R(' ',0,0,0,0, op), R('a',0,0,0,0, op), R(' ','\n','a',0,0, op, Get), R('\t','a',' ','a',0, op, Get), R('a',' ','\r','a',' ', op, Get), R('\v','\f','a','a','a', op, Get), R('a','a','a',' ','b', op, Get)
OBL_INSTANCES(words, SP(Ws), SP(Char), SP(Text), R(' ','a','a',' ','a', Text, Text), R('a',' ','a',' ',' ', Char, Char, Ws), R('a',' ','a',' ','a', Text, Char, Text), R('a',' ','b',0,0, Ws, Text, Get, Get),
  R('\0','a',0,0,0, Char, Char), R(char(255),'a',0,0,0, Char, Char), R(char(255),char(255),' ',char(255),0, Text, Text))
OBL_INSTANCES(numbers, R('d',0,0,0,0, Number), R('d','d',0,0,0, Number), R(' ','d','d','a','b', Number, Get), R('d','d',' ','d','d', Number, Number), R('a','d',0,0,0, Number, Clear, Get), R(' ',0,0,0,0, Number), R(B0, Number), R('d','d','d','d',' ', Number, Get), R('d',D,'d',0,0, Number, Get, Number))
#endif
