// std: 17
// thorough: 20
// min: 250
// peel: 1
// rounds: 12
// shards: 1 2
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/iomanip.h>
#include <estd/span.h>
#include "obl.h"

using estd::ios_base;
constexpr unsigned long long power(unsigned base, unsigned e) { unsigned long long r = 1; while(e--) r *= base; return r; }
constexpr char letter(int d, bool upper = false) { return d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10); }
template <class T> constexpr bool is_signed_v = T(-1) < T(0);

// what should have been put out: n characters, of which the first cap fit; then the state of formatting
struct M
{
    char c[48];
    int n = 0, width = 0;
    char fill = ' ';
    bool left = false;
    unsigned base = 10;
    bool upper = false;
    void put(char x) { c[n++] = x; }
    // text of len characters padded to the width
    void padded(const char* t, int len)
    {
        const int pad = width > len ? width - len : 0;
        if(!left) for(int i = 0; i < pad; i++) put(fill);
        for(int i = 0; i < len; i++) put(t[i]);
        if(left) for(int i = 0; i < pad; i++) put(fill);
        width = 0;
    }
};
// data of the steps
struct In { char c[4]; int v; };

enum { PutC, InsC, InsString, InsSized, InsConstString, Dec, Hex, Oct, Upper, Right, Left, NoAdjust, Endl, Flush, SetBase8, SetBase10, SetBase16,
       Text = 20, Write = 24, Width = 30, SetW = 50, Fill = 100, SetFill = 400,
       Int1 = 700, Int2, Int3, Neg1, Neg2, Neg3, Short2, UChar1, UChar2, ULong2, IntMin, UMax, Zero, NegConst, HexFF, HexFL, HexLF, HexLL, HexULL };

// digits of a hexadecimal number are either figures or letters
template <bool figures> static inline unsigned nibble(unsigned v) { return figures ? v % 10 : 10 + v % 6; }
template <class T, class O> static inline void integer(O& o, M& m, T v, int digits, bool neg)
{
    char t[24];
    int n = 0;
    if(neg) t[n++] = '-';
    const unsigned long long a = neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v;
    for(int i = digits; i--;) t[n++] = letter(a / power(m.base, i) % m.base, m.upper);
    m.padded(t, n);
    o << v;
}
// a T of so many digits, from v
template <class T, int digits, bool neg> static inline T shaped(unsigned base, int v)
{
    const unsigned lo = digits == 1 ? (neg ? 1 : 0) : power(base, digits - 1), hi = power(base, digits);
    const unsigned x = lo + (unsigned)v % (hi - lo);
    return neg ? T(-(int)x) : T(x);
}

template <int op, class O> static inline void step(O& o, M& m, const In& in)
{
    if constexpr(op == PutC) { m.put(in.c[0]); OBL_REQUIRE(&o.put(in.c[0]) == &o); }
    else if constexpr(op == InsC) { m.padded(in.c, 1); OBL_REQUIRE(&(o << in.c[0]) == &o); }
    else if constexpr(op >= Text && op < Write)
    {
        char t[4] = {};
        for(int i = 0; i < op - Text; i++) t[i] = char(1 + (unsigned char)in.c[i] % 255), m.put(t[i]);
        OBL_REQUIRE(&(o << t) == &o);
    }
    else if constexpr(op == InsString)
    {
        estd::layer1::string<4> s;
        s += 'q'; s += 'r';
        m.put('q'); m.put('r');
        OBL_REQUIRE(&(o << s) == &o);
    }
    else if constexpr(op == InsSized)
    {
        estd::layer1::string<4, false> s;
        s.push_back(in.c[0]); s.push_back(in.c[1]); s.push_back(in.c[2]);
        for(int i = 0; i < 3; i++) m.put(in.c[i]);
        OBL_REQUIRE(&(o << s) == &o);
    }
    else if constexpr(op == InsConstString)
    {
        estd::layer2::const_string s = "xyz";
        m.put('x'); m.put('y'); m.put('z');
        OBL_REQUIRE(&(o << s) == &o);
    }
    else if constexpr(op == Dec) { m.base = 10; o << estd::dec; }
    else if constexpr(op == Hex) { m.base = 16; o << estd::hex; }
    else if constexpr(op == Oct) { m.base = 8; o.setf(ios_base::oct, ios_base::basefield); }
    else if constexpr(op == SetBase8) { m.base = 8; o << estd::setbase(8); }
    else if constexpr(op == SetBase10) { m.base = 10; o << estd::setbase(10); }
    else if constexpr(op == SetBase16) { m.base = 16; o << estd::setbase(16); }
    else if constexpr(op == Upper) { m.upper = true; o.setf(ios_base::uppercase); }
    else if constexpr(op == Right) { m.left = false; o.setf(ios_base::right, ios_base::adjustfield); }
    else if constexpr(op == Left) { m.left = true; o.setf(ios_base::left, ios_base::adjustfield); }
    else if constexpr(op == NoAdjust) { m.left = false; o.unsetf(ios_base::adjustfield); }
    else if constexpr(op == Endl) { m.put('\n'); OBL_REQUIRE(&(o << estd::endl) == &o); }
    else if constexpr(op == Flush) { OBL_REQUIRE(&o.flush() == &o); }
    else if constexpr(op >= Write && op < Write + 4)
    {
        for(int i = 0; i < op - Write; i++) m.put(in.c[i]);
        OBL_REQUIRE(&o.write(in.c, op - Write) == &o);
    }
    else if constexpr(op >= Width && op < SetW)
    {
        OBL_REQUIRE(o.width() == m.width);
        OBL_REQUIRE(o.width(op - Width) == m.width);
        m.width = op - Width;
        OBL_REQUIRE(o.width() == m.width);
    }
    else if constexpr(op >= SetW && op < Fill) { m.width = op - SetW; OBL_REQUIRE(&(o << estd::setw(op - SetW)) == &o); }
    else if constexpr(op >= Fill && op < SetFill)
    {
        OBL_REQUIRE(o.fill() == m.fill);
        OBL_REQUIRE(o.fill(char(op - Fill)) == m.fill);
        m.fill = char(op - Fill);
        OBL_REQUIRE(o.fill() == m.fill);
    }
    else if constexpr(op >= SetFill && op < Int1) { m.fill = char(op - SetFill); OBL_REQUIRE(&(o << estd::setfill(char(op - SetFill))) == &o); }
    else if constexpr(op == Int1) integer(o, m, shaped<int, 1, false>(m.base, in.v), 1, false);
    else if constexpr(op == Int2) integer(o, m, shaped<int, 2, false>(m.base, in.v), 2, false);
    else if constexpr(op == Int3) integer(o, m, shaped<int, 3, false>(m.base, in.v), 3, false);
    else if constexpr(op == Neg1) integer(o, m, shaped<int, 1, true>(m.base, in.v), 1, true);
    else if constexpr(op == Neg2) integer(o, m, shaped<int, 2, true>(m.base, in.v), 2, true);
    else if constexpr(op == Neg3) integer(o, m, shaped<int, 3, true>(m.base, in.v), 3, true);
    else if constexpr(op == Short2) integer(o, m, shaped<short, 2, false>(m.base, in.v), 2, false);
    else if constexpr(op == UChar1) integer(o, m, shaped<unsigned char, 1, false>(m.base, in.v), 1, false);
    else if constexpr(op == UChar2) integer(o, m, shaped<unsigned char, 2, false>(m.base, in.v), 2, false);
    else if constexpr(op == ULong2) integer(o, m, shaped<unsigned long, 2, false>(m.base, in.v), 2, false);
    else if constexpr(op == IntMin) integer(o, m, -2147483647 - 1, 10, true);
    else if constexpr(op == UMax) integer(o, m, ~0ull, 20, false);
    else if constexpr(op == NegConst) integer(o, m, -163, 3, true);
    else if constexpr(op == HexFF) integer(o, m, 3 * 16 + nibble<true>(in.v), 2, false);
    else if constexpr(op == HexFL) integer(o, m, int(256 + nibble<true>(in.v >> 8) * 16 + nibble<false>((unsigned char)in.v)), 3, false);
    else if constexpr(op == HexLF) integer(o, m, nibble<false>((unsigned)in.v >> 8) * 16 + nibble<true>((unsigned char)in.v), 2, false);
    else if constexpr(op == HexLL) integer(o, m, (unsigned char)(nibble<false>((unsigned)in.v >> 8) * 16 + nibble<false>((unsigned char)in.v)), 2, false);
    else if constexpr(op == HexULL) integer(o, m, 0xfedcba9876543210ull, 16, false);
    else if constexpr(op == Zero) integer(o, m, 0, 1, false);
}

// a sink of cap characters
struct Buf { char g0; char b[48]; char g1; };

namespace oblt {
#if SHARD == 1
// everything fits
template <int... ops> void all_of_it(char g, char c0, char c1, char c2, int v)
{
    Buf a;
    a.g0 = a.g1 = g;
    M m;
    const In in = {{c0, c1, c2, g}, v};
    estd::detail::ospanstream o{estd::span<char>(a.b, 48)};
    (step<ops>(o, m, in), ...);
    OBL_REQUIRE(o.good() && !o.fail() && !o.bad() && !o.eof() && bool(o));
    OBL_REQUIRE(o.rdbuf()->pptr() == a.b + m.n);
    for(int i = 0; i < m.n; i++) OBL_REQUIRE(a.b[i] == m.c[i]);
    OBL_REQUIRE(o.width() == m.width && o.fill() == m.fill);
    OBL_REQUIRE(a.g0 == g && a.g1 == g);
    OBL_END;
}
#endif
#if SHARD == 2
// only cap characters fit: those are put, and the loss is reported
template <int cap, int... ops> void some_of_it(char g, char c0, char c1, char c2, int v)
{
    Buf a;
    for(int i = 0; i < 48; i++) a.b[i] = g;
    M m;
    const In in = {{c0, c1, c2, g}, v};
    estd::detail::ospanstream o{estd::span<char>(a.b, cap)};
    (step<ops>(o, m, in), ...);
    OBL_REQUIRE(o.fail() == (m.n > cap) && o.good() == (m.n <= cap) && bool(o) == (m.n <= cap));
    const int n = m.n > cap ? cap : m.n;
    OBL_REQUIRE(o.rdbuf()->pptr() == a.b + n);
    for(int i = 0; i < n; i++) OBL_REQUIRE(a.b[i] == m.c[i]);
    for(int i = n; i < 48; i++) OBL_REQUIRE(a.b[i] == g);
    OBL_END;
}
#endif
}
#define A(...) (void*)&oblt::all_of_it<__VA_ARGS__>
#define S(...) (void*)&oblt::some_of_it<__VA_ARGS__>
#if SHARD == 1
OBL_INSTANCES(one, A(PutC), A(InsC), A(Text), A(Text + 1), A(Text + 3), A(InsString), A(InsSized), A(InsConstString), A(Endl), A(Flush), A(Write), A(Write + 1), A(Write + 3),
    A(Int1), A(Int2), A(Int3), A(Neg1), A(Neg2), A(Neg3), A(Short2), A(UChar1), A(UChar2), A(ULong2), A(IntMin), A(UMax), A(Zero))
// numbers in every base and case
#define X(op) A(Hex, op), A(SetBase16, op), A(Hex, Upper, op), A(SetBase16, Upper, op, PutC), A(Oct, Hex, op)
#define B(op) A(Oct, op), A(SetBase8, op), A(Hex, SetBase10, op), A(Hex, Dec, op), A(Hex, SetBase8, op), A(Oct, SetBase10, Upper, op)
OBL_INSTANCES(based, B(Int1), B(Int2), B(ULong2), B(UChar1), B(UChar2), B(Zero), B(NegConst), X(Zero), X(HexFF), X(HexFL), X(HexLF), X(HexLL), X(HexULL), A(Hex, SetW + 6, SetFill + '0', HexFL, HexLL))
#undef B
#undef X
// padding: on the right side, with the fill character, once
#define W(w, op) A(Width + w, op), A(SetW + w, Left, op, PutC), A(SetW + w, Left, op), A(SetW + w, NoAdjust, op), A(Left, Right, Fill + '*', SetW + w, op, op), \
    A(Fill + 'X', Width + w, op), A(SetFill + '0', SetW + w, op, PutC), A(SetFill + '_', Left, SetW + w, op, op), A(SetFill + '@', SetFill + ' ', SetW + w, PutC, op)
OBL_INSTANCES(padded, W(0, InsC), W(1, InsC), W(2, InsC), W(5, InsC), W(0, Int2), W(2, Int2), W(3, Int2), W(6, Int2), W(1, Neg2), W(3, Neg2), W(4, Neg2), W(7, Neg1), W(5, Zero))
#undef W
// all kinds of insertions after one another
#define H(a) A(a, PutC, InsC, Text + 2), A(InsC, a, Write + 2, Int2), A(Int1, Text + 1, a), A(SetW + 4, a, a), A(Endl, a, Flush, InsSized)
OBL_INSTANCES(mixed, H(PutC), H(InsC), H(Text + 2), H(Write + 3), H(InsString), H(InsSized), H(InsConstString), H(Endl), H(Int2), H(Neg1), H(UMax))
#undef H
#endif
#if SHARD == 2
#define C(...) S(0, __VA_ARGS__), S(1, __VA_ARGS__), S(2, __VA_ARGS__), S(3, __VA_ARGS__), S(4, __VA_ARGS__)
OBL_INSTANCES(full, C(PutC, PutC), C(InsC, InsC, InsC), C(Text + 3), C(Text + 2, PutC), C(Write + 3), C(Write + 1, Write + 2), C(Int3), C(Neg3), C(Zero, Int2), C(Endl, PutC), C(PutC, Endl),
    C(InsString, PutC), C(InsSized), C(InsConstString, InsC), C(SetW + 3, InsC), C(SetW + 4, Left, Int2), C(SetW + 4, Int2), C(Flush, PutC), C(PutC, Int2, Text + 1))
#undef C
#endif
