// std: 17
// thorough: 20
// min: 1700
// shards: 1 2 3
// peel: 8
// rounds: 8
#include <estd/locale.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/sstream.h>
#include "obl.h"

template <class T> constexpr bool is_signed_v = T(-1) < T(0);
template <class T> constexpr unsigned long long max_v = is_signed_v<T> ? (1ull << (sizeof(T) * 8 - 1)) - 1 : ~0ull >> (64 - sizeof(T) * 8);
constexpr unsigned long long power(unsigned base, unsigned e) { unsigned long long r = 1; while(e--) r *= base; return r; }
constexpr unsigned digits_of(unsigned base, unsigned long long v) { unsigned r = 1; while(v >= base) { v /= base; ++r; } return r; }
constexpr char letter(int d, bool upper = false) { return d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10); }

using estd::ios_base;
constexpr ios_base::fmtflags radix(unsigned base) { return base == 16 ? ios_base::hex : base == 8 ? ios_base::oct : ios_base::dec; }
typedef estd::num_get<char, const char*, estd::internal::classic_locale_type> Get;
struct Stream : estd::detail::basic_istream<estd::layer1::stringbuf<4>> {};

// what stands behind the digits, 0: the end
enum : int { End = -1 };
static inline ios_base::iostate at_end(int after) { return after == End ? ios_base::eofbit : ios_base::goodbit; }

namespace oblt {
// via: 0 num_get with flags, 1 num_get with a stream's flags
template <class T, unsigned base, int via> static inline const char* get(const char* first, const char* last, ios_base::iostate& err, T& v)
{
    Get g;
    if constexpr(via == 0) return g.get(first, last, radix(base), err, v);
    else
    {
        Stream s;
        s.setf(radix(base), ios_base::basefield);
        return g.get(first, last, s, err, v);
    }
}
template <class T, unsigned base, int via, int n, bool neg, int after>
void fits(unsigned char a, unsigned char b, unsigned char c, char y)
{
    const unsigned char dig[3] = {(unsigned char)(a % base), (unsigned char)(b % base), (unsigned char)(c % base)};
    char t[6];
    T want = 0, v = 55;
    if(neg) t[0] = '-';
    for(int i = 0; i < n; i++)
    {
        t[i + neg] = '0' + dig[i];
        want = want * base + (neg ? -dig[i] : dig[i]);
    }
    constexpr int len = n + neg;
    t[len] = after == End ? y : char(after);
    t[len + 1] = y;
    ios_base::iostate err = 0;
    const char* r = get<T, base, via>(t, t + len + (after == End ? 0 : 2), err, v);
    OBL_REQUIRE(r == t + len);
    OBL_REQUIRE(err == at_end(after));
    OBL_REQUIRE(v == want);
    OBL_END;
}
template <class T, unsigned base, int via, bool neg, unsigned place, unsigned other, unsigned digit, bool upper>
void letters(char y)
{
    char t[5];
    T want = 0, v = 77;
    if(neg) t[0] = '-';
    for(unsigned i = 0; i < 3; i++)
    {
        const int d = i == place ? digit : other;
        t[i + neg] = letter(d, upper);
        want = want * base + (neg ? -d : d);
    }
    t[3 + neg] = y;
    ios_base::iostate err = 0;
    const char* r = get<T, base, via>(t, t + 3 + neg, err, v);
    OBL_REQUIRE(r == t + 3 + neg);
    OBL_REQUIRE(err == ios_base::eofbit);
    OBL_REQUIRE(v == want);
    OBL_END;
}
// nothing to convert: n characters of x (and a sign first), then y which is not to be looked at
template <class T, unsigned base, int via, bool neg, int x>
void none(char y, T before)
{
    char t[4] = {'-', y, y, y};
    if(x != End) t[neg] = x, t[neg + 1] = '1';
    T v = before;
    ios_base::iostate err = 0;
    const char* r = get<T, base, via>(t, t + neg + (x == End ? 0 : 2), err, v);
    OBL_REQUIRE(r == t + neg);
    OBL_REQUIRE(err == (ios_base::failbit | at_end(x)));
    OBL_REQUIRE(v == 0);
    OBL_END;
}
template <class T, unsigned base, int via, bool neg, int over, int digit, int after>
void limit(char y)
{
    constexpr unsigned long long top = max_v<T> + (neg ? 1 : 0);
    unsigned long long head = top / base + (over == 1 ? 1 : 0);
    const int n = digits_of(base, head);
    char t[72];
    if(neg) t[0] = '-';
    for(int i = n; i--; head /= base) t[neg + i] = letter(head % base);
    t[neg + n] = letter(digit);
    int len = neg + n + 1;
    if(over >= 2) t[len++] = '0';
    if(over >= 3) t[len++] = letter(base - 1);
    t[len] = after == End ? y : char(after);
    t[len + 1] = y;
    T v = 55;
    ios_base::iostate err = 0;
    const char* r = get<T, base, via>(t, t + len + (after == End ? 0 : 2), err, v);
    OBL_REQUIRE(r == t + len);
    if(over == 0 && digit <= int(top % base))
    {
        OBL_REQUIRE(err == at_end(after));
        OBL_REQUIRE(v == T(neg ? -(top / base * base + digit) : top / base * base + digit));
    }
    else
    {
        OBL_REQUIRE(err == (ios_base::failbit | at_end(after)));
        OBL_REQUIRE(v == T(neg ? -top : top));      // the limit passed
    }
    OBL_END;
}

// adjust: 0 right, 1 left, 2 none
template <class T, unsigned base, unsigned n, bool neg, int adjust, unsigned width>
void put(T v, char fill, char g0, char g1)
{
    const unsigned long long top = max_v<T> + (neg ? 1 : 0);
    const unsigned long long lo = n == 1 ? (neg ? 1 : 0) : power(base, n - 1);
    const unsigned long long hi = n >= digits_of(base, top) ? top : power(base, n) - 1;
    OBL_ASSUME(neg ? v <= T(-lo) && v >= T(-hi) : v >= T(lo) && v <= T(hi));
    constexpr unsigned len = n + neg, all = width > len ? width : len, pad = all - len;
    char b[all + 2];
    b[0] = g0; b[all + 1] = g1;
    ios_base f;
    f.setf(radix(base), ios_base::basefield);
    f.setf(adjust == 0 ? ios_base::right : adjust == 1 ? ios_base::left : 0, ios_base::adjustfield);
    f.width(width);
    estd::num_put<char, char*> p;
    char* r = p.put(b + 1, f, fill, v);
    OBL_REQUIRE(r == b + 1 + all);
    const char* text = b + 1 + (adjust == 1 ? 0 : pad);
    for(unsigned i = 0; i < pad; i++) OBL_REQUIRE(b[1 + (adjust == 1 ? len : 0) + i] == fill);
    if(neg) OBL_REQUIRE(text[0] == '-');
    for(unsigned i = 0; i < n; i++)
    {
        const char c = text[neg + n - 1 - i];
        const T q = v / T(power(base, i)) % T(base);
        OBL_REQUIRE(c == letter(neg ? -int(q) : int(q)) || (neg && c == letter(int(-(unsigned long long)v / power(base, i) % base))) || (neg && c == letter(int(T(-v) / T(power(base, i)) % T(base)))));
    }
    OBL_REQUIRE(b[0] == g0 && b[all + 1] == g1);
    OBL_END;
}
template <class T, unsigned n, bool neg, unsigned place, unsigned other, unsigned digit, bool upper, unsigned width>
void put_hex(char fill, char g0, char g1)
{
    unsigned long long m = 0;
    for(unsigned i = n; i--;) m = m * 16 + (i == place ? digit : other);
    constexpr unsigned len = n + neg, all = width > len ? width : len, pad = all - len;
    char b[all + 2];
    b[0] = g0; b[all + 1] = g1;
    ios_base f;
    f.setf(ios_base::hex, ios_base::basefield);
    if(upper) f.setf(ios_base::uppercase);
    f.width(width);
    char* r = estd::num_put<char, char*>().put(b + 1, f, fill, neg ? T(-m) : T(m));
    OBL_REQUIRE(r == b + 1 + all);
    for(unsigned i = 0; i < pad; i++) OBL_REQUIRE(b[1 + i] == fill);
    if(neg) OBL_REQUIRE(b[1 + pad] == '-');
    for(unsigned i = 0; i < n; i++) OBL_REQUIRE(b[1 + pad + neg + n - 1 - i] == letter(m / power(16, i) % 16, upper));
    OBL_REQUIRE(b[0] == g0 && b[all + 1] == g1);
    OBL_END;
}
template <bool alpha> void put_bool(bool v, char fill, char g0, char g1)
{
    char b[8] = {g0, g1, g1, g1, g1, g1, g1, g1};
    ios_base f;
    if(alpha) f.setf(ios_base::boolalpha);
    char* r = estd::num_put<char, char*>().put(b + 1, f, fill, v);
    if(!alpha) OBL_REQUIRE(r == b + 2 && b[1] == (v ? '1' : '0') && b[2] == g1);
    else if(v) OBL_REQUIRE(r == b + 5 && b[1] == 't' && b[2] == 'r' && b[3] == 'u' && b[4] == 'e' && b[5] == g1);
    else OBL_REQUIRE(r == b + 6 && b[1] == 'f' && b[2] == 'a' && b[3] == 'l' && b[4] == 's' && b[5] == 'e' && b[6] == g1);
    OBL_REQUIRE(b[0] == g0);
    OBL_END;
}

// floating point: constant texts, read to the last digit
template <class T, int which, bool stopped> void floating(char y)
{
    const struct { const char* s; int n; T v; } tab[] = {{"123.45", 6, T(123.45)}, {"-123.45678", 10, T(-123.45678)}, {"0.5", 3, T(.5)}, {"-.25", 4, T(-.25)}, {"7", 1, T(7)}, {"19.", 3, T(19)}, {"-2000.125", 9, T(-2000.125)}, {"0.0625", 6, T(.0625)}};
    char t[16];
    for(int i = 0; i < tab[which].n; i++) t[i] = tab[which].s[i];
    t[tab[which].n] = stopped ? (which == 4 ? ' ' : which == 5 || which == 0 ? '.' : 'x') : y;
    t[tab[which].n + 1] = '3';
    if(which == 4 && stopped) t[2] = '.';
    ios_base::iostate err = 0;
    T v = 55;
    const char* r = get<T, 10, 1>(t, t + tab[which].n + (stopped ? 2 : 0), err, v);
    OBL_REQUIRE(r == t + tab[which].n);
    OBL_REQUIRE(err == (stopped ? ios_base::goodbit : ios_base::eofbit));
    OBL_REQUIRE(v == tab[which].v || (sizeof(T) == 4 && which < 2));
    OBL_REQUIRE(v - tab[which].v < 0.0001 && tab[which].v - v < 0.0001);
    OBL_END;
}
template <int c> void boolean(char y)
{
    char t[3] = {char(c), y, y};
    ios_base::iostate err = 0;
    bool v = c == '0';
    const char* r = get<bool, 10, 1>(t, t + 2, err, v);
    OBL_REQUIRE(r == t + 1);
    OBL_REQUIRE(v == (c != '0'));
    OBL_REQUIRE(err == (c == '0' || c == '1' ? ios_base::goodbit : ios_base::failbit));
    OBL_END;
}
// which: 0 true, 1 false, others wrong
template <int which> void alpha(char y)
{
    const struct { const char* s; int n; bool good, v; } tab[] = {{"true", 4, true, true}, {"false", 5, true, false}, {"faKse", 2, false, false}, {"x", 0, false, false}, {"trux", 3, false, false}};
    char t[8] = {y, y, y, y, y, y, y, y};
    for(int i = 0; tab[which].s[i]; i++) t[i] = tab[which].s[i];
    Stream s;
    s.setf(ios_base::boolalpha);
    bool v = !tab[which].v;
    ios_base::iostate err = 0;
    const char* r = Get().get(t, t + 8, s, err, v);
    OBL_REQUIRE(err == (tab[which].good ? ios_base::goodbit : ios_base::failbit));
    OBL_REQUIRE(v == tab[which].v);
    OBL_REQUIRE(!tab[which].good || r == t + tab[which].n);
    OBL_END;
}
// character by character
template <class T, unsigned base, int which> void stepwise(char y)
{
    const struct { const char* s; long v; int n; bool fail; } tab[] = {{"17 ", 017, 2, false}, {"-7x", -7, 2, false}, {"x", 0, 0, true}, {"-x", 0, 1, true}, {"0077y", 077, 4, false}};
    estd::iterated::num_get<base, char, estd::internal::classic_locale_type> n;
    T v = 33;
    ios_base::iostate err = 0;
    int i = 0;
    while(!n.get(tab[which].s[i], err, v)) i++;
    OBL_REQUIRE(i == tab[which].n);
    OBL_REQUIRE(err == (tab[which].fail ? ios_base::failbit : ios_base::goodbit));
    OBL_REQUIRE(v == (base == 8 ? tab[which].v : which == 0 ? (base == 10 ? 17 : 0x17) : which == 4 ? (base == 10 ? 77 : 0x77) : tab[which].v));
    OBL_END;
}
}
using namespace oblt;
#define V (void*)

#if SHARD == 1
OBL_INSTANCES(fit, V fits<signed char, 10, 0, 1, false, End>, V fits<signed char, 10, 0, 1, false, ':'>, V fits<signed char, 10, 0, 1, false, 'a'>, V fits<signed char, 10, 1, 1, false, '.'>, V fits<signed char, 10, 1, 1, false, ' '>, V fits<signed char, 10, 1, 1, false, 0>, V fits<signed char, 10, 0, 1, true, End>, V fits<signed char, 10, 0, 1, true, ':'>, V fits<signed char, 10, 0, 1, true, 'a'>, V fits<signed char, 10, 1, 1, true, '.'>, V fits<signed char, 10, 1, 1, true, ' '>, V fits<signed char, 10, 1, 1, true, 0>, V fits<signed char, 10, 0, 2, false, End>, V fits<signed char, 10, 0, 2, false, ':'>, V fits<signed char, 10, 0, 2, false, 'a'>, V fits<signed char, 10, 1, 2, false, '.'>, V fits<signed char, 10, 1, 2, false, ' '>, V fits<signed char, 10, 1, 2, false, 0>, V fits<signed char, 10, 0, 2, true, End>, V fits<signed char, 10, 0, 2, true, ':'>, V fits<signed char, 10, 0, 2, true, 'a'>, V fits<signed char, 10, 1, 2, true, '.'>, V fits<signed char, 10, 1, 2, true, ' '>, V fits<signed char, 10, 1, 2, true, 0>, V fits<unsigned char, 10, 0, 1, false, '.'>, V fits<unsigned char, 10, 0, 1, false, ' '>, V fits<unsigned char, 10, 0, 1, false, 0>, V fits<unsigned char, 10, 1, 1, false, '/'>, V fits<unsigned char, 10, 1, 1, false, '-'>, V fits<unsigned char, 10, 1, 1, false, 255>, V fits<unsigned char, 10, 0, 2, false, '.'>, V fits<unsigned char, 10, 0, 2, false, ' '>, V fits<unsigned char, 10, 0, 2, false, 0>, V fits<unsigned char, 10, 1, 2, false, '/'>, V fits<unsigned char, 10, 1, 2, false, '-'>, V fits<unsigned char, 10, 1, 2, false, 255>, V fits<short, 10, 0, 1, false, '/'>, V fits<short, 10, 0, 1, false, '-'>, V fits<short, 10, 0, 1, false, 255>, V fits<short, 10, 1, 1, false, End>, V fits<short, 10, 1, 1, false, ':'>, V fits<short, 10, 1, 1, false, 'a'>, V fits<short, 10, 0, 1, true, '/'>, V fits<short, 10, 0, 1, true, '-'>, V fits<short, 10, 0, 1, true, 255>, V fits<short, 10, 1, 1, true, End>, V fits<short, 10, 1, 1, true, ':'>, V fits<short, 10, 1, 1, true, 'a'>, V fits<short, 10, 0, 3, false, '/'>, V fits<short, 10, 0, 3, false, '-'>, V fits<short, 10, 0, 3, false, 255>, V fits<short, 10, 1, 3, false, End>, V fits<short, 10, 1, 3, false, ':'>, V fits<short, 10, 1, 3, false, 'a'>, V fits<short, 10, 0, 2, true, '/'>, V fits<short, 10, 0, 2, true, '-'>, V fits<short, 10, 0, 2, true, 255>, V fits<short, 10, 1, 2, true, End>, V fits<short, 10, 1, 2, true, ':'>, V fits<short, 10, 1, 2, true, 'a'>, V fits<unsigned short, 10, 0, 1, false, End>, V fits<unsigned short, 10, 0, 1, false, ':'>, V fits<unsigned short, 10, 0, 1, false, 'a'>, V fits<unsigned short, 10, 1, 1, false, '.'>, V fits<unsigned short, 10, 1, 1, false, ' '>, V fits<unsigned short, 10, 1, 1, false, 0>, V fits<unsigned short, 10, 0, 3, false, End>, V fits<unsigned short, 10, 0, 3, false, ':'>, V fits<unsigned short, 10, 0, 3, false, 'a'>, V fits<unsigned short, 10, 1, 3, false, '.'>, V fits<unsigned short, 10, 1, 3, false, ' '>, V fits<unsigned short, 10, 1, 3, false, 0>, V fits<int, 10, 0, 1, false, '.'>, V fits<int, 10, 0, 1, false, ' '>, V fits<int, 10, 0, 1, false, 0>, V fits<int, 10, 1, 1, false, '/'>, V fits<int, 10, 1, 1, false, '-'>, V fits<int, 10, 1, 1, false, 255>, V fits<int, 10, 0, 1, true, '.'>, V fits<int, 10, 0, 1, true, ' '>, V fits<int, 10, 0, 1, true, 0>, V fits<int, 10, 1, 1, true, '/'>, V fits<int, 10, 1, 1, true, '-'>, V fits<int, 10, 1, 1, true, 255>, V fits<int, 10, 0, 3, false, '.'>, V fits<int, 10, 0, 3, false, ' '>, V fits<int, 10, 0, 3, false, 0>, V fits<int, 10, 1, 3, false, '/'>, V fits<int, 10, 1, 3, false, '-'>, V fits<int, 10, 1, 3, false, 255>, V fits<int, 10, 0, 3, true, '.'>, V fits<int, 10, 0, 3, true, ' '>, V fits<int, 10, 0, 3, true, 0>, V fits<int, 10, 1, 3, true, '/'>, V fits<int, 10, 1, 3, true, '-'>, V fits<int, 10, 1, 3, true, 255>, V fits<unsigned, 10, 0, 1, false, '/'>, V fits<unsigned, 10, 0, 1, false, '-'>, V fits<unsigned, 10, 0, 1, false, 255>, V fits<unsigned, 10, 1, 1, false, End>, V fits<unsigned, 10, 1, 1, false, ':'>, V fits<unsigned, 10, 1, 1, false, 'a'>, V fits<unsigned, 10, 0, 3, false, '/'>, V fits<unsigned, 10, 0, 3, false, '-'>, V fits<unsigned, 10, 0, 3, false, 255>, V fits<unsigned, 10, 1, 3, false, End>, V fits<unsigned, 10, 1, 3, false, ':'>, V fits<unsigned, 10, 1, 3, false, 'a'>, V fits<long, 10, 0, 1, false, End>, V fits<long, 10, 0, 1, false, ':'>, V fits<long, 10, 0, 1, false, 'a'>, V fits<long, 10, 1, 1, false, '.'>, V fits<long, 10, 1, 1, false, ' '>, V fits<long, 10, 1, 1, false, 0>, V fits<long, 10, 0, 1, true, End>, V fits<long, 10, 0, 1, true, ':'>, V fits<long, 10, 0, 1, true, 'a'>, V fits<long, 10, 1, 1, true, '.'>, V fits<long, 10, 1, 1, true, ' '>, V fits<long, 10, 1, 1, true, 0>, V fits<long, 10, 0, 3, false, End>, V fits<long, 10, 0, 3, false, ':'>, V fits<long, 10, 0, 3, false, 'a'>, V fits<long, 10, 1, 3, false, '.'>, V fits<long, 10, 1, 3, false, ' '>, V fits<long, 10, 1, 3, false, 0>, V fits<long, 10, 0, 3, true, End>, V fits<long, 10, 0, 3, true, ':'>, V fits<long, 10, 0, 3, true, 'a'>, V fits<long, 10, 1, 3, true, '.'>, V fits<long, 10, 1, 3, true, ' '>, V fits<long, 10, 1, 3, true, 0>, V fits<unsigned long, 10, 0, 1, false, '.'>, V fits<unsigned long, 10, 0, 1, false, ' '>, V fits<unsigned long, 10, 0, 1, false, 0>, V fits<unsigned long, 10, 1, 1, false, '/'>, V fits<unsigned long, 10, 1, 1, false, '-'>, V fits<unsigned long, 10, 1, 1, false, 255>, V fits<unsigned long, 10, 0, 3, false, '.'>, V fits<unsigned long, 10, 0, 3, false, ' '>, V fits<unsigned long, 10, 0, 3, false, 0>, V fits<unsigned long, 10, 1, 3, false, '/'>, V fits<unsigned long, 10, 1, 3, false, '-'>, V fits<unsigned long, 10, 1, 3, false, 255>, V fits<long long, 10, 0, 1, false, '/'>, V fits<long long, 10, 0, 1, false, '-'>, V fits<long long, 10, 0, 1, false, 255>, V fits<long long, 10, 1, 1, false, End>, V fits<long long, 10, 1, 1, false, ':'>, V fits<long long, 10, 1, 1, false, 'a'>, V fits<long long, 10, 0, 1, true, '/'>, V fits<long long, 10, 0, 1, true, '-'>, V fits<long long, 10, 0, 1, true, 255>, V fits<long long, 10, 1, 1, true, End>, V fits<long long, 10, 1, 1, true, ':'>, V fits<long long, 10, 1, 1, true, 'a'>, V fits<long long, 10, 0, 3, false, '/'>, V fits<long long, 10, 0, 3, false, '-'>, V fits<long long, 10, 0, 3, false, 255>, V fits<long long, 10, 1, 3, false, End>, V fits<long long, 10, 1, 3, false, ':'>, V fits<long long, 10, 1, 3, false, 'a'>, V fits<long long, 10, 0, 3, true, '/'>, V fits<long long, 10, 0, 3, true, '-'>, V fits<long long, 10, 0, 3, true, 255>, V fits<long long, 10, 1, 3, true, End>, V fits<long long, 10, 1, 3, true, ':'>, V fits<long long, 10, 1, 3, true, 'a'>)
OBL_INSTANCES(fit8, V fits<int, 8, 0, 2, false, End>, V fits<int, 8, 0, 2, false, '8'>, V fits<int, 8, 0, 2, false, '9'>, V fits<int, 8, 0, 2, false, '/'>, V fits<int, 8, 1, 2, false, End>, V fits<int, 8, 1, 2, false, '8'>, V fits<int, 8, 1, 2, false, '9'>, V fits<int, 8, 1, 2, false, '/'>, V fits<unsigned, 8, 0, 2, false, End>, V fits<unsigned, 8, 0, 2, false, '8'>, V fits<unsigned, 8, 0, 2, false, '9'>, V fits<unsigned, 8, 0, 2, false, '/'>, V fits<unsigned, 8, 1, 2, false, End>, V fits<unsigned, 8, 1, 2, false, '8'>, V fits<unsigned, 8, 1, 2, false, '9'>, V fits<unsigned, 8, 1, 2, false, '/'>, V fits<short, 8, 0, 2, false, End>, V fits<short, 8, 0, 2, false, '8'>, V fits<short, 8, 0, 2, false, '9'>, V fits<short, 8, 0, 2, false, '/'>, V fits<short, 8, 1, 2, false, End>, V fits<short, 8, 1, 2, false, '8'>, V fits<short, 8, 1, 2, false, '9'>, V fits<short, 8, 1, 2, false, '/'>)
OBL_INSTANCES(no, V none<signed char, 10, 0, false, End>, V none<signed char, 10, 0, false, '+'>, V none<signed char, 10, 0, false, '/'>, V none<signed char, 10, 0, false, ':'>, V none<signed char, 10, 0, false, '@'>, V none<signed char, 10, 0, false, 'G'>, V none<signed char, 10, 0, false, 'g'>, V none<signed char, 10, 0, false, ' '>, V none<signed char, 10, 0, false, 255>, V none<signed char, 10, 0, false, 0>, V none<signed char, 10, 1, false, End>, V none<signed char, 10, 1, false, '+'>, V none<signed char, 10, 1, false, '/'>, V none<signed char, 10, 1, false, ':'>, V none<signed char, 10, 1, false, '@'>, V none<signed char, 10, 1, false, 'G'>, V none<signed char, 10, 1, false, 'g'>, V none<signed char, 10, 1, false, ' '>, V none<signed char, 10, 1, false, 255>, V none<signed char, 10, 1, false, 0>, V none<signed char, 10, 0, true, End>, V none<signed char, 10, 0, true, '+'>, V none<signed char, 10, 0, true, '/'>, V none<signed char, 10, 0, true, ':'>, V none<signed char, 10, 0, true, '@'>, V none<signed char, 10, 0, true, 'G'>, V none<signed char, 10, 0, true, 'g'>, V none<signed char, 10, 0, true, ' '>, V none<signed char, 10, 0, true, 255>, V none<signed char, 10, 0, true, 0>, V none<signed char, 10, 0, true, '-'>, V none<signed char, 10, 1, true, End>, V none<signed char, 10, 1, true, '+'>, V none<signed char, 10, 1, true, '/'>, V none<signed char, 10, 1, true, ':'>, V none<signed char, 10, 1, true, '@'>, V none<signed char, 10, 1, true, 'G'>, V none<signed char, 10, 1, true, 'g'>, V none<signed char, 10, 1, true, ' '>, V none<signed char, 10, 1, true, 255>, V none<signed char, 10, 1, true, 0>, V none<signed char, 10, 1, true, '-'>, V none<unsigned char, 10, 0, false, End>, V none<unsigned char, 10, 0, false, '+'>, V none<unsigned char, 10, 0, false, '/'>, V none<unsigned char, 10, 0, false, ':'>, V none<unsigned char, 10, 0, false, '@'>, V none<unsigned char, 10, 0, false, 'G'>, V none<unsigned char, 10, 0, false, 'g'>, V none<unsigned char, 10, 0, false, ' '>, V none<unsigned char, 10, 0, false, 255>, V none<unsigned char, 10, 0, false, 0>, V none<unsigned char, 10, 0, false, '-'>, V none<unsigned char, 10, 1, false, End>, V none<unsigned char, 10, 1, false, '+'>, V none<unsigned char, 10, 1, false, '/'>, V none<unsigned char, 10, 1, false, ':'>, V none<unsigned char, 10, 1, false, '@'>, V none<unsigned char, 10, 1, false, 'G'>, V none<unsigned char, 10, 1, false, 'g'>, V none<unsigned char, 10, 1, false, ' '>, V none<unsigned char, 10, 1, false, 255>, V none<unsigned char, 10, 1, false, 0>, V none<unsigned char, 10, 1, false, '-'>, V none<short, 10, 0, false, End>, V none<short, 10, 0, false, '+'>, V none<short, 10, 0, false, '/'>, V none<short, 10, 0, false, ':'>, V none<short, 10, 0, false, '@'>, V none<short, 10, 0, false, 'G'>, V none<short, 10, 0, false, 'g'>, V none<short, 10, 0, false, ' '>, V none<short, 10, 0, false, 255>, V none<short, 10, 0, false, 0>, V none<short, 10, 1, false, End>, V none<short, 10, 1, false, '+'>, V none<short, 10, 1, false, '/'>, V none<short, 10, 1, false, ':'>, V none<short, 10, 1, false, '@'>, V none<short, 10, 1, false, 'G'>, V none<short, 10, 1, false, 'g'>, V none<short, 10, 1, false, ' '>, V none<short, 10, 1, false, 255>, V none<short, 10, 1, false, 0>, V none<short, 10, 0, true, End>, V none<short, 10, 0, true, '+'>, V none<short, 10, 0, true, '/'>, V none<short, 10, 0, true, ':'>, V none<short, 10, 0, true, '@'>, V none<short, 10, 0, true, 'G'>, V none<short, 10, 0, true, 'g'>, V none<short, 10, 0, true, ' '>, V none<short, 10, 0, true, 255>, V none<short, 10, 0, true, 0>, V none<short, 10, 0, true, '-'>, V none<short, 10, 1, true, End>, V none<short, 10, 1, true, '+'>, V none<short, 10, 1, true, '/'>, V none<short, 10, 1, true, ':'>, V none<short, 10, 1, true, '@'>, V none<short, 10, 1, true, 'G'>, V none<short, 10, 1, true, 'g'>, V none<short, 10, 1, true, ' '>, V none<short, 10, 1, true, 255>, V none<short, 10, 1, true, 0>, V none<short, 10, 1, true, '-'>, V none<short, 8, 0, false, End>, V none<short, 8, 0, false, '+'>, V none<short, 8, 0, false, '/'>, V none<short, 8, 0, false, ':'>, V none<short, 8, 0, false, '@'>, V none<short, 8, 0, false, 'G'>, V none<short, 8, 0, false, 'g'>, V none<short, 8, 0, false, ' '>, V none<short, 8, 0, false, 255>, V none<short, 8, 0, false, 0>, V none<short, 8, 1, false, End>, V none<short, 8, 1, false, '+'>, V none<short, 8, 1, false, '/'>, V none<short, 8, 1, false, ':'>, V none<short, 8, 1, false, '@'>, V none<short, 8, 1, false, 'G'>, V none<short, 8, 1, false, 'g'>, V none<short, 8, 1, false, ' '>, V none<short, 8, 1, false, 255>, V none<short, 8, 1, false, 0>, V none<short, 8, 0, true, End>, V none<short, 8, 0, true, '+'>, V none<short, 8, 0, true, '/'>, V none<short, 8, 0, true, ':'>, V none<short, 8, 0, true, '@'>, V none<short, 8, 0, true, 'G'>, V none<short, 8, 0, true, 'g'>, V none<short, 8, 0, true, ' '>, V none<short, 8, 0, true, 255>, V none<short, 8, 0, true, 0>, V none<short, 8, 0, true, '-'>, V none<short, 8, 1, true, End>, V none<short, 8, 1, true, '+'>, V none<short, 8, 1, true, '/'>, V none<short, 8, 1, true, ':'>, V none<short, 8, 1, true, '@'>, V none<short, 8, 1, true, 'G'>, V none<short, 8, 1, true, 'g'>, V none<short, 8, 1, true, ' '>, V none<short, 8, 1, true, 255>, V none<short, 8, 1, true, 0>, V none<short, 8, 1, true, '-'>, V none<unsigned short, 10, 0, false, End>, V none<unsigned short, 10, 0, false, '+'>, V none<unsigned short, 10, 0, false, '/'>, V none<unsigned short, 10, 0, false, ':'>, V none<unsigned short, 10, 0, false, '@'>, V none<unsigned short, 10, 0, false, 'G'>, V none<unsigned short, 10, 0, false, 'g'>, V none<unsigned short, 10, 0, false, ' '>, V none<unsigned short, 10, 0, false, 255>, V none<unsigned short, 10, 0, false, 0>, V none<unsigned short, 10, 0, false, '-'>, V none<unsigned short, 10, 1, false, End>, V none<unsigned short, 10, 1, false, '+'>, V none<unsigned short, 10, 1, false, '/'>, V none<unsigned short, 10, 1, false, ':'>, V none<unsigned short, 10, 1, false, '@'>, V none<unsigned short, 10, 1, false, 'G'>, V none<unsigned short, 10, 1, false, 'g'>, V none<unsigned short, 10, 1, false, ' '>, V none<unsigned short, 10, 1, false, 255>, V none<unsigned short, 10, 1, false, 0>, V none<unsigned short, 10, 1, false, '-'>, V none<unsigned short, 8, 0, false, End>, V none<unsigned short, 8, 0, false, '+'>, V none<unsigned short, 8, 0, false, '/'>, V none<unsigned short, 8, 0, false, ':'>, V none<unsigned short, 8, 0, false, '@'>, V none<unsigned short, 8, 0, false, 'G'>, V none<unsigned short, 8, 0, false, 'g'>, V none<unsigned short, 8, 0, false, ' '>, V none<unsigned short, 8, 0, false, 255>, V none<unsigned short, 8, 0, false, 0>, V none<unsigned short, 8, 0, false, '-'>, V none<unsigned short, 8, 1, false, End>, V none<unsigned short, 8, 1, false, '+'>, V none<unsigned short, 8, 1, false, '/'>, V none<unsigned short, 8, 1, false, ':'>, V none<unsigned short, 8, 1, false, '@'>, V none<unsigned short, 8, 1, false, 'G'>, V none<unsigned short, 8, 1, false, 'g'>, V none<unsigned short, 8, 1, false, ' '>, V none<unsigned short, 8, 1, false, 255>, V none<unsigned short, 8, 1, false, 0>, V none<unsigned short, 8, 1, false, '-'>, V none<int, 10, 0, false, End>, V none<int, 10, 0, false, '+'>, V none<int, 10, 0, false, '/'>, V none<int, 10, 0, false, ':'>, V none<int, 10, 0, false, '@'>, V none<int, 10, 0, false, 'G'>, V none<int, 10, 0, false, 'g'>, V none<int, 10, 0, false, ' '>, V none<int, 10, 0, false, 255>, V none<int, 10, 0, false, 0>, V none<int, 10, 1, false, End>, V none<int, 10, 1, false, '+'>, V none<int, 10, 1, false, '/'>, V none<int, 10, 1, false, ':'>, V none<int, 10, 1, false, '@'>, V none<int, 10, 1, false, 'G'>, V none<int, 10, 1, false, 'g'>, V none<int, 10, 1, false, ' '>, V none<int, 10, 1, false, 255>, V none<int, 10, 1, false, 0>, V none<int, 10, 0, true, End>, V none<int, 10, 0, true, '+'>, V none<int, 10, 0, true, '/'>, V none<int, 10, 0, true, ':'>, V none<int, 10, 0, true, '@'>, V none<int, 10, 0, true, 'G'>, V none<int, 10, 0, true, 'g'>, V none<int, 10, 0, true, ' '>, V none<int, 10, 0, true, 255>, V none<int, 10, 0, true, 0>, V none<int, 10, 0, true, '-'>, V none<int, 10, 1, true, End>, V none<int, 10, 1, true, '+'>, V none<int, 10, 1, true, '/'>, V none<int, 10, 1, true, ':'>, V none<int, 10, 1, true, '@'>, V none<int, 10, 1, true, 'G'>, V none<int, 10, 1, true, 'g'>, V none<int, 10, 1, true, ' '>, V none<int, 10, 1, true, 255>, V none<int, 10, 1, true, 0>, V none<int, 10, 1, true, '-'>, V none<int, 16, 0, false, End>, V none<int, 16, 0, false, '+'>, V none<int, 16, 0, false, '/'>, V none<int, 16, 0, false, ':'>, V none<int, 16, 0, false, '@'>, V none<int, 16, 0, false, 'G'>, V none<int, 16, 0, false, 'g'>, V none<int, 16, 0, false, ' '>, V none<int, 16, 0, false, 255>, V none<int, 16, 0, false, 0>, V none<int, 16, 1, false, End>, V none<int, 16, 1, false, '+'>, V none<int, 16, 1, false, '/'>, V none<int, 16, 1, false, ':'>, V none<int, 16, 1, false, '@'>, V none<int, 16, 1, false, 'G'>, V none<int, 16, 1, false, 'g'>, V none<int, 16, 1, false, ' '>, V none<int, 16, 1, false, 255>, V none<int, 16, 1, false, 0>, V none<int, 16, 0, true, End>, V none<int, 16, 0, true, '+'>, V none<int, 16, 0, true, '/'>, V none<int, 16, 0, true, ':'>, V none<int, 16, 0, true, '@'>, V none<int, 16, 0, true, 'G'>, V none<int, 16, 0, true, 'g'>, V none<int, 16, 0, true, ' '>, V none<int, 16, 0, true, 255>, V none<int, 16, 0, true, 0>, V none<int, 16, 0, true, '-'>, V none<int, 16, 1, true, End>, V none<int, 16, 1, true, '+'>, V none<int, 16, 1, true, '/'>, V none<int, 16, 1, true, ':'>, V none<int, 16, 1, true, '@'>, V none<int, 16, 1, true, 'G'>, V none<int, 16, 1, true, 'g'>, V none<int, 16, 1, true, ' '>, V none<int, 16, 1, true, 255>, V none<int, 16, 1, true, 0>, V none<int, 16, 1, true, '-'>, V none<unsigned, 10, 0, false, End>, V none<unsigned, 10, 0, false, '+'>, V none<unsigned, 10, 0, false, '/'>, V none<unsigned, 10, 0, false, ':'>, V none<unsigned, 10, 0, false, '@'>, V none<unsigned, 10, 0, false, 'G'>, V none<unsigned, 10, 0, false, 'g'>, V none<unsigned, 10, 0, false, ' '>, V none<unsigned, 10, 0, false, 255>, V none<unsigned, 10, 0, false, 0>, V none<unsigned, 10, 0, false, '-'>, V none<unsigned, 10, 1, false, End>, V none<unsigned, 10, 1, false, '+'>, V none<unsigned, 10, 1, false, '/'>, V none<unsigned, 10, 1, false, ':'>, V none<unsigned, 10, 1, false, '@'>, V none<unsigned, 10, 1, false, 'G'>, V none<unsigned, 10, 1, false, 'g'>, V none<unsigned, 10, 1, false, ' '>, V none<unsigned, 10, 1, false, 255>, V none<unsigned, 10, 1, false, 0>, V none<unsigned, 10, 1, false, '-'>, V none<unsigned, 16, 0, false, End>, V none<unsigned, 16, 0, false, '+'>, V none<unsigned, 16, 0, false, '/'>, V none<unsigned, 16, 0, false, ':'>, V none<unsigned, 16, 0, false, '@'>, V none<unsigned, 16, 0, false, 'G'>, V none<unsigned, 16, 0, false, 'g'>, V none<unsigned, 16, 0, false, ' '>, V none<unsigned, 16, 0, false, 255>, V none<unsigned, 16, 0, false, 0>, V none<unsigned, 16, 0, false, '-'>, V none<unsigned, 16, 1, false, End>, V none<unsigned, 16, 1, false, '+'>, V none<unsigned, 16, 1, false, '/'>, V none<unsigned, 16, 1, false, ':'>, V none<unsigned, 16, 1, false, '@'>, V none<unsigned, 16, 1, false, 'G'>, V none<unsigned, 16, 1, false, 'g'>, V none<unsigned, 16, 1, false, ' '>, V none<unsigned, 16, 1, false, 255>, V none<unsigned, 16, 1, false, 0>, V none<unsigned, 16, 1, false, '-'>, V none<long, 10, 0, false, End>, V none<long, 10, 0, false, '+'>, V none<long, 10, 0, false, '/'>, V none<long, 10, 0, false, ':'>, V none<long, 10, 0, false, '@'>, V none<long, 10, 0, false, 'G'>, V none<long, 10, 0, false, 'g'>, V none<long, 10, 0, false, ' '>, V none<long, 10, 0, false, 255>, V none<long, 10, 0, false, 0>, V none<long, 10, 1, false, End>, V none<long, 10, 1, false, '+'>, V none<long, 10, 1, false, '/'>, V none<long, 10, 1, false, ':'>, V none<long, 10, 1, false, '@'>, V none<long, 10, 1, false, 'G'>, V none<long, 10, 1, false, 'g'>, V none<long, 10, 1, false, ' '>, V none<long, 10, 1, false, 255>, V none<long, 10, 1, false, 0>, V none<long, 10, 0, true, End>, V none<long, 10, 0, true, '+'>, V none<long, 10, 0, true, '/'>, V none<long, 10, 0, true, ':'>, V none<long, 10, 0, true, '@'>, V none<long, 10, 0, true, 'G'>, V none<long, 10, 0, true, 'g'>, V none<long, 10, 0, true, ' '>, V none<long, 10, 0, true, 255>, V none<long, 10, 0, true, 0>, V none<long, 10, 0, true, '-'>, V none<long, 10, 1, true, End>, V none<long, 10, 1, true, '+'>, V none<long, 10, 1, true, '/'>, V none<long, 10, 1, true, ':'>, V none<long, 10, 1, true, '@'>, V none<long, 10, 1, true, 'G'>, V none<long, 10, 1, true, 'g'>, V none<long, 10, 1, true, ' '>, V none<long, 10, 1, true, 255>, V none<long, 10, 1, true, 0>, V none<long, 10, 1, true, '-'>, V none<unsigned long, 10, 0, false, End>, V none<unsigned long, 10, 0, false, '+'>, V none<unsigned long, 10, 0, false, '/'>, V none<unsigned long, 10, 0, false, ':'>, V none<unsigned long, 10, 0, false, '@'>, V none<unsigned long, 10, 0, false, 'G'>, V none<unsigned long, 10, 0, false, 'g'>, V none<unsigned long, 10, 0, false, ' '>, V none<unsigned long, 10, 0, false, 255>, V none<unsigned long, 10, 0, false, 0>, V none<unsigned long, 10, 0, false, '-'>, V none<unsigned long, 10, 1, false, End>, V none<unsigned long, 10, 1, false, '+'>, V none<unsigned long, 10, 1, false, '/'>, V none<unsigned long, 10, 1, false, ':'>, V none<unsigned long, 10, 1, false, '@'>, V none<unsigned long, 10, 1, false, 'G'>, V none<unsigned long, 10, 1, false, 'g'>, V none<unsigned long, 10, 1, false, ' '>, V none<unsigned long, 10, 1, false, 255>, V none<unsigned long, 10, 1, false, 0>, V none<unsigned long, 10, 1, false, '-'>, V none<long long, 10, 0, false, End>, V none<long long, 10, 0, false, '+'>, V none<long long, 10, 0, false, '/'>, V none<long long, 10, 0, false, ':'>, V none<long long, 10, 0, false, '@'>, V none<long long, 10, 0, false, 'G'>, V none<long long, 10, 0, false, 'g'>, V none<long long, 10, 0, false, ' '>, V none<long long, 10, 0, false, 255>, V none<long long, 10, 0, false, 0>, V none<long long, 10, 1, false, End>, V none<long long, 10, 1, false, '+'>, V none<long long, 10, 1, false, '/'>, V none<long long, 10, 1, false, ':'>, V none<long long, 10, 1, false, '@'>, V none<long long, 10, 1, false, 'G'>, V none<long long, 10, 1, false, 'g'>, V none<long long, 10, 1, false, ' '>, V none<long long, 10, 1, false, 255>, V none<long long, 10, 1, false, 0>, V none<long long, 10, 0, true, End>, V none<long long, 10, 0, true, '+'>, V none<long long, 10, 0, true, '/'>, V none<long long, 10, 0, true, ':'>, V none<long long, 10, 0, true, '@'>, V none<long long, 10, 0, true, 'G'>, V none<long long, 10, 0, true, 'g'>, V none<long long, 10, 0, true, ' '>, V none<long long, 10, 0, true, 255>, V none<long long, 10, 0, true, 0>, V none<long long, 10, 0, true, '-'>, V none<long long, 10, 1, true, End>, V none<long long, 10, 1, true, '+'>, V none<long long, 10, 1, true, '/'>, V none<long long, 10, 1, true, ':'>, V none<long long, 10, 1, true, '@'>, V none<long long, 10, 1, true, 'G'>, V none<long long, 10, 1, true, 'g'>, V none<long long, 10, 1, true, ' '>, V none<long long, 10, 1, true, 255>, V none<long long, 10, 1, true, 0>, V none<long long, 10, 1, true, '-'>)
#define EACH(F, ...) V F<__VA_ARGS__, 0>, V F<__VA_ARGS__, 1>, V F<__VA_ARGS__, 2>, V F<__VA_ARGS__, 3>, V F<__VA_ARGS__, 4>
OBL_INSTANCES(step, EACH(stepwise, int, 10), EACH(stepwise, short, 8), EACH(stepwise, long, 16))
#define FL(T, s) V floating<T, 0, s>, V floating<T, 1, s>, V floating<T, 2, s>, V floating<T, 3, s>, V floating<T, 4, s>, V floating<T, 5, s>, V floating<T, 6, s>, V floating<T, 7, s>
OBL_INSTANCES(fl, FL(float, false), FL(float, true), FL(double, false), FL(double, true))
OBL_INSTANCES(bo, V boolean<'0'>, V boolean<'1'>, V boolean<'2'>, V boolean<'t'>, V boolean<0>, V boolean<'/'>, V alpha<0>, V alpha<1>, V alpha<2>, V alpha<3>, V alpha<4>)
#elif SHARD == 2
OBL_INSTANCES(l0, V letters<int, 16, 0, false, 0, 3, 0, false>, V letters<int, 16, 0, false, 0, 3, 0, true>, V letters<int, 16, 0, false, 0, 3, 1, false>, V letters<int, 16, 0, false, 0, 3, 1, true>, V letters<int, 16, 0, false, 0, 3, 2, false>, V letters<int, 16, 0, false, 0, 3, 2, true>, V letters<int, 16, 0, false, 0, 3, 3, false>, V letters<int, 16, 0, false, 0, 3, 3, true>, V letters<int, 16, 0, false, 0, 3, 4, false>, V letters<int, 16, 0, false, 0, 3, 4, true>, V letters<int, 16, 0, false, 0, 3, 5, false>, V letters<int, 16, 0, false, 0, 3, 5, true>, V letters<int, 16, 0, false, 0, 3, 6, false>, V letters<int, 16, 0, false, 0, 3, 6, true>, V letters<int, 16, 0, false, 0, 3, 7, false>, V letters<int, 16, 0, false, 0, 3, 7, true>, V letters<int, 16, 0, false, 0, 3, 8, false>, V letters<int, 16, 0, false, 0, 3, 8, true>, V letters<int, 16, 0, false, 0, 3, 9, false>, V letters<int, 16, 0, false, 0, 3, 9, true>, V letters<int, 16, 0, false, 0, 3, 10, false>, V letters<int, 16, 0, false, 0, 3, 10, true>, V letters<int, 16, 0, false, 0, 3, 11, false>, V letters<int, 16, 0, false, 0, 3, 11, true>, V letters<int, 16, 0, false, 0, 3, 12, false>, V letters<int, 16, 0, false, 0, 3, 12, true>, V letters<int, 16, 0, false, 0, 3, 13, false>, V letters<int, 16, 0, false, 0, 3, 13, true>, V letters<int, 16, 0, false, 0, 3, 14, false>, V letters<int, 16, 0, false, 0, 3, 14, true>, V letters<int, 16, 0, false, 0, 3, 15, false>, V letters<int, 16, 0, false, 0, 3, 15, true>)
OBL_INSTANCES(l1, V letters<int, 16, 1, true, 1, 15, 0, false>, V letters<int, 16, 1, true, 1, 15, 0, true>, V letters<int, 16, 1, true, 1, 15, 1, false>, V letters<int, 16, 1, true, 1, 15, 1, true>, V letters<int, 16, 1, true, 1, 15, 2, false>, V letters<int, 16, 1, true, 1, 15, 2, true>, V letters<int, 16, 1, true, 1, 15, 3, false>, V letters<int, 16, 1, true, 1, 15, 3, true>, V letters<int, 16, 1, true, 1, 15, 4, false>, V letters<int, 16, 1, true, 1, 15, 4, true>, V letters<int, 16, 1, true, 1, 15, 5, false>, V letters<int, 16, 1, true, 1, 15, 5, true>, V letters<int, 16, 1, true, 1, 15, 6, false>, V letters<int, 16, 1, true, 1, 15, 6, true>, V letters<int, 16, 1, true, 1, 15, 7, false>, V letters<int, 16, 1, true, 1, 15, 7, true>, V letters<int, 16, 1, true, 1, 15, 8, false>, V letters<int, 16, 1, true, 1, 15, 8, true>, V letters<int, 16, 1, true, 1, 15, 9, false>, V letters<int, 16, 1, true, 1, 15, 9, true>, V letters<int, 16, 1, true, 1, 15, 10, false>, V letters<int, 16, 1, true, 1, 15, 10, true>, V letters<int, 16, 1, true, 1, 15, 11, false>, V letters<int, 16, 1, true, 1, 15, 11, true>, V letters<int, 16, 1, true, 1, 15, 12, false>, V letters<int, 16, 1, true, 1, 15, 12, true>, V letters<int, 16, 1, true, 1, 15, 13, false>, V letters<int, 16, 1, true, 1, 15, 13, true>, V letters<int, 16, 1, true, 1, 15, 14, false>, V letters<int, 16, 1, true, 1, 15, 14, true>, V letters<int, 16, 1, true, 1, 15, 15, false>, V letters<int, 16, 1, true, 1, 15, 15, true>)
OBL_INSTANCES(l2, V letters<unsigned, 16, 0, false, 2, 10, 0, false>, V letters<unsigned, 16, 0, false, 2, 10, 0, true>, V letters<unsigned, 16, 0, false, 2, 10, 1, false>, V letters<unsigned, 16, 0, false, 2, 10, 1, true>, V letters<unsigned, 16, 0, false, 2, 10, 2, false>, V letters<unsigned, 16, 0, false, 2, 10, 2, true>, V letters<unsigned, 16, 0, false, 2, 10, 3, false>, V letters<unsigned, 16, 0, false, 2, 10, 3, true>, V letters<unsigned, 16, 0, false, 2, 10, 4, false>, V letters<unsigned, 16, 0, false, 2, 10, 4, true>, V letters<unsigned, 16, 0, false, 2, 10, 5, false>, V letters<unsigned, 16, 0, false, 2, 10, 5, true>, V letters<unsigned, 16, 0, false, 2, 10, 6, false>, V letters<unsigned, 16, 0, false, 2, 10, 6, true>, V letters<unsigned, 16, 0, false, 2, 10, 7, false>, V letters<unsigned, 16, 0, false, 2, 10, 7, true>, V letters<unsigned, 16, 0, false, 2, 10, 8, false>, V letters<unsigned, 16, 0, false, 2, 10, 8, true>, V letters<unsigned, 16, 0, false, 2, 10, 9, false>, V letters<unsigned, 16, 0, false, 2, 10, 9, true>, V letters<unsigned, 16, 0, false, 2, 10, 10, false>, V letters<unsigned, 16, 0, false, 2, 10, 10, true>, V letters<unsigned, 16, 0, false, 2, 10, 11, false>, V letters<unsigned, 16, 0, false, 2, 10, 11, true>, V letters<unsigned, 16, 0, false, 2, 10, 12, false>, V letters<unsigned, 16, 0, false, 2, 10, 12, true>, V letters<unsigned, 16, 0, false, 2, 10, 13, false>, V letters<unsigned, 16, 0, false, 2, 10, 13, true>, V letters<unsigned, 16, 0, false, 2, 10, 14, false>, V letters<unsigned, 16, 0, false, 2, 10, 14, true>, V letters<unsigned, 16, 0, false, 2, 10, 15, false>, V letters<unsigned, 16, 0, false, 2, 10, 15, true>)
OBL_INSTANCES(l3, V letters<short, 16, 1, false, 1, 1, 0, false>, V letters<short, 16, 1, false, 1, 1, 0, true>, V letters<short, 16, 1, false, 1, 1, 1, false>, V letters<short, 16, 1, false, 1, 1, 1, true>, V letters<short, 16, 1, false, 1, 1, 2, false>, V letters<short, 16, 1, false, 1, 1, 2, true>, V letters<short, 16, 1, false, 1, 1, 3, false>, V letters<short, 16, 1, false, 1, 1, 3, true>, V letters<short, 16, 1, false, 1, 1, 4, false>, V letters<short, 16, 1, false, 1, 1, 4, true>, V letters<short, 16, 1, false, 1, 1, 5, false>, V letters<short, 16, 1, false, 1, 1, 5, true>, V letters<short, 16, 1, false, 1, 1, 6, false>, V letters<short, 16, 1, false, 1, 1, 6, true>, V letters<short, 16, 1, false, 1, 1, 7, false>, V letters<short, 16, 1, false, 1, 1, 7, true>, V letters<short, 16, 1, false, 1, 1, 8, false>, V letters<short, 16, 1, false, 1, 1, 8, true>, V letters<short, 16, 1, false, 1, 1, 9, false>, V letters<short, 16, 1, false, 1, 1, 9, true>, V letters<short, 16, 1, false, 1, 1, 10, false>, V letters<short, 16, 1, false, 1, 1, 10, true>, V letters<short, 16, 1, false, 1, 1, 11, false>, V letters<short, 16, 1, false, 1, 1, 11, true>, V letters<short, 16, 1, false, 1, 1, 12, false>, V letters<short, 16, 1, false, 1, 1, 12, true>, V letters<short, 16, 1, false, 1, 1, 13, false>, V letters<short, 16, 1, false, 1, 1, 13, true>, V letters<short, 16, 1, false, 1, 1, 14, false>, V letters<short, 16, 1, false, 1, 1, 14, true>, V letters<short, 16, 1, false, 1, 1, 15, false>, V letters<short, 16, 1, false, 1, 1, 15, true>)
OBL_INSTANCES(m0, V limit<signed char, 10, 0, false, 0, 0, End>, V limit<signed char, 10, 0, false, 0, 0, '.'>, V limit<signed char, 10, 1, false, 0, 1, End>, V limit<signed char, 10, 1, false, 0, 1, '.'>, V limit<signed char, 10, 0, false, 0, 2, End>, V limit<signed char, 10, 0, false, 0, 2, '.'>, V limit<signed char, 10, 1, false, 0, 3, End>, V limit<signed char, 10, 1, false, 0, 3, '.'>, V limit<signed char, 10, 0, false, 0, 4, End>, V limit<signed char, 10, 0, false, 0, 4, '.'>, V limit<signed char, 10, 1, false, 0, 5, End>, V limit<signed char, 10, 1, false, 0, 5, '.'>, V limit<signed char, 10, 0, false, 0, 6, End>, V limit<signed char, 10, 0, false, 0, 6, '.'>, V limit<signed char, 10, 1, false, 0, 7, End>, V limit<signed char, 10, 1, false, 0, 7, '.'>, V limit<signed char, 10, 0, false, 0, 8, End>, V limit<signed char, 10, 0, false, 0, 8, '.'>, V limit<signed char, 10, 1, false, 0, 9, End>, V limit<signed char, 10, 1, false, 0, 9, '.'>, V limit<signed char, 10, 1, false, 1, 0, End>, V limit<signed char, 10, 1, false, 1, 9, 32>, V limit<signed char, 10, 0, false, 2, 0, End>, V limit<signed char, 10, 0, false, 2, 9, 32>, V limit<signed char, 10, 1, false, 3, 0, End>, V limit<signed char, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m1, V limit<signed char, 10, 0, true, 0, 0, End>, V limit<signed char, 10, 0, true, 0, 0, '.'>, V limit<signed char, 10, 1, true, 0, 1, End>, V limit<signed char, 10, 1, true, 0, 1, '.'>, V limit<signed char, 10, 0, true, 0, 2, End>, V limit<signed char, 10, 0, true, 0, 2, '.'>, V limit<signed char, 10, 1, true, 0, 3, End>, V limit<signed char, 10, 1, true, 0, 3, '.'>, V limit<signed char, 10, 0, true, 0, 4, End>, V limit<signed char, 10, 0, true, 0, 4, '.'>, V limit<signed char, 10, 1, true, 0, 5, End>, V limit<signed char, 10, 1, true, 0, 5, '.'>, V limit<signed char, 10, 0, true, 0, 6, End>, V limit<signed char, 10, 0, true, 0, 6, '.'>, V limit<signed char, 10, 1, true, 0, 7, End>, V limit<signed char, 10, 1, true, 0, 7, '.'>, V limit<signed char, 10, 0, true, 0, 8, End>, V limit<signed char, 10, 0, true, 0, 8, '.'>, V limit<signed char, 10, 1, true, 0, 9, End>, V limit<signed char, 10, 1, true, 0, 9, '.'>, V limit<signed char, 10, 1, true, 1, 0, End>, V limit<signed char, 10, 1, true, 1, 9, 32>, V limit<signed char, 10, 0, true, 2, 0, End>, V limit<signed char, 10, 0, true, 2, 9, 32>, V limit<signed char, 10, 1, true, 3, 0, End>, V limit<signed char, 10, 1, true, 3, 9, 32>)
OBL_INSTANCES(m2, V limit<unsigned char, 10, 0, false, 0, 0, End>, V limit<unsigned char, 10, 0, false, 0, 0, '.'>, V limit<unsigned char, 10, 1, false, 0, 1, End>, V limit<unsigned char, 10, 1, false, 0, 1, '.'>, V limit<unsigned char, 10, 0, false, 0, 2, End>, V limit<unsigned char, 10, 0, false, 0, 2, '.'>, V limit<unsigned char, 10, 1, false, 0, 3, End>, V limit<unsigned char, 10, 1, false, 0, 3, '.'>, V limit<unsigned char, 10, 0, false, 0, 4, End>, V limit<unsigned char, 10, 0, false, 0, 4, '.'>, V limit<unsigned char, 10, 1, false, 0, 5, End>, V limit<unsigned char, 10, 1, false, 0, 5, '.'>, V limit<unsigned char, 10, 0, false, 0, 6, End>, V limit<unsigned char, 10, 0, false, 0, 6, '.'>, V limit<unsigned char, 10, 1, false, 0, 7, End>, V limit<unsigned char, 10, 1, false, 0, 7, '.'>, V limit<unsigned char, 10, 0, false, 0, 8, End>, V limit<unsigned char, 10, 0, false, 0, 8, '.'>, V limit<unsigned char, 10, 1, false, 0, 9, End>, V limit<unsigned char, 10, 1, false, 0, 9, '.'>, V limit<unsigned char, 10, 1, false, 1, 0, End>, V limit<unsigned char, 10, 1, false, 1, 9, 32>, V limit<unsigned char, 10, 0, false, 2, 0, End>, V limit<unsigned char, 10, 0, false, 2, 9, 32>, V limit<unsigned char, 10, 1, false, 3, 0, End>, V limit<unsigned char, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m3, V limit<short, 8, 0, false, 0, 0, End>, V limit<short, 8, 0, false, 0, 0, '.'>, V limit<short, 8, 1, false, 0, 1, End>, V limit<short, 8, 1, false, 0, 1, '.'>, V limit<short, 8, 0, false, 0, 2, End>, V limit<short, 8, 0, false, 0, 2, '.'>, V limit<short, 8, 1, false, 0, 3, End>, V limit<short, 8, 1, false, 0, 3, '.'>, V limit<short, 8, 0, false, 0, 4, End>, V limit<short, 8, 0, false, 0, 4, '.'>, V limit<short, 8, 1, false, 0, 5, End>, V limit<short, 8, 1, false, 0, 5, '.'>, V limit<short, 8, 0, false, 0, 6, End>, V limit<short, 8, 0, false, 0, 6, '.'>, V limit<short, 8, 1, false, 0, 7, End>, V limit<short, 8, 1, false, 0, 7, '.'>, V limit<short, 8, 1, false, 1, 0, End>, V limit<short, 8, 1, false, 1, 7, 32>, V limit<short, 8, 0, false, 2, 0, End>, V limit<short, 8, 0, false, 2, 7, 32>, V limit<short, 8, 1, false, 3, 0, End>, V limit<short, 8, 1, false, 3, 7, 32>)
OBL_INSTANCES(m4, V limit<short, 8, 0, true, 0, 0, End>, V limit<short, 8, 0, true, 0, 0, '.'>, V limit<short, 8, 1, true, 0, 1, End>, V limit<short, 8, 1, true, 0, 1, '.'>, V limit<short, 8, 0, true, 0, 2, End>, V limit<short, 8, 0, true, 0, 2, '.'>, V limit<short, 8, 1, true, 0, 3, End>, V limit<short, 8, 1, true, 0, 3, '.'>, V limit<short, 8, 0, true, 0, 4, End>, V limit<short, 8, 0, true, 0, 4, '.'>, V limit<short, 8, 1, true, 0, 5, End>, V limit<short, 8, 1, true, 0, 5, '.'>, V limit<short, 8, 0, true, 0, 6, End>, V limit<short, 8, 0, true, 0, 6, '.'>, V limit<short, 8, 1, true, 0, 7, End>, V limit<short, 8, 1, true, 0, 7, '.'>, V limit<short, 8, 1, true, 1, 0, End>, V limit<short, 8, 1, true, 1, 7, 32>, V limit<short, 8, 0, true, 2, 0, End>, V limit<short, 8, 0, true, 2, 7, 32>, V limit<short, 8, 1, true, 3, 0, End>, V limit<short, 8, 1, true, 3, 7, 32>)
OBL_INSTANCES(m5, V limit<short, 10, 0, false, 0, 0, End>, V limit<short, 10, 0, false, 0, 0, '.'>, V limit<short, 10, 1, false, 0, 1, End>, V limit<short, 10, 1, false, 0, 1, '.'>, V limit<short, 10, 0, false, 0, 2, End>, V limit<short, 10, 0, false, 0, 2, '.'>, V limit<short, 10, 1, false, 0, 3, End>, V limit<short, 10, 1, false, 0, 3, '.'>, V limit<short, 10, 0, false, 0, 4, End>, V limit<short, 10, 0, false, 0, 4, '.'>, V limit<short, 10, 1, false, 0, 5, End>, V limit<short, 10, 1, false, 0, 5, '.'>, V limit<short, 10, 0, false, 0, 6, End>, V limit<short, 10, 0, false, 0, 6, '.'>, V limit<short, 10, 1, false, 0, 7, End>, V limit<short, 10, 1, false, 0, 7, '.'>, V limit<short, 10, 0, false, 0, 8, End>, V limit<short, 10, 0, false, 0, 8, '.'>, V limit<short, 10, 1, false, 0, 9, End>, V limit<short, 10, 1, false, 0, 9, '.'>, V limit<short, 10, 1, false, 1, 0, End>, V limit<short, 10, 1, false, 1, 9, 32>, V limit<short, 10, 0, false, 2, 0, End>, V limit<short, 10, 0, false, 2, 9, 32>, V limit<short, 10, 1, false, 3, 0, End>, V limit<short, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m6, V limit<short, 10, 0, true, 0, 0, End>, V limit<short, 10, 0, true, 0, 0, '.'>, V limit<short, 10, 1, true, 0, 1, End>, V limit<short, 10, 1, true, 0, 1, '.'>, V limit<short, 10, 0, true, 0, 2, End>, V limit<short, 10, 0, true, 0, 2, '.'>, V limit<short, 10, 1, true, 0, 3, End>, V limit<short, 10, 1, true, 0, 3, '.'>, V limit<short, 10, 0, true, 0, 4, End>, V limit<short, 10, 0, true, 0, 4, '.'>, V limit<short, 10, 1, true, 0, 5, End>, V limit<short, 10, 1, true, 0, 5, '.'>, V limit<short, 10, 0, true, 0, 6, End>, V limit<short, 10, 0, true, 0, 6, '.'>, V limit<short, 10, 1, true, 0, 7, End>, V limit<short, 10, 1, true, 0, 7, '.'>, V limit<short, 10, 0, true, 0, 8, End>, V limit<short, 10, 0, true, 0, 8, '.'>, V limit<short, 10, 1, true, 0, 9, End>, V limit<short, 10, 1, true, 0, 9, '.'>, V limit<short, 10, 1, true, 1, 0, End>, V limit<short, 10, 1, true, 1, 9, 32>, V limit<short, 10, 0, true, 2, 0, End>, V limit<short, 10, 0, true, 2, 9, 32>, V limit<short, 10, 1, true, 3, 0, End>, V limit<short, 10, 1, true, 3, 9, 32>)
OBL_INSTANCES(m7, V limit<unsigned short, 8, 0, false, 0, 0, End>, V limit<unsigned short, 8, 0, false, 0, 0, '.'>, V limit<unsigned short, 8, 1, false, 0, 1, End>, V limit<unsigned short, 8, 1, false, 0, 1, '.'>, V limit<unsigned short, 8, 0, false, 0, 2, End>, V limit<unsigned short, 8, 0, false, 0, 2, '.'>, V limit<unsigned short, 8, 1, false, 0, 3, End>, V limit<unsigned short, 8, 1, false, 0, 3, '.'>, V limit<unsigned short, 8, 0, false, 0, 4, End>, V limit<unsigned short, 8, 0, false, 0, 4, '.'>, V limit<unsigned short, 8, 1, false, 0, 5, End>, V limit<unsigned short, 8, 1, false, 0, 5, '.'>, V limit<unsigned short, 8, 0, false, 0, 6, End>, V limit<unsigned short, 8, 0, false, 0, 6, '.'>, V limit<unsigned short, 8, 1, false, 0, 7, End>, V limit<unsigned short, 8, 1, false, 0, 7, '.'>, V limit<unsigned short, 8, 1, false, 1, 0, End>, V limit<unsigned short, 8, 1, false, 1, 7, 32>, V limit<unsigned short, 8, 0, false, 2, 0, End>, V limit<unsigned short, 8, 0, false, 2, 7, 32>, V limit<unsigned short, 8, 1, false, 3, 0, End>, V limit<unsigned short, 8, 1, false, 3, 7, 32>)
OBL_INSTANCES(m8, V limit<unsigned short, 10, 0, false, 0, 0, End>, V limit<unsigned short, 10, 0, false, 0, 0, '.'>, V limit<unsigned short, 10, 1, false, 0, 1, End>, V limit<unsigned short, 10, 1, false, 0, 1, '.'>, V limit<unsigned short, 10, 0, false, 0, 2, End>, V limit<unsigned short, 10, 0, false, 0, 2, '.'>, V limit<unsigned short, 10, 1, false, 0, 3, End>, V limit<unsigned short, 10, 1, false, 0, 3, '.'>, V limit<unsigned short, 10, 0, false, 0, 4, End>, V limit<unsigned short, 10, 0, false, 0, 4, '.'>, V limit<unsigned short, 10, 1, false, 0, 5, End>, V limit<unsigned short, 10, 1, false, 0, 5, '.'>, V limit<unsigned short, 10, 0, false, 0, 6, End>, V limit<unsigned short, 10, 0, false, 0, 6, '.'>, V limit<unsigned short, 10, 1, false, 0, 7, End>, V limit<unsigned short, 10, 1, false, 0, 7, '.'>, V limit<unsigned short, 10, 0, false, 0, 8, End>, V limit<unsigned short, 10, 0, false, 0, 8, '.'>, V limit<unsigned short, 10, 1, false, 0, 9, End>, V limit<unsigned short, 10, 1, false, 0, 9, '.'>, V limit<unsigned short, 10, 1, false, 1, 0, End>, V limit<unsigned short, 10, 1, false, 1, 9, 32>, V limit<unsigned short, 10, 0, false, 2, 0, End>, V limit<unsigned short, 10, 0, false, 2, 9, 32>, V limit<unsigned short, 10, 1, false, 3, 0, End>, V limit<unsigned short, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m9, V limit<int, 10, 0, false, 0, 0, End>, V limit<int, 10, 0, false, 0, 0, '.'>, V limit<int, 10, 1, false, 0, 1, End>, V limit<int, 10, 1, false, 0, 1, '.'>, V limit<int, 10, 0, false, 0, 2, End>, V limit<int, 10, 0, false, 0, 2, '.'>, V limit<int, 10, 1, false, 0, 3, End>, V limit<int, 10, 1, false, 0, 3, '.'>, V limit<int, 10, 0, false, 0, 4, End>, V limit<int, 10, 0, false, 0, 4, '.'>, V limit<int, 10, 1, false, 0, 5, End>, V limit<int, 10, 1, false, 0, 5, '.'>, V limit<int, 10, 0, false, 0, 6, End>, V limit<int, 10, 0, false, 0, 6, '.'>, V limit<int, 10, 1, false, 0, 7, End>, V limit<int, 10, 1, false, 0, 7, '.'>, V limit<int, 10, 0, false, 0, 8, End>, V limit<int, 10, 0, false, 0, 8, '.'>, V limit<int, 10, 1, false, 0, 9, End>, V limit<int, 10, 1, false, 0, 9, '.'>, V limit<int, 10, 1, false, 1, 0, End>, V limit<int, 10, 1, false, 1, 9, 32>, V limit<int, 10, 0, false, 2, 0, End>, V limit<int, 10, 0, false, 2, 9, 32>, V limit<int, 10, 1, false, 3, 0, End>, V limit<int, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m10, V limit<int, 10, 0, true, 0, 0, End>, V limit<int, 10, 0, true, 0, 0, '.'>, V limit<int, 10, 1, true, 0, 1, End>, V limit<int, 10, 1, true, 0, 1, '.'>, V limit<int, 10, 0, true, 0, 2, End>, V limit<int, 10, 0, true, 0, 2, '.'>, V limit<int, 10, 1, true, 0, 3, End>, V limit<int, 10, 1, true, 0, 3, '.'>, V limit<int, 10, 0, true, 0, 4, End>, V limit<int, 10, 0, true, 0, 4, '.'>, V limit<int, 10, 1, true, 0, 5, End>, V limit<int, 10, 1, true, 0, 5, '.'>, V limit<int, 10, 0, true, 0, 6, End>, V limit<int, 10, 0, true, 0, 6, '.'>, V limit<int, 10, 1, true, 0, 7, End>, V limit<int, 10, 1, true, 0, 7, '.'>, V limit<int, 10, 0, true, 0, 8, End>, V limit<int, 10, 0, true, 0, 8, '.'>, V limit<int, 10, 1, true, 0, 9, End>, V limit<int, 10, 1, true, 0, 9, '.'>, V limit<int, 10, 1, true, 1, 0, End>, V limit<int, 10, 1, true, 1, 9, 32>, V limit<int, 10, 0, true, 2, 0, End>, V limit<int, 10, 0, true, 2, 9, 32>, V limit<int, 10, 1, true, 3, 0, End>, V limit<int, 10, 1, true, 3, 9, 32>)
OBL_INSTANCES(m11, V limit<int, 16, 0, false, 0, 0, End>, V limit<int, 16, 0, false, 0, 0, '.'>, V limit<int, 16, 1, false, 0, 1, End>, V limit<int, 16, 1, false, 0, 1, '.'>, V limit<int, 16, 0, false, 0, 2, End>, V limit<int, 16, 0, false, 0, 2, '.'>, V limit<int, 16, 1, false, 0, 3, End>, V limit<int, 16, 1, false, 0, 3, '.'>, V limit<int, 16, 0, false, 0, 4, End>, V limit<int, 16, 0, false, 0, 4, '.'>, V limit<int, 16, 1, false, 0, 5, End>, V limit<int, 16, 1, false, 0, 5, '.'>, V limit<int, 16, 0, false, 0, 6, End>, V limit<int, 16, 0, false, 0, 6, '.'>, V limit<int, 16, 1, false, 0, 7, End>, V limit<int, 16, 1, false, 0, 7, '.'>, V limit<int, 16, 0, false, 0, 8, End>, V limit<int, 16, 0, false, 0, 8, '.'>, V limit<int, 16, 1, false, 0, 9, End>, V limit<int, 16, 1, false, 0, 9, '.'>, V limit<int, 16, 0, false, 0, 10, End>, V limit<int, 16, 0, false, 0, 10, '.'>, V limit<int, 16, 1, false, 0, 11, End>, V limit<int, 16, 1, false, 0, 11, '.'>, V limit<int, 16, 0, false, 0, 12, End>, V limit<int, 16, 0, false, 0, 12, '.'>, V limit<int, 16, 1, false, 0, 13, End>, V limit<int, 16, 1, false, 0, 13, '.'>, V limit<int, 16, 0, false, 0, 14, End>, V limit<int, 16, 0, false, 0, 14, '.'>, V limit<int, 16, 1, false, 0, 15, End>, V limit<int, 16, 1, false, 0, 15, '.'>, V limit<int, 16, 1, false, 1, 0, End>, V limit<int, 16, 1, false, 1, 15, 32>, V limit<int, 16, 0, false, 2, 0, End>, V limit<int, 16, 0, false, 2, 15, 32>, V limit<int, 16, 1, false, 3, 0, End>, V limit<int, 16, 1, false, 3, 15, 32>)
OBL_INSTANCES(m12, V limit<int, 16, 0, true, 0, 0, End>, V limit<int, 16, 0, true, 0, 0, '.'>, V limit<int, 16, 1, true, 0, 1, End>, V limit<int, 16, 1, true, 0, 1, '.'>, V limit<int, 16, 0, true, 0, 2, End>, V limit<int, 16, 0, true, 0, 2, '.'>, V limit<int, 16, 1, true, 0, 3, End>, V limit<int, 16, 1, true, 0, 3, '.'>, V limit<int, 16, 0, true, 0, 4, End>, V limit<int, 16, 0, true, 0, 4, '.'>, V limit<int, 16, 1, true, 0, 5, End>, V limit<int, 16, 1, true, 0, 5, '.'>, V limit<int, 16, 0, true, 0, 6, End>, V limit<int, 16, 0, true, 0, 6, '.'>, V limit<int, 16, 1, true, 0, 7, End>, V limit<int, 16, 1, true, 0, 7, '.'>, V limit<int, 16, 0, true, 0, 8, End>, V limit<int, 16, 0, true, 0, 8, '.'>, V limit<int, 16, 1, true, 0, 9, End>, V limit<int, 16, 1, true, 0, 9, '.'>, V limit<int, 16, 0, true, 0, 10, End>, V limit<int, 16, 0, true, 0, 10, '.'>, V limit<int, 16, 1, true, 0, 11, End>, V limit<int, 16, 1, true, 0, 11, '.'>, V limit<int, 16, 0, true, 0, 12, End>, V limit<int, 16, 0, true, 0, 12, '.'>, V limit<int, 16, 1, true, 0, 13, End>, V limit<int, 16, 1, true, 0, 13, '.'>, V limit<int, 16, 0, true, 0, 14, End>, V limit<int, 16, 0, true, 0, 14, '.'>, V limit<int, 16, 1, true, 0, 15, End>, V limit<int, 16, 1, true, 0, 15, '.'>, V limit<int, 16, 1, true, 1, 0, End>, V limit<int, 16, 1, true, 1, 15, 32>, V limit<int, 16, 0, true, 2, 0, End>, V limit<int, 16, 0, true, 2, 15, 32>, V limit<int, 16, 1, true, 3, 0, End>, V limit<int, 16, 1, true, 3, 15, 32>)
OBL_INSTANCES(m13, V limit<unsigned, 10, 0, false, 0, 0, End>, V limit<unsigned, 10, 0, false, 0, 0, '.'>, V limit<unsigned, 10, 1, false, 0, 1, End>, V limit<unsigned, 10, 1, false, 0, 1, '.'>, V limit<unsigned, 10, 0, false, 0, 2, End>, V limit<unsigned, 10, 0, false, 0, 2, '.'>, V limit<unsigned, 10, 1, false, 0, 3, End>, V limit<unsigned, 10, 1, false, 0, 3, '.'>, V limit<unsigned, 10, 0, false, 0, 4, End>, V limit<unsigned, 10, 0, false, 0, 4, '.'>, V limit<unsigned, 10, 1, false, 0, 5, End>, V limit<unsigned, 10, 1, false, 0, 5, '.'>, V limit<unsigned, 10, 0, false, 0, 6, End>, V limit<unsigned, 10, 0, false, 0, 6, '.'>, V limit<unsigned, 10, 1, false, 0, 7, End>, V limit<unsigned, 10, 1, false, 0, 7, '.'>, V limit<unsigned, 10, 0, false, 0, 8, End>, V limit<unsigned, 10, 0, false, 0, 8, '.'>, V limit<unsigned, 10, 1, false, 0, 9, End>, V limit<unsigned, 10, 1, false, 0, 9, '.'>, V limit<unsigned, 10, 1, false, 1, 0, End>, V limit<unsigned, 10, 1, false, 1, 9, 32>, V limit<unsigned, 10, 0, false, 2, 0, End>, V limit<unsigned, 10, 0, false, 2, 9, 32>, V limit<unsigned, 10, 1, false, 3, 0, End>, V limit<unsigned, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m14, V limit<unsigned, 16, 0, false, 0, 0, End>, V limit<unsigned, 16, 0, false, 0, 0, '.'>, V limit<unsigned, 16, 1, false, 0, 1, End>, V limit<unsigned, 16, 1, false, 0, 1, '.'>, V limit<unsigned, 16, 0, false, 0, 2, End>, V limit<unsigned, 16, 0, false, 0, 2, '.'>, V limit<unsigned, 16, 1, false, 0, 3, End>, V limit<unsigned, 16, 1, false, 0, 3, '.'>, V limit<unsigned, 16, 0, false, 0, 4, End>, V limit<unsigned, 16, 0, false, 0, 4, '.'>, V limit<unsigned, 16, 1, false, 0, 5, End>, V limit<unsigned, 16, 1, false, 0, 5, '.'>, V limit<unsigned, 16, 0, false, 0, 6, End>, V limit<unsigned, 16, 0, false, 0, 6, '.'>, V limit<unsigned, 16, 1, false, 0, 7, End>, V limit<unsigned, 16, 1, false, 0, 7, '.'>, V limit<unsigned, 16, 0, false, 0, 8, End>, V limit<unsigned, 16, 0, false, 0, 8, '.'>, V limit<unsigned, 16, 1, false, 0, 9, End>, V limit<unsigned, 16, 1, false, 0, 9, '.'>, V limit<unsigned, 16, 0, false, 0, 10, End>, V limit<unsigned, 16, 0, false, 0, 10, '.'>, V limit<unsigned, 16, 1, false, 0, 11, End>, V limit<unsigned, 16, 1, false, 0, 11, '.'>, V limit<unsigned, 16, 0, false, 0, 12, End>, V limit<unsigned, 16, 0, false, 0, 12, '.'>, V limit<unsigned, 16, 1, false, 0, 13, End>, V limit<unsigned, 16, 1, false, 0, 13, '.'>, V limit<unsigned, 16, 0, false, 0, 14, End>, V limit<unsigned, 16, 0, false, 0, 14, '.'>, V limit<unsigned, 16, 1, false, 0, 15, End>, V limit<unsigned, 16, 1, false, 0, 15, '.'>, V limit<unsigned, 16, 1, false, 1, 0, End>, V limit<unsigned, 16, 1, false, 1, 15, 32>, V limit<unsigned, 16, 0, false, 2, 0, End>, V limit<unsigned, 16, 0, false, 2, 15, 32>, V limit<unsigned, 16, 1, false, 3, 0, End>, V limit<unsigned, 16, 1, false, 3, 15, 32>)
OBL_INSTANCES(m15, V limit<long, 10, 0, false, 0, 0, End>, V limit<long, 10, 0, false, 0, 0, '.'>, V limit<long, 10, 1, false, 0, 1, End>, V limit<long, 10, 1, false, 0, 1, '.'>, V limit<long, 10, 0, false, 0, 2, End>, V limit<long, 10, 0, false, 0, 2, '.'>, V limit<long, 10, 1, false, 0, 3, End>, V limit<long, 10, 1, false, 0, 3, '.'>, V limit<long, 10, 0, false, 0, 4, End>, V limit<long, 10, 0, false, 0, 4, '.'>, V limit<long, 10, 1, false, 0, 5, End>, V limit<long, 10, 1, false, 0, 5, '.'>, V limit<long, 10, 0, false, 0, 6, End>, V limit<long, 10, 0, false, 0, 6, '.'>, V limit<long, 10, 1, false, 0, 7, End>, V limit<long, 10, 1, false, 0, 7, '.'>, V limit<long, 10, 0, false, 0, 8, End>, V limit<long, 10, 0, false, 0, 8, '.'>, V limit<long, 10, 1, false, 0, 9, End>, V limit<long, 10, 1, false, 0, 9, '.'>, V limit<long, 10, 1, false, 1, 0, End>, V limit<long, 10, 1, false, 1, 9, 32>, V limit<long, 10, 0, false, 2, 0, End>, V limit<long, 10, 0, false, 2, 9, 32>, V limit<long, 10, 1, false, 3, 0, End>, V limit<long, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m16, V limit<long, 10, 0, true, 0, 0, End>, V limit<long, 10, 0, true, 0, 0, '.'>, V limit<long, 10, 1, true, 0, 1, End>, V limit<long, 10, 1, true, 0, 1, '.'>, V limit<long, 10, 0, true, 0, 2, End>, V limit<long, 10, 0, true, 0, 2, '.'>, V limit<long, 10, 1, true, 0, 3, End>, V limit<long, 10, 1, true, 0, 3, '.'>, V limit<long, 10, 0, true, 0, 4, End>, V limit<long, 10, 0, true, 0, 4, '.'>, V limit<long, 10, 1, true, 0, 5, End>, V limit<long, 10, 1, true, 0, 5, '.'>, V limit<long, 10, 0, true, 0, 6, End>, V limit<long, 10, 0, true, 0, 6, '.'>, V limit<long, 10, 1, true, 0, 7, End>, V limit<long, 10, 1, true, 0, 7, '.'>, V limit<long, 10, 0, true, 0, 8, End>, V limit<long, 10, 0, true, 0, 8, '.'>, V limit<long, 10, 1, true, 0, 9, End>, V limit<long, 10, 1, true, 0, 9, '.'>, V limit<long, 10, 1, true, 1, 0, End>, V limit<long, 10, 1, true, 1, 9, 32>, V limit<long, 10, 0, true, 2, 0, End>, V limit<long, 10, 0, true, 2, 9, 32>, V limit<long, 10, 1, true, 3, 0, End>, V limit<long, 10, 1, true, 3, 9, 32>)
OBL_INSTANCES(m17, V limit<unsigned long, 10, 0, false, 0, 0, End>, V limit<unsigned long, 10, 0, false, 0, 0, '.'>, V limit<unsigned long, 10, 1, false, 0, 1, End>, V limit<unsigned long, 10, 1, false, 0, 1, '.'>, V limit<unsigned long, 10, 0, false, 0, 2, End>, V limit<unsigned long, 10, 0, false, 0, 2, '.'>, V limit<unsigned long, 10, 1, false, 0, 3, End>, V limit<unsigned long, 10, 1, false, 0, 3, '.'>, V limit<unsigned long, 10, 0, false, 0, 4, End>, V limit<unsigned long, 10, 0, false, 0, 4, '.'>, V limit<unsigned long, 10, 1, false, 0, 5, End>, V limit<unsigned long, 10, 1, false, 0, 5, '.'>, V limit<unsigned long, 10, 0, false, 0, 6, End>, V limit<unsigned long, 10, 0, false, 0, 6, '.'>, V limit<unsigned long, 10, 1, false, 0, 7, End>, V limit<unsigned long, 10, 1, false, 0, 7, '.'>, V limit<unsigned long, 10, 0, false, 0, 8, End>, V limit<unsigned long, 10, 0, false, 0, 8, '.'>, V limit<unsigned long, 10, 1, false, 0, 9, End>, V limit<unsigned long, 10, 1, false, 0, 9, '.'>, V limit<unsigned long, 10, 1, false, 1, 0, End>, V limit<unsigned long, 10, 1, false, 1, 9, 32>, V limit<unsigned long, 10, 0, false, 2, 0, End>, V limit<unsigned long, 10, 0, false, 2, 9, 32>, V limit<unsigned long, 10, 1, false, 3, 0, End>, V limit<unsigned long, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m18, V limit<long long, 10, 0, false, 0, 0, End>, V limit<long long, 10, 0, false, 0, 0, '.'>, V limit<long long, 10, 1, false, 0, 1, End>, V limit<long long, 10, 1, false, 0, 1, '.'>, V limit<long long, 10, 0, false, 0, 2, End>, V limit<long long, 10, 0, false, 0, 2, '.'>, V limit<long long, 10, 1, false, 0, 3, End>, V limit<long long, 10, 1, false, 0, 3, '.'>, V limit<long long, 10, 0, false, 0, 4, End>, V limit<long long, 10, 0, false, 0, 4, '.'>, V limit<long long, 10, 1, false, 0, 5, End>, V limit<long long, 10, 1, false, 0, 5, '.'>, V limit<long long, 10, 0, false, 0, 6, End>, V limit<long long, 10, 0, false, 0, 6, '.'>, V limit<long long, 10, 1, false, 0, 7, End>, V limit<long long, 10, 1, false, 0, 7, '.'>, V limit<long long, 10, 0, false, 0, 8, End>, V limit<long long, 10, 0, false, 0, 8, '.'>, V limit<long long, 10, 1, false, 0, 9, End>, V limit<long long, 10, 1, false, 0, 9, '.'>, V limit<long long, 10, 1, false, 1, 0, End>, V limit<long long, 10, 1, false, 1, 9, 32>, V limit<long long, 10, 0, false, 2, 0, End>, V limit<long long, 10, 0, false, 2, 9, 32>, V limit<long long, 10, 1, false, 3, 0, End>, V limit<long long, 10, 1, false, 3, 9, 32>)
OBL_INSTANCES(m19, V limit<long long, 10, 0, true, 0, 0, End>, V limit<long long, 10, 0, true, 0, 0, '.'>, V limit<long long, 10, 1, true, 0, 1, End>, V limit<long long, 10, 1, true, 0, 1, '.'>, V limit<long long, 10, 0, true, 0, 2, End>, V limit<long long, 10, 0, true, 0, 2, '.'>, V limit<long long, 10, 1, true, 0, 3, End>, V limit<long long, 10, 1, true, 0, 3, '.'>, V limit<long long, 10, 0, true, 0, 4, End>, V limit<long long, 10, 0, true, 0, 4, '.'>, V limit<long long, 10, 1, true, 0, 5, End>, V limit<long long, 10, 1, true, 0, 5, '.'>, V limit<long long, 10, 0, true, 0, 6, End>, V limit<long long, 10, 0, true, 0, 6, '.'>, V limit<long long, 10, 1, true, 0, 7, End>, V limit<long long, 10, 1, true, 0, 7, '.'>, V limit<long long, 10, 0, true, 0, 8, End>, V limit<long long, 10, 0, true, 0, 8, '.'>, V limit<long long, 10, 1, true, 0, 9, End>, V limit<long long, 10, 1, true, 0, 9, '.'>, V limit<long long, 10, 1, true, 1, 0, End>, V limit<long long, 10, 1, true, 1, 9, 32>, V limit<long long, 10, 0, true, 2, 0, End>, V limit<long long, 10, 0, true, 2, 9, 32>, V limit<long long, 10, 1, true, 3, 0, End>, V limit<long long, 10, 1, true, 3, 9, 32>)
#elif SHARD == 3
OBL_INSTANCES(dec, V put<signed char, 10, 1, false, 0, 0>, V put<signed char, 10, 1, false, 0, 3>, V put<signed char, 10, 1, false, 1, 4>, V put<signed char, 10, 1, false, 2, 3>, V put<signed char, 10, 1, false, 1, 1>, V put<signed char, 10, 1, false, 0, 1>, V put<signed char, 10, 2, false, 0, 0>, V put<signed char, 10, 2, false, 0, 4>, V put<signed char, 10, 2, false, 1, 5>, V put<signed char, 10, 2, false, 2, 4>, V put<signed char, 10, 2, false, 1, 2>, V put<signed char, 10, 2, false, 0, 2>, V put<signed char, 10, 3, false, 0, 0>, V put<signed char, 10, 3, false, 0, 5>, V put<signed char, 10, 3, false, 1, 6>, V put<signed char, 10, 3, false, 2, 5>, V put<signed char, 10, 3, false, 1, 3>, V put<signed char, 10, 3, false, 0, 3>, V put<signed char, 10, 1, true, 0, 0>, V put<signed char, 10, 1, true, 0, 3>, V put<signed char, 10, 1, true, 1, 4>, V put<signed char, 10, 1, true, 2, 3>, V put<signed char, 10, 1, true, 1, 1>, V put<signed char, 10, 1, true, 0, 2>, V put<signed char, 10, 2, true, 0, 0>, V put<signed char, 10, 2, true, 0, 4>, V put<signed char, 10, 2, true, 1, 5>, V put<signed char, 10, 2, true, 2, 4>, V put<signed char, 10, 2, true, 1, 2>, V put<signed char, 10, 2, true, 0, 3>, V put<signed char, 10, 3, true, 0, 0>, V put<signed char, 10, 3, true, 0, 5>, V put<signed char, 10, 3, true, 1, 6>, V put<signed char, 10, 3, true, 2, 5>, V put<signed char, 10, 3, true, 1, 3>, V put<signed char, 10, 3, true, 0, 4>, V put<unsigned char, 10, 1, false, 0, 0>, V put<unsigned char, 10, 1, false, 0, 3>, V put<unsigned char, 10, 1, false, 1, 4>, V put<unsigned char, 10, 1, false, 2, 3>, V put<unsigned char, 10, 1, false, 1, 1>, V put<unsigned char, 10, 1, false, 0, 1>, V put<unsigned char, 10, 2, false, 0, 0>, V put<unsigned char, 10, 2, false, 0, 4>, V put<unsigned char, 10, 2, false, 1, 5>, V put<unsigned char, 10, 2, false, 2, 4>, V put<unsigned char, 10, 2, false, 1, 2>, V put<unsigned char, 10, 2, false, 0, 2>, V put<unsigned char, 10, 3, false, 0, 0>, V put<unsigned char, 10, 3, false, 0, 5>, V put<unsigned char, 10, 3, false, 1, 6>, V put<unsigned char, 10, 3, false, 2, 5>, V put<unsigned char, 10, 3, false, 1, 3>, V put<unsigned char, 10, 3, false, 0, 3>, V put<short, 10, 1, false, 0, 0>, V put<short, 10, 1, false, 0, 3>, V put<short, 10, 1, false, 1, 4>, V put<short, 10, 1, false, 2, 3>, V put<short, 10, 1, false, 1, 1>, V put<short, 10, 1, false, 0, 1>, V put<short, 10, 2, false, 0, 0>, V put<short, 10, 2, false, 0, 4>, V put<short, 10, 2, false, 1, 5>, V put<short, 10, 2, false, 2, 4>, V put<short, 10, 2, false, 1, 2>, V put<short, 10, 2, false, 0, 2>, V put<short, 10, 5, false, 0, 0>, V put<short, 10, 5, false, 0, 7>, V put<short, 10, 5, false, 1, 8>, V put<short, 10, 5, false, 2, 7>, V put<short, 10, 5, false, 1, 5>, V put<short, 10, 5, false, 0, 5>, V put<short, 10, 1, true, 0, 0>, V put<short, 10, 1, true, 0, 3>, V put<short, 10, 1, true, 1, 4>, V put<short, 10, 1, true, 2, 3>, V put<short, 10, 1, true, 1, 1>, V put<short, 10, 1, true, 0, 2>, V put<short, 10, 2, true, 0, 0>, V put<short, 10, 2, true, 0, 4>, V put<short, 10, 2, true, 1, 5>, V put<short, 10, 2, true, 2, 4>, V put<short, 10, 2, true, 1, 2>, V put<short, 10, 2, true, 0, 3>, V put<short, 10, 5, true, 0, 0>, V put<short, 10, 5, true, 0, 7>, V put<short, 10, 5, true, 1, 8>, V put<short, 10, 5, true, 2, 7>, V put<short, 10, 5, true, 1, 5>, V put<short, 10, 5, true, 0, 6>, V put<unsigned short, 10, 1, false, 0, 0>, V put<unsigned short, 10, 1, false, 0, 3>, V put<unsigned short, 10, 1, false, 1, 4>, V put<unsigned short, 10, 1, false, 2, 3>, V put<unsigned short, 10, 1, false, 1, 1>, V put<unsigned short, 10, 1, false, 0, 1>, V put<unsigned short, 10, 2, false, 0, 0>, V put<unsigned short, 10, 2, false, 0, 4>, V put<unsigned short, 10, 2, false, 1, 5>, V put<unsigned short, 10, 2, false, 2, 4>, V put<unsigned short, 10, 2, false, 1, 2>, V put<unsigned short, 10, 2, false, 0, 2>, V put<unsigned short, 10, 5, false, 0, 0>, V put<unsigned short, 10, 5, false, 0, 7>, V put<unsigned short, 10, 5, false, 1, 8>, V put<unsigned short, 10, 5, false, 2, 7>, V put<unsigned short, 10, 5, false, 1, 5>, V put<unsigned short, 10, 5, false, 0, 5>, V put<int, 10, 1, false, 0, 0>, V put<int, 10, 1, false, 0, 3>, V put<int, 10, 1, false, 1, 4>, V put<int, 10, 1, false, 2, 3>, V put<int, 10, 1, false, 1, 1>, V put<int, 10, 1, false, 0, 1>, V put<int, 10, 2, false, 0, 0>, V put<int, 10, 2, false, 0, 4>, V put<int, 10, 2, false, 1, 5>, V put<int, 10, 2, false, 2, 4>, V put<int, 10, 2, false, 1, 2>, V put<int, 10, 2, false, 0, 2>, V put<int, 10, 10, false, 0, 0>, V put<int, 10, 10, false, 0, 12>, V put<int, 10, 10, false, 1, 13>, V put<int, 10, 10, false, 2, 12>, V put<int, 10, 10, false, 1, 10>, V put<int, 10, 10, false, 0, 10>, V put<int, 10, 1, true, 0, 0>, V put<int, 10, 1, true, 0, 3>, V put<int, 10, 1, true, 1, 4>, V put<int, 10, 1, true, 2, 3>, V put<int, 10, 1, true, 1, 1>, V put<int, 10, 1, true, 0, 2>, V put<int, 10, 2, true, 0, 0>, V put<int, 10, 2, true, 0, 4>, V put<int, 10, 2, true, 1, 5>, V put<int, 10, 2, true, 2, 4>, V put<int, 10, 2, true, 1, 2>, V put<int, 10, 2, true, 0, 3>, V put<int, 10, 10, true, 0, 0>, V put<int, 10, 10, true, 0, 12>, V put<int, 10, 10, true, 1, 13>, V put<int, 10, 10, true, 2, 12>, V put<int, 10, 10, true, 1, 10>, V put<int, 10, 10, true, 0, 11>, V put<unsigned, 10, 1, false, 0, 0>, V put<unsigned, 10, 1, false, 0, 3>, V put<unsigned, 10, 1, false, 1, 4>, V put<unsigned, 10, 1, false, 2, 3>, V put<unsigned, 10, 1, false, 1, 1>, V put<unsigned, 10, 1, false, 0, 1>, V put<unsigned, 10, 2, false, 0, 0>, V put<unsigned, 10, 2, false, 0, 4>, V put<unsigned, 10, 2, false, 1, 5>, V put<unsigned, 10, 2, false, 2, 4>, V put<unsigned, 10, 2, false, 1, 2>, V put<unsigned, 10, 2, false, 0, 2>, V put<unsigned, 10, 10, false, 0, 0>, V put<unsigned, 10, 10, false, 0, 12>, V put<unsigned, 10, 10, false, 1, 13>, V put<unsigned, 10, 10, false, 2, 12>, V put<unsigned, 10, 10, false, 1, 10>, V put<unsigned, 10, 10, false, 0, 10>, V put<long, 10, 1, false, 0, 0>, V put<long, 10, 1, false, 0, 3>, V put<long, 10, 1, false, 1, 4>, V put<long, 10, 1, false, 2, 3>, V put<long, 10, 1, false, 1, 1>, V put<long, 10, 1, false, 0, 1>, V put<long, 10, 2, false, 0, 0>, V put<long, 10, 2, false, 0, 4>, V put<long, 10, 2, false, 1, 5>, V put<long, 10, 2, false, 2, 4>, V put<long, 10, 2, false, 1, 2>, V put<long, 10, 2, false, 0, 2>, V put<long, 10, 19, false, 0, 0>, V put<long, 10, 19, false, 0, 15>, V put<long, 10, 19, false, 1, 15>, V put<long, 10, 19, false, 2, 15>, V put<long, 10, 19, false, 1, 15>, V put<long, 10, 19, false, 0, 15>, V put<long, 10, 1, true, 0, 0>, V put<long, 10, 1, true, 0, 3>, V put<long, 10, 1, true, 1, 4>, V put<long, 10, 1, true, 2, 3>, V put<long, 10, 1, true, 1, 1>, V put<long, 10, 1, true, 0, 2>, V put<long, 10, 2, true, 0, 0>, V put<long, 10, 2, true, 0, 4>, V put<long, 10, 2, true, 1, 5>, V put<long, 10, 2, true, 2, 4>, V put<long, 10, 2, true, 1, 2>, V put<long, 10, 2, true, 0, 3>, V put<long, 10, 19, true, 0, 0>, V put<long, 10, 19, true, 0, 15>, V put<long, 10, 19, true, 1, 15>, V put<long, 10, 19, true, 2, 15>, V put<long, 10, 19, true, 1, 15>, V put<long, 10, 19, true, 0, 15>, V put<unsigned long, 10, 1, false, 0, 0>, V put<unsigned long, 10, 1, false, 0, 3>, V put<unsigned long, 10, 1, false, 1, 4>, V put<unsigned long, 10, 1, false, 2, 3>, V put<unsigned long, 10, 1, false, 1, 1>, V put<unsigned long, 10, 1, false, 0, 1>, V put<unsigned long, 10, 2, false, 0, 0>, V put<unsigned long, 10, 2, false, 0, 4>, V put<unsigned long, 10, 2, false, 1, 5>, V put<unsigned long, 10, 2, false, 2, 4>, V put<unsigned long, 10, 2, false, 1, 2>, V put<unsigned long, 10, 2, false, 0, 2>, V put<unsigned long, 10, 20, false, 0, 0>, V put<unsigned long, 10, 20, false, 0, 15>, V put<unsigned long, 10, 20, false, 1, 15>, V put<unsigned long, 10, 20, false, 2, 15>, V put<unsigned long, 10, 20, false, 1, 15>, V put<unsigned long, 10, 20, false, 0, 15>, V put<long long, 10, 1, false, 0, 0>, V put<long long, 10, 1, false, 0, 3>, V put<long long, 10, 1, false, 1, 4>, V put<long long, 10, 1, false, 2, 3>, V put<long long, 10, 1, false, 1, 1>, V put<long long, 10, 1, false, 0, 1>, V put<long long, 10, 2, false, 0, 0>, V put<long long, 10, 2, false, 0, 4>, V put<long long, 10, 2, false, 1, 5>, V put<long long, 10, 2, false, 2, 4>, V put<long long, 10, 2, false, 1, 2>, V put<long long, 10, 2, false, 0, 2>, V put<long long, 10, 19, false, 0, 0>, V put<long long, 10, 19, false, 0, 15>, V put<long long, 10, 19, false, 1, 15>, V put<long long, 10, 19, false, 2, 15>, V put<long long, 10, 19, false, 1, 15>, V put<long long, 10, 19, false, 0, 15>, V put<long long, 10, 1, true, 0, 0>, V put<long long, 10, 1, true, 0, 3>, V put<long long, 10, 1, true, 1, 4>, V put<long long, 10, 1, true, 2, 3>, V put<long long, 10, 1, true, 1, 1>, V put<long long, 10, 1, true, 0, 2>, V put<long long, 10, 2, true, 0, 0>, V put<long long, 10, 2, true, 0, 4>, V put<long long, 10, 2, true, 1, 5>, V put<long long, 10, 2, true, 2, 4>, V put<long long, 10, 2, true, 1, 2>, V put<long long, 10, 2, true, 0, 3>, V put<long long, 10, 19, true, 0, 0>, V put<long long, 10, 19, true, 0, 15>, V put<long long, 10, 19, true, 1, 15>, V put<long long, 10, 19, true, 2, 15>, V put<long long, 10, 19, true, 1, 15>, V put<long long, 10, 19, true, 0, 15>)
OBL_INSTANCES(octal, V put<int, 8, 3, false, 0, 5>, V put<int, 8, 3, false, 1, 0>, V put<int, 8, 11, false, 0, 13>, V put<int, 8, 11, false, 1, 0>, V put<int, 8, 11, true, 0, 13>, V put<int, 8, 11, true, 1, 0>, V put<short, 8, 6, true, 0, 8>, V put<short, 8, 6, true, 1, 0>, V put<unsigned short, 8, 6, false, 0, 8>, V put<unsigned short, 8, 6, false, 1, 0>, V put<unsigned char, 8, 3, false, 0, 5>, V put<unsigned char, 8, 3, false, 1, 0>, V put<signed char, 8, 3, true, 0, 5>, V put<signed char, 8, 3, true, 1, 0>, V put<unsigned long, 8, 22, false, 0, 15>, V put<unsigned long, 8, 22, false, 1, 0>, V put<long, 8, 22, true, 0, 15>, V put<long, 8, 22, true, 1, 0>)
OBL_INSTANCES(hex, V put_hex<int, 1, false, 0, 0, 1, false, 2>, V put_hex<int, 1, false, 0, 0, 1, true, 2>, V put_hex<int, 1, false, 0, 0, 2, false, 3>, V put_hex<int, 1, false, 0, 0, 2, true, 3>, V put_hex<int, 1, false, 0, 0, 3, false, 4>, V put_hex<int, 1, false, 0, 0, 3, true, 4>, V put_hex<int, 1, false, 0, 0, 4, false, 1>, V put_hex<int, 1, false, 0, 0, 4, true, 1>, V put_hex<int, 1, false, 0, 0, 5, false, 2>, V put_hex<int, 1, false, 0, 0, 5, true, 2>, V put_hex<int, 1, false, 0, 0, 6, false, 3>, V put_hex<int, 1, false, 0, 0, 6, true, 3>, V put_hex<int, 1, false, 0, 0, 7, false, 4>, V put_hex<int, 1, false, 0, 0, 7, true, 4>, V put_hex<int, 1, false, 0, 0, 8, false, 1>, V put_hex<int, 1, false, 0, 0, 8, true, 1>, V put_hex<int, 1, false, 0, 0, 9, false, 2>, V put_hex<int, 1, false, 0, 0, 9, true, 2>, V put_hex<int, 1, false, 0, 0, 10, false, 3>, V put_hex<int, 1, false, 0, 0, 10, true, 3>, V put_hex<int, 1, false, 0, 0, 11, false, 4>, V put_hex<int, 1, false, 0, 0, 11, true, 4>, V put_hex<int, 1, false, 0, 0, 12, false, 1>, V put_hex<int, 1, false, 0, 0, 12, true, 1>, V put_hex<int, 1, false, 0, 0, 13, false, 2>, V put_hex<int, 1, false, 0, 0, 13, true, 2>, V put_hex<int, 1, false, 0, 0, 14, false, 3>, V put_hex<int, 1, false, 0, 0, 14, true, 3>, V put_hex<int, 1, false, 0, 0, 15, false, 4>, V put_hex<int, 1, false, 0, 0, 15, true, 4>, V put_hex<unsigned, 8, false, 7, 15, 1, false, 9>, V put_hex<unsigned, 8, false, 7, 15, 1, true, 9>, V put_hex<unsigned, 8, false, 7, 15, 2, false, 10>, V put_hex<unsigned, 8, false, 7, 15, 2, true, 10>, V put_hex<unsigned, 8, false, 7, 15, 3, false, 11>, V put_hex<unsigned, 8, false, 7, 15, 3, true, 11>, V put_hex<unsigned, 8, false, 7, 15, 4, false, 8>, V put_hex<unsigned, 8, false, 7, 15, 4, true, 8>, V put_hex<unsigned, 8, false, 7, 15, 5, false, 9>, V put_hex<unsigned, 8, false, 7, 15, 5, true, 9>, V put_hex<unsigned, 8, false, 7, 15, 6, false, 10>, V put_hex<unsigned, 8, false, 7, 15, 6, true, 10>, V put_hex<unsigned, 8, false, 7, 15, 7, false, 11>, V put_hex<unsigned, 8, false, 7, 15, 7, true, 11>, V put_hex<unsigned, 8, false, 7, 15, 8, false, 8>, V put_hex<unsigned, 8, false, 7, 15, 8, true, 8>, V put_hex<unsigned, 8, false, 7, 15, 9, false, 9>, V put_hex<unsigned, 8, false, 7, 15, 9, true, 9>, V put_hex<unsigned, 8, false, 7, 15, 10, false, 10>, V put_hex<unsigned, 8, false, 7, 15, 10, true, 10>, V put_hex<unsigned, 8, false, 7, 15, 11, false, 11>, V put_hex<unsigned, 8, false, 7, 15, 11, true, 11>, V put_hex<unsigned, 8, false, 7, 15, 12, false, 8>, V put_hex<unsigned, 8, false, 7, 15, 12, true, 8>, V put_hex<unsigned, 8, false, 7, 15, 13, false, 9>, V put_hex<unsigned, 8, false, 7, 15, 13, true, 9>, V put_hex<unsigned, 8, false, 7, 15, 14, false, 10>, V put_hex<unsigned, 8, false, 7, 15, 14, true, 10>, V put_hex<unsigned, 8, false, 7, 15, 15, false, 11>, V put_hex<unsigned, 8, false, 7, 15, 15, true, 11>, V put_hex<unsigned char, 2, false, 0, 10, 1, false, 3>, V put_hex<unsigned char, 2, false, 0, 10, 1, true, 3>, V put_hex<unsigned char, 2, false, 0, 10, 2, false, 4>, V put_hex<unsigned char, 2, false, 0, 10, 2, true, 4>, V put_hex<unsigned char, 2, false, 0, 10, 3, false, 5>, V put_hex<unsigned char, 2, false, 0, 10, 3, true, 5>, V put_hex<unsigned char, 2, false, 0, 10, 4, false, 2>, V put_hex<unsigned char, 2, false, 0, 10, 4, true, 2>, V put_hex<unsigned char, 2, false, 0, 10, 5, false, 3>, V put_hex<unsigned char, 2, false, 0, 10, 5, true, 3>, V put_hex<unsigned char, 2, false, 0, 10, 6, false, 4>, V put_hex<unsigned char, 2, false, 0, 10, 6, true, 4>, V put_hex<unsigned char, 2, false, 0, 10, 7, false, 5>, V put_hex<unsigned char, 2, false, 0, 10, 7, true, 5>, V put_hex<unsigned char, 2, false, 0, 10, 8, false, 2>, V put_hex<unsigned char, 2, false, 0, 10, 8, true, 2>, V put_hex<unsigned char, 2, false, 0, 10, 9, false, 3>, V put_hex<unsigned char, 2, false, 0, 10, 9, true, 3>, V put_hex<unsigned char, 2, false, 0, 10, 10, false, 4>, V put_hex<unsigned char, 2, false, 0, 10, 10, true, 4>, V put_hex<unsigned char, 2, false, 0, 10, 11, false, 5>, V put_hex<unsigned char, 2, false, 0, 10, 11, true, 5>, V put_hex<unsigned char, 2, false, 0, 10, 12, false, 2>, V put_hex<unsigned char, 2, false, 0, 10, 12, true, 2>, V put_hex<unsigned char, 2, false, 0, 10, 13, false, 3>, V put_hex<unsigned char, 2, false, 0, 10, 13, true, 3>, V put_hex<unsigned char, 2, false, 0, 10, 14, false, 4>, V put_hex<unsigned char, 2, false, 0, 10, 14, true, 4>, V put_hex<unsigned char, 2, false, 0, 10, 15, false, 5>, V put_hex<unsigned char, 2, false, 0, 10, 15, true, 5>, V put_hex<short, 3, true, 1, 9, 1, false, 4>, V put_hex<short, 3, true, 1, 9, 1, true, 4>, V put_hex<short, 3, true, 1, 9, 2, false, 5>, V put_hex<short, 3, true, 1, 9, 2, true, 5>, V put_hex<short, 3, true, 1, 9, 3, false, 6>, V put_hex<short, 3, true, 1, 9, 3, true, 6>, V put_hex<short, 3, true, 1, 9, 4, false, 3>, V put_hex<short, 3, true, 1, 9, 4, true, 3>, V put_hex<short, 3, true, 1, 9, 5, false, 4>, V put_hex<short, 3, true, 1, 9, 5, true, 4>, V put_hex<short, 3, true, 1, 9, 6, false, 5>, V put_hex<short, 3, true, 1, 9, 6, true, 5>, V put_hex<short, 3, true, 1, 9, 7, false, 6>, V put_hex<short, 3, true, 1, 9, 7, true, 6>, V put_hex<short, 3, true, 1, 9, 8, false, 3>, V put_hex<short, 3, true, 1, 9, 8, true, 3>, V put_hex<short, 3, true, 1, 9, 9, false, 4>, V put_hex<short, 3, true, 1, 9, 9, true, 4>, V put_hex<short, 3, true, 1, 9, 10, false, 5>, V put_hex<short, 3, true, 1, 9, 10, true, 5>, V put_hex<short, 3, true, 1, 9, 11, false, 6>, V put_hex<short, 3, true, 1, 9, 11, true, 6>, V put_hex<short, 3, true, 1, 9, 12, false, 3>, V put_hex<short, 3, true, 1, 9, 12, true, 3>, V put_hex<short, 3, true, 1, 9, 13, false, 4>, V put_hex<short, 3, true, 1, 9, 13, true, 4>, V put_hex<short, 3, true, 1, 9, 14, false, 5>, V put_hex<short, 3, true, 1, 9, 14, true, 5>, V put_hex<short, 3, true, 1, 9, 15, false, 6>, V put_hex<short, 3, true, 1, 9, 15, true, 6>, V put_hex<long, 5, false, 2, 11, 1, false, 6>, V put_hex<long, 5, false, 2, 11, 1, true, 6>, V put_hex<long, 5, false, 2, 11, 2, false, 7>, V put_hex<long, 5, false, 2, 11, 2, true, 7>, V put_hex<long, 5, false, 2, 11, 3, false, 8>, V put_hex<long, 5, false, 2, 11, 3, true, 8>, V put_hex<long, 5, false, 2, 11, 4, false, 5>, V put_hex<long, 5, false, 2, 11, 4, true, 5>, V put_hex<long, 5, false, 2, 11, 5, false, 6>, V put_hex<long, 5, false, 2, 11, 5, true, 6>, V put_hex<long, 5, false, 2, 11, 6, false, 7>, V put_hex<long, 5, false, 2, 11, 6, true, 7>, V put_hex<long, 5, false, 2, 11, 7, false, 8>, V put_hex<long, 5, false, 2, 11, 7, true, 8>, V put_hex<long, 5, false, 2, 11, 8, false, 5>, V put_hex<long, 5, false, 2, 11, 8, true, 5>, V put_hex<long, 5, false, 2, 11, 9, false, 6>, V put_hex<long, 5, false, 2, 11, 9, true, 6>, V put_hex<long, 5, false, 2, 11, 10, false, 7>, V put_hex<long, 5, false, 2, 11, 10, true, 7>, V put_hex<long, 5, false, 2, 11, 11, false, 8>, V put_hex<long, 5, false, 2, 11, 11, true, 8>, V put_hex<long, 5, false, 2, 11, 12, false, 5>, V put_hex<long, 5, false, 2, 11, 12, true, 5>, V put_hex<long, 5, false, 2, 11, 13, false, 6>, V put_hex<long, 5, false, 2, 11, 13, true, 6>, V put_hex<long, 5, false, 2, 11, 14, false, 7>, V put_hex<long, 5, false, 2, 11, 14, true, 7>, V put_hex<long, 5, false, 2, 11, 15, false, 8>, V put_hex<long, 5, false, 2, 11, 15, true, 8>)
OBL_INSTANCES(boolean, V put_bool<false>, V put_bool<true>)
#endif
