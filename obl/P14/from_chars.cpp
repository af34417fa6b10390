// std: 17
// thorough: 20
// min: 800
// shards: 1 2 3
// peel: 8
#include <estd/charconv.h>
#include <estd/locale.h>
#include <estd/istream.h>
#include "obl.h"

template <class T> constexpr bool is_signed_v = T(-1) < T(0);
template <class T> constexpr unsigned long long max_v = is_signed_v<T> ? (1ull << (sizeof(T) * 8 - 1)) - 1 : ~0ull >> (64 - sizeof(T) * 8);
constexpr unsigned long long power(unsigned base, unsigned e) { unsigned long long r = 1; while(e--) r *= base; return r; }
constexpr unsigned digits_of(unsigned base, unsigned long long v) { unsigned r = 1; while(v >= base) { v /= base; ++r; } return r; }
constexpr char letter(int d, bool upper = false) { return d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10); }

// kinds of what stands behind the digits
enum After : int { Nothing, Stranger, Sign, Between, Behind, Alien, Minus, NextDigit, Exactly };
// An unknown character which is no digit of the base: before the digits, between digits and letters, between the
// cases, behind everything, beyond ASCII
template <unsigned base, int kind> static inline char stranger(unsigned char x)
{
    const unsigned char first[] = {0, ':', base <= 10 ? 'A' : 'A' + base - 10, base <= 10 ? 'a' : 'a' + base - 10, 128};
    const unsigned char end[] = {'-', 'A', 'a', 128, 0};
    return char(first[kind] + x % (unsigned char)(end[kind] - first[kind]));
}
template <unsigned base, After after> static inline bool follow(char* p, char x)
{
    if(after >= Stranger && after <= Alien) *p = stranger<base, after - Stranger>(x);
    if(after >= Exactly) *p = char(after - Exactly);
    if(after == Minus) *p = '-';
    if(after == NextDigit) *p = base == 36 ? ' ' : letter(base);   // digit of a larger base
    return true;
}

namespace oblt {
// n unknown digits which fit
template <class T, unsigned base, int n, bool neg, After after>
void fits(unsigned char a, unsigned char b, unsigned char c, unsigned char d, char x, char y, T before)
{
    const unsigned char dig[4] = {(unsigned char)(a % base), (unsigned char)(b % base), (unsigned char)(c % base), (unsigned char)(d % base)};
    struct { char t[8]; char end; } s{};
    T want = 0, v = before;
    if(neg) s.t[0] = '-';
    for(int i = 0; i < n; i++)
    {
        s.t[i + neg] = letter(dig[i]);
        want = want * base + (neg ? -dig[i] : dig[i]);
    }
    constexpr int len = n + neg;
    OBL_ASSUME(follow<base, after>(s.t + len, x));
    s.t[len + 1] = y;
    const char* const last = s.t + len + (after == Nothing ? 0 : 2);
    if(after == Nothing) { s.t[len] = y; }      // not to be looked at
    estd::from_chars_result r = estd::from_chars((const char*)s.t, last, v, base);
    OBL_REQUIRE(r.ptr == s.t + len);
    OBL_REQUIRE(r.ec == 0);
    OBL_REQUIRE(v == want);
    OBL_END;
}
// constant digits: place by place, upper and lower case
template <class T, unsigned base, bool neg, unsigned place, unsigned other, unsigned digit, bool upper>
void letters(char y)
{
    char t[5] = {};
    T want = 0, v = 77;
    if(neg) t[0] = '-';
    for(unsigned i = 0; i < 3; i++)
    {
        const int d = i == place ? digit : other;
        t[i + neg] = letter(d, upper);
        want = want * base + (neg ? -d : d);
    }
    t[3 + neg] = y;
    estd::from_chars_result r = estd::from_chars((const char*)t, t + 3 + neg, v, base);
    OBL_REQUIRE(r.ptr == t + 3 + neg);
    OBL_REQUIRE(r.ec == 0);
    OBL_REQUIRE(v == want);
    OBL_END;
}
// no digits at all: sign 0 none, 1 minus, 2 two of them, 3 plus, 4 space, 5 (unsigned) minus and a digit
template <class T, unsigned base, int sign, After after>
void none(char x, char y, T before)
{
    char t[4] = {sign == 1 || sign == 2 || sign == 5 ? '-' : sign == 3 ? '+' : ' ', sign == 2 ? '-' : '1', y, y};
    const int n = sign == 0 ? 0 : sign == 1 ? 1 : 2;
    T v = before;
    OBL_ASSUME(follow<base, after>(t + n, x));
    estd::from_chars_result r = estd::from_chars((const char*)t, t + n + (after == Nothing ? 0 : 2), v, base);
    OBL_REQUIRE(r.ec == estd::errc::invalid_argument);
    OBL_REQUIRE(r.ptr == t);
    OBL_REQUIRE(v == before);
    OBL_END;
}
// limits: the digits of the limit with the last digit unknown; over: 0 the limit's head, 1 head + 1, 2 one digit more, 3 two more
template <class T, unsigned base, bool neg, int over, int digit, After after>
void limit(char x, char y, T before)
{
    constexpr unsigned long long top = max_v<T> + (neg ? 1 : 0);
    unsigned long long head = top / base + (over == 1 ? 1 : 0);
    const int n = digits_of(base, head);
    struct { char t[72]; } s{};
    if(neg) s.t[0] = '-';
    for(int i = n; i--; head /= base) s.t[neg + i] = letter(head % base);
    s.t[neg + n] = letter(digit);
    int len = neg + n + 1;
    if(over >= 2) s.t[len++] = '0';
    if(over >= 3) s.t[len++] = letter(base - 1);
    OBL_ASSUME(follow<base, after>(s.t + len, x));
    s.t[len + 1] = y;
    if(after == Nothing) s.t[len] = y;
    T v = before;
    estd::from_chars_result r = estd::from_chars((const char*)s.t, s.t + len + (after == Nothing ? 0 : 2), v, base);
    OBL_REQUIRE(r.ptr == s.t + len);
    if(over == 0 && digit <= int(top % base))
    {
        OBL_REQUIRE(r.ec == 0);
        OBL_REQUIRE(v == T(neg ? -(top / base * base + digit) : top / base * base + digit));
    }
    else
    {
        OBL_REQUIRE(r.ec == estd::errc::result_out_of_range);
        OBL_REQUIRE(v == before);
    }
    OBL_END;
}
}
using namespace oblt;
#define V (void*)

#if SHARD == 1
OBL(default_base, unsigned char x, char y)
{
    const char b[3] = {char('0' + x % 10), '9', y};
    int v = 0;
    estd::from_chars_result r = estd::from_chars(b, b + 2, v);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 2 && v == x % 10 * 10 + 9);
    OBL_END;
}
#define F3(T, b, n, g) V fits<T, b, n, g, Nothing>, V fits<T, b, n, g, Stranger>, V fits<T, b, n, g, (n & 1) ? Sign : Between>, V fits<T, b, n, g, (n & 1) ? Alien : Behind>, V fits<T, b, n, g, Minus>
#define FS(T, b, n) F3(T, b, n, false), F3(T, b, n, true)
OBL_INSTANCES(fit, FS(int, 10, 1), FS(int, 10, 2), FS(int, 10, 3), F3(int, 10, 4, false), F3(unsigned, 10, 1, false), F3(unsigned, 10, 4, false), FS(short, 10, 1), FS(short, 10, 3), F3(short, 10, 4, false), F3(unsigned short, 10, 4, false),
    FS(signed char, 10, 1), FS(signed char, 10, 2), F3(unsigned char, 10, 2, false), FS(long, 10, 3), FS(long long, 10, 3), F3(unsigned long, 10, 3, false), F3(unsigned long long, 10, 2, false))
OBL_INSTANCES(fit8, FS(int, 8, 2), F3(int, 2, 2, false), F3(signed char, 2, 4, false), FS(signed char, 2, 2), F3(unsigned char, 8, 2, false), FS(int, 7, 2), V fits<int, 8, 2, true, NextDigit>, V fits<unsigned, 2, 4, false, NextDigit>)
#define N3(T, b, s) V none<T, b, s, Nothing>, V none<T, b, s, Stranger>, V none<T, b, s, Sign>, V none<T, b, s, Between>, V none<T, b, s, Behind>, V none<T, b, s, Alien>
#define AT(k) After(Exactly + (k))
#define NX(T, b, s) V none<T, b, s, Nothing>, V none<T, b, s, Stranger>, V none<T, b, s, AT('/')>, V none<T, b, s, AT(':')>, V none<T, b, s, AT('@')>, V none<T, b, s, AT('A' + b - 10)>, V none<T, b, s, AT('a' + b - 10)>, V none<T, b, s, AT('`')>, V none<T, b, s, AT('{')>, V none<T, b, s, AT(0x80)>, V none<T, b, s, AT(0xff)>, V none<T, b, s, AT(0xc1)>
OBL_INSTANCES(no, N3(int, 10, 0), N3(int, 10, 1), N3(int, 10, 2), N3(int, 10, 3), N3(int, 10, 4), N3(unsigned, 10, 0), N3(unsigned, 10, 1), N3(unsigned, 10, 5), N3(short, 10, 1), NX(short, 16, 0), N3(signed char, 8, 2), NX(unsigned long, 36, 0), NX(long, 16, 1), N3(unsigned char, 2, 5), N3(long long, 10, 0),
    V none<int, 8, 0, NextDigit>, V none<int, 8, 1, NextDigit>, V none<unsigned, 16, 0, NextDigit>)
#elif SHARD == 2
OBL_INSTANCES(l0, V letters<int, 16, false, 0, 3, 0, false>, V letters<int, 16, false, 0, 3, 0, true>, V letters<int, 16, false, 0, 3, 1, false>, V letters<int, 16, false, 0, 3, 1, true>, V letters<int, 16, false, 0, 3, 2, false>, V letters<int, 16, false, 0, 3, 2, true>, V letters<int, 16, false, 0, 3, 3, false>, V letters<int, 16, false, 0, 3, 3, true>, V letters<int, 16, false, 0, 3, 4, false>, V letters<int, 16, false, 0, 3, 4, true>, V letters<int, 16, false, 0, 3, 5, false>, V letters<int, 16, false, 0, 3, 5, true>, V letters<int, 16, false, 0, 3, 6, false>, V letters<int, 16, false, 0, 3, 6, true>, V letters<int, 16, false, 0, 3, 7, false>, V letters<int, 16, false, 0, 3, 7, true>, V letters<int, 16, false, 0, 3, 8, false>, V letters<int, 16, false, 0, 3, 8, true>, V letters<int, 16, false, 0, 3, 9, false>, V letters<int, 16, false, 0, 3, 9, true>, V letters<int, 16, false, 0, 3, 10, false>, V letters<int, 16, false, 0, 3, 10, true>, V letters<int, 16, false, 0, 3, 11, false>, V letters<int, 16, false, 0, 3, 11, true>, V letters<int, 16, false, 0, 3, 12, false>, V letters<int, 16, false, 0, 3, 12, true>, V letters<int, 16, false, 0, 3, 13, false>, V letters<int, 16, false, 0, 3, 13, true>, V letters<int, 16, false, 0, 3, 14, false>, V letters<int, 16, false, 0, 3, 14, true>, V letters<int, 16, false, 0, 3, 15, false>, V letters<int, 16, false, 0, 3, 15, true>)
OBL_INSTANCES(l1, V letters<int, 16, true, 1, 15, 0, false>, V letters<int, 16, true, 1, 15, 0, true>, V letters<int, 16, true, 1, 15, 1, false>, V letters<int, 16, true, 1, 15, 1, true>, V letters<int, 16, true, 1, 15, 2, false>, V letters<int, 16, true, 1, 15, 2, true>, V letters<int, 16, true, 1, 15, 3, false>, V letters<int, 16, true, 1, 15, 3, true>, V letters<int, 16, true, 1, 15, 4, false>, V letters<int, 16, true, 1, 15, 4, true>, V letters<int, 16, true, 1, 15, 5, false>, V letters<int, 16, true, 1, 15, 5, true>, V letters<int, 16, true, 1, 15, 6, false>, V letters<int, 16, true, 1, 15, 6, true>, V letters<int, 16, true, 1, 15, 7, false>, V letters<int, 16, true, 1, 15, 7, true>, V letters<int, 16, true, 1, 15, 8, false>, V letters<int, 16, true, 1, 15, 8, true>, V letters<int, 16, true, 1, 15, 9, false>, V letters<int, 16, true, 1, 15, 9, true>, V letters<int, 16, true, 1, 15, 10, false>, V letters<int, 16, true, 1, 15, 10, true>, V letters<int, 16, true, 1, 15, 11, false>, V letters<int, 16, true, 1, 15, 11, true>, V letters<int, 16, true, 1, 15, 12, false>, V letters<int, 16, true, 1, 15, 12, true>, V letters<int, 16, true, 1, 15, 13, false>, V letters<int, 16, true, 1, 15, 13, true>, V letters<int, 16, true, 1, 15, 14, false>, V letters<int, 16, true, 1, 15, 14, true>, V letters<int, 16, true, 1, 15, 15, false>, V letters<int, 16, true, 1, 15, 15, true>)
OBL_INSTANCES(l2, V letters<unsigned, 16, false, 2, 10, 0, false>, V letters<unsigned, 16, false, 2, 10, 0, true>, V letters<unsigned, 16, false, 2, 10, 1, false>, V letters<unsigned, 16, false, 2, 10, 1, true>, V letters<unsigned, 16, false, 2, 10, 2, false>, V letters<unsigned, 16, false, 2, 10, 2, true>, V letters<unsigned, 16, false, 2, 10, 3, false>, V letters<unsigned, 16, false, 2, 10, 3, true>, V letters<unsigned, 16, false, 2, 10, 4, false>, V letters<unsigned, 16, false, 2, 10, 4, true>, V letters<unsigned, 16, false, 2, 10, 5, false>, V letters<unsigned, 16, false, 2, 10, 5, true>, V letters<unsigned, 16, false, 2, 10, 6, false>, V letters<unsigned, 16, false, 2, 10, 6, true>, V letters<unsigned, 16, false, 2, 10, 7, false>, V letters<unsigned, 16, false, 2, 10, 7, true>, V letters<unsigned, 16, false, 2, 10, 8, false>, V letters<unsigned, 16, false, 2, 10, 8, true>, V letters<unsigned, 16, false, 2, 10, 9, false>, V letters<unsigned, 16, false, 2, 10, 9, true>, V letters<unsigned, 16, false, 2, 10, 10, false>, V letters<unsigned, 16, false, 2, 10, 10, true>, V letters<unsigned, 16, false, 2, 10, 11, false>, V letters<unsigned, 16, false, 2, 10, 11, true>, V letters<unsigned, 16, false, 2, 10, 12, false>, V letters<unsigned, 16, false, 2, 10, 12, true>, V letters<unsigned, 16, false, 2, 10, 13, false>, V letters<unsigned, 16, false, 2, 10, 13, true>, V letters<unsigned, 16, false, 2, 10, 14, false>, V letters<unsigned, 16, false, 2, 10, 14, true>, V letters<unsigned, 16, false, 2, 10, 15, false>, V letters<unsigned, 16, false, 2, 10, 15, true>)
OBL_INSTANCES(l3, V letters<long, 36, false, 1, 1, 0, false>, V letters<long, 36, false, 1, 1, 0, true>, V letters<long, 36, false, 1, 1, 1, false>, V letters<long, 36, false, 1, 1, 1, true>, V letters<long, 36, false, 1, 1, 2, false>, V letters<long, 36, false, 1, 1, 2, true>, V letters<long, 36, false, 1, 1, 3, false>, V letters<long, 36, false, 1, 1, 3, true>, V letters<long, 36, false, 1, 1, 4, false>, V letters<long, 36, false, 1, 1, 4, true>, V letters<long, 36, false, 1, 1, 5, false>, V letters<long, 36, false, 1, 1, 5, true>, V letters<long, 36, false, 1, 1, 6, false>, V letters<long, 36, false, 1, 1, 6, true>, V letters<long, 36, false, 1, 1, 7, false>, V letters<long, 36, false, 1, 1, 7, true>, V letters<long, 36, false, 1, 1, 8, false>, V letters<long, 36, false, 1, 1, 8, true>, V letters<long, 36, false, 1, 1, 9, false>, V letters<long, 36, false, 1, 1, 9, true>, V letters<long, 36, false, 1, 1, 10, false>, V letters<long, 36, false, 1, 1, 10, true>, V letters<long, 36, false, 1, 1, 11, false>, V letters<long, 36, false, 1, 1, 11, true>, V letters<long, 36, false, 1, 1, 12, false>, V letters<long, 36, false, 1, 1, 12, true>, V letters<long, 36, false, 1, 1, 13, false>, V letters<long, 36, false, 1, 1, 13, true>, V letters<long, 36, false, 1, 1, 14, false>, V letters<long, 36, false, 1, 1, 14, true>, V letters<long, 36, false, 1, 1, 15, false>, V letters<long, 36, false, 1, 1, 15, true>, V letters<long, 36, false, 1, 1, 16, false>, V letters<long, 36, false, 1, 1, 16, true>, V letters<long, 36, false, 1, 1, 17, false>, V letters<long, 36, false, 1, 1, 17, true>, V letters<long, 36, false, 1, 1, 18, false>, V letters<long, 36, false, 1, 1, 18, true>, V letters<long, 36, false, 1, 1, 19, false>, V letters<long, 36, false, 1, 1, 19, true>, V letters<long, 36, false, 1, 1, 20, false>, V letters<long, 36, false, 1, 1, 20, true>, V letters<long, 36, false, 1, 1, 21, false>, V letters<long, 36, false, 1, 1, 21, true>, V letters<long, 36, false, 1, 1, 22, false>, V letters<long, 36, false, 1, 1, 22, true>, V letters<long, 36, false, 1, 1, 23, false>, V letters<long, 36, false, 1, 1, 23, true>, V letters<long, 36, false, 1, 1, 24, false>, V letters<long, 36, false, 1, 1, 24, true>, V letters<long, 36, false, 1, 1, 25, false>, V letters<long, 36, false, 1, 1, 25, true>, V letters<long, 36, false, 1, 1, 26, false>, V letters<long, 36, false, 1, 1, 26, true>, V letters<long, 36, false, 1, 1, 27, false>, V letters<long, 36, false, 1, 1, 27, true>, V letters<long, 36, false, 1, 1, 28, false>, V letters<long, 36, false, 1, 1, 28, true>, V letters<long, 36, false, 1, 1, 29, false>, V letters<long, 36, false, 1, 1, 29, true>, V letters<long, 36, false, 1, 1, 30, false>, V letters<long, 36, false, 1, 1, 30, true>, V letters<long, 36, false, 1, 1, 31, false>, V letters<long, 36, false, 1, 1, 31, true>, V letters<long, 36, false, 1, 1, 32, false>, V letters<long, 36, false, 1, 1, 32, true>, V letters<long, 36, false, 1, 1, 33, false>, V letters<long, 36, false, 1, 1, 33, true>, V letters<long, 36, false, 1, 1, 34, false>, V letters<long, 36, false, 1, 1, 34, true>, V letters<long, 36, false, 1, 1, 35, false>, V letters<long, 36, false, 1, 1, 35, true>)
OBL_INSTANCES(l4, V letters<unsigned short, 11, false, 2, 10, 0, false>, V letters<unsigned short, 11, false, 2, 10, 0, true>, V letters<unsigned short, 11, false, 2, 10, 1, false>, V letters<unsigned short, 11, false, 2, 10, 1, true>, V letters<unsigned short, 11, false, 2, 10, 2, false>, V letters<unsigned short, 11, false, 2, 10, 2, true>, V letters<unsigned short, 11, false, 2, 10, 3, false>, V letters<unsigned short, 11, false, 2, 10, 3, true>, V letters<unsigned short, 11, false, 2, 10, 4, false>, V letters<unsigned short, 11, false, 2, 10, 4, true>, V letters<unsigned short, 11, false, 2, 10, 5, false>, V letters<unsigned short, 11, false, 2, 10, 5, true>, V letters<unsigned short, 11, false, 2, 10, 6, false>, V letters<unsigned short, 11, false, 2, 10, 6, true>, V letters<unsigned short, 11, false, 2, 10, 7, false>, V letters<unsigned short, 11, false, 2, 10, 7, true>, V letters<unsigned short, 11, false, 2, 10, 8, false>, V letters<unsigned short, 11, false, 2, 10, 8, true>, V letters<unsigned short, 11, false, 2, 10, 9, false>, V letters<unsigned short, 11, false, 2, 10, 9, true>, V letters<unsigned short, 11, false, 2, 10, 10, false>, V letters<unsigned short, 11, false, 2, 10, 10, true>)
OBL_INSTANCES(l5, V letters<int, 36, true, 2, 34, 0, false>, V letters<int, 36, true, 2, 34, 0, true>, V letters<int, 36, true, 2, 34, 1, false>, V letters<int, 36, true, 2, 34, 1, true>, V letters<int, 36, true, 2, 34, 2, false>, V letters<int, 36, true, 2, 34, 2, true>, V letters<int, 36, true, 2, 34, 3, false>, V letters<int, 36, true, 2, 34, 3, true>, V letters<int, 36, true, 2, 34, 4, false>, V letters<int, 36, true, 2, 34, 4, true>, V letters<int, 36, true, 2, 34, 5, false>, V letters<int, 36, true, 2, 34, 5, true>, V letters<int, 36, true, 2, 34, 6, false>, V letters<int, 36, true, 2, 34, 6, true>, V letters<int, 36, true, 2, 34, 7, false>, V letters<int, 36, true, 2, 34, 7, true>, V letters<int, 36, true, 2, 34, 8, false>, V letters<int, 36, true, 2, 34, 8, true>, V letters<int, 36, true, 2, 34, 9, false>, V letters<int, 36, true, 2, 34, 9, true>, V letters<int, 36, true, 2, 34, 10, false>, V letters<int, 36, true, 2, 34, 10, true>, V letters<int, 36, true, 2, 34, 11, false>, V letters<int, 36, true, 2, 34, 11, true>, V letters<int, 36, true, 2, 34, 12, false>, V letters<int, 36, true, 2, 34, 12, true>, V letters<int, 36, true, 2, 34, 13, false>, V letters<int, 36, true, 2, 34, 13, true>, V letters<int, 36, true, 2, 34, 14, false>, V letters<int, 36, true, 2, 34, 14, true>, V letters<int, 36, true, 2, 34, 15, false>, V letters<int, 36, true, 2, 34, 15, true>, V letters<int, 36, true, 2, 34, 16, false>, V letters<int, 36, true, 2, 34, 16, true>, V letters<int, 36, true, 2, 34, 17, false>, V letters<int, 36, true, 2, 34, 17, true>, V letters<int, 36, true, 2, 34, 18, false>, V letters<int, 36, true, 2, 34, 18, true>, V letters<int, 36, true, 2, 34, 19, false>, V letters<int, 36, true, 2, 34, 19, true>, V letters<int, 36, true, 2, 34, 20, false>, V letters<int, 36, true, 2, 34, 20, true>, V letters<int, 36, true, 2, 34, 21, false>, V letters<int, 36, true, 2, 34, 21, true>, V letters<int, 36, true, 2, 34, 22, false>, V letters<int, 36, true, 2, 34, 22, true>, V letters<int, 36, true, 2, 34, 23, false>, V letters<int, 36, true, 2, 34, 23, true>, V letters<int, 36, true, 2, 34, 24, false>, V letters<int, 36, true, 2, 34, 24, true>, V letters<int, 36, true, 2, 34, 25, false>, V letters<int, 36, true, 2, 34, 25, true>, V letters<int, 36, true, 2, 34, 26, false>, V letters<int, 36, true, 2, 34, 26, true>, V letters<int, 36, true, 2, 34, 27, false>, V letters<int, 36, true, 2, 34, 27, true>, V letters<int, 36, true, 2, 34, 28, false>, V letters<int, 36, true, 2, 34, 28, true>, V letters<int, 36, true, 2, 34, 29, false>, V letters<int, 36, true, 2, 34, 29, true>, V letters<int, 36, true, 2, 34, 30, false>, V letters<int, 36, true, 2, 34, 30, true>, V letters<int, 36, true, 2, 34, 31, false>, V letters<int, 36, true, 2, 34, 31, true>, V letters<int, 36, true, 2, 34, 32, false>, V letters<int, 36, true, 2, 34, 32, true>, V letters<int, 36, true, 2, 34, 33, false>, V letters<int, 36, true, 2, 34, 33, true>, V letters<int, 36, true, 2, 34, 34, false>, V letters<int, 36, true, 2, 34, 34, true>, V letters<int, 36, true, 2, 34, 35, false>, V letters<int, 36, true, 2, 34, 35, true>)
#elif SHARD == 3
OBL_INSTANCES(m0, V limit<signed char, 10, false, 0, 0, Nothing>, V limit<signed char, 10, false, 0, 0, Stranger>, V limit<signed char, 10, false, 0, 1, Nothing>, V limit<signed char, 10, false, 0, 1, Stranger>, V limit<signed char, 10, false, 0, 2, Nothing>, V limit<signed char, 10, false, 0, 2, Stranger>, V limit<signed char, 10, false, 0, 3, Nothing>, V limit<signed char, 10, false, 0, 3, Stranger>, V limit<signed char, 10, false, 0, 4, Nothing>, V limit<signed char, 10, false, 0, 4, Stranger>, V limit<signed char, 10, false, 0, 5, Nothing>, V limit<signed char, 10, false, 0, 5, Stranger>, V limit<signed char, 10, false, 0, 6, Nothing>, V limit<signed char, 10, false, 0, 6, Stranger>, V limit<signed char, 10, false, 0, 7, Nothing>, V limit<signed char, 10, false, 0, 7, Stranger>, V limit<signed char, 10, false, 0, 8, Nothing>, V limit<signed char, 10, false, 0, 8, Stranger>, V limit<signed char, 10, false, 0, 9, Nothing>, V limit<signed char, 10, false, 0, 9, Stranger>, V limit<signed char, 10, false, 1, 0, Nothing>, V limit<signed char, 10, false, 1, 9, Stranger>, V limit<signed char, 10, false, 2, 0, Nothing>, V limit<signed char, 10, false, 2, 9, Stranger>, V limit<signed char, 10, false, 3, 0, Nothing>, V limit<signed char, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m1, V limit<signed char, 10, true, 0, 0, Nothing>, V limit<signed char, 10, true, 0, 0, Stranger>, V limit<signed char, 10, true, 0, 1, Nothing>, V limit<signed char, 10, true, 0, 1, Stranger>, V limit<signed char, 10, true, 0, 2, Nothing>, V limit<signed char, 10, true, 0, 2, Stranger>, V limit<signed char, 10, true, 0, 3, Nothing>, V limit<signed char, 10, true, 0, 3, Stranger>, V limit<signed char, 10, true, 0, 4, Nothing>, V limit<signed char, 10, true, 0, 4, Stranger>, V limit<signed char, 10, true, 0, 5, Nothing>, V limit<signed char, 10, true, 0, 5, Stranger>, V limit<signed char, 10, true, 0, 6, Nothing>, V limit<signed char, 10, true, 0, 6, Stranger>, V limit<signed char, 10, true, 0, 7, Nothing>, V limit<signed char, 10, true, 0, 7, Stranger>, V limit<signed char, 10, true, 0, 8, Nothing>, V limit<signed char, 10, true, 0, 8, Stranger>, V limit<signed char, 10, true, 0, 9, Nothing>, V limit<signed char, 10, true, 0, 9, Stranger>, V limit<signed char, 10, true, 1, 0, Nothing>, V limit<signed char, 10, true, 1, 9, Stranger>, V limit<signed char, 10, true, 2, 0, Nothing>, V limit<signed char, 10, true, 2, 9, Stranger>, V limit<signed char, 10, true, 3, 0, Nothing>, V limit<signed char, 10, true, 3, 9, Stranger>)
OBL_INSTANCES(m2, V limit<signed char, 2, false, 0, 0, Nothing>, V limit<signed char, 2, false, 0, 0, Stranger>, V limit<signed char, 2, false, 0, 1, Nothing>, V limit<signed char, 2, false, 0, 1, Stranger>, V limit<signed char, 2, false, 1, 0, Nothing>, V limit<signed char, 2, false, 1, 1, Stranger>, V limit<signed char, 2, false, 2, 0, Nothing>, V limit<signed char, 2, false, 2, 1, Stranger>, V limit<signed char, 2, false, 3, 0, Nothing>, V limit<signed char, 2, false, 3, 1, Stranger>, V limit<signed char, 2, false, 2, 1, NextDigit>)
OBL_INSTANCES(m3, V limit<signed char, 2, true, 0, 0, Nothing>, V limit<signed char, 2, true, 0, 0, Stranger>, V limit<signed char, 2, true, 0, 1, Nothing>, V limit<signed char, 2, true, 0, 1, Stranger>, V limit<signed char, 2, true, 1, 0, Nothing>, V limit<signed char, 2, true, 1, 1, Stranger>, V limit<signed char, 2, true, 2, 0, Nothing>, V limit<signed char, 2, true, 2, 1, Stranger>, V limit<signed char, 2, true, 3, 0, Nothing>, V limit<signed char, 2, true, 3, 1, Stranger>, V limit<signed char, 2, true, 2, 1, NextDigit>)
OBL_INSTANCES(m4, V limit<signed char, 16, false, 0, 0, Nothing>, V limit<signed char, 16, false, 0, 0, Stranger>, V limit<signed char, 16, false, 0, 1, Nothing>, V limit<signed char, 16, false, 0, 1, Stranger>, V limit<signed char, 16, false, 0, 2, Nothing>, V limit<signed char, 16, false, 0, 2, Stranger>, V limit<signed char, 16, false, 0, 3, Nothing>, V limit<signed char, 16, false, 0, 3, Stranger>, V limit<signed char, 16, false, 0, 4, Nothing>, V limit<signed char, 16, false, 0, 4, Stranger>, V limit<signed char, 16, false, 0, 5, Nothing>, V limit<signed char, 16, false, 0, 5, Stranger>, V limit<signed char, 16, false, 0, 6, Nothing>, V limit<signed char, 16, false, 0, 6, Stranger>, V limit<signed char, 16, false, 0, 7, Nothing>, V limit<signed char, 16, false, 0, 7, Stranger>, V limit<signed char, 16, false, 0, 8, Nothing>, V limit<signed char, 16, false, 0, 8, Stranger>, V limit<signed char, 16, false, 0, 9, Nothing>, V limit<signed char, 16, false, 0, 9, Stranger>, V limit<signed char, 16, false, 0, 10, Nothing>, V limit<signed char, 16, false, 0, 10, Stranger>, V limit<signed char, 16, false, 0, 11, Nothing>, V limit<signed char, 16, false, 0, 11, Stranger>, V limit<signed char, 16, false, 0, 12, Nothing>, V limit<signed char, 16, false, 0, 12, Stranger>, V limit<signed char, 16, false, 0, 13, Nothing>, V limit<signed char, 16, false, 0, 13, Stranger>, V limit<signed char, 16, false, 0, 14, Nothing>, V limit<signed char, 16, false, 0, 14, Stranger>, V limit<signed char, 16, false, 0, 15, Nothing>, V limit<signed char, 16, false, 0, 15, Stranger>, V limit<signed char, 16, false, 1, 0, Nothing>, V limit<signed char, 16, false, 1, 15, Stranger>, V limit<signed char, 16, false, 2, 0, Nothing>, V limit<signed char, 16, false, 2, 15, Stranger>, V limit<signed char, 16, false, 3, 0, Nothing>, V limit<signed char, 16, false, 3, 15, Stranger>, V limit<signed char, 16, false, 2, 1, NextDigit>)
OBL_INSTANCES(m5, V limit<signed char, 16, true, 0, 0, Nothing>, V limit<signed char, 16, true, 0, 0, Stranger>, V limit<signed char, 16, true, 0, 1, Nothing>, V limit<signed char, 16, true, 0, 1, Stranger>, V limit<signed char, 16, true, 0, 2, Nothing>, V limit<signed char, 16, true, 0, 2, Stranger>, V limit<signed char, 16, true, 0, 3, Nothing>, V limit<signed char, 16, true, 0, 3, Stranger>, V limit<signed char, 16, true, 0, 4, Nothing>, V limit<signed char, 16, true, 0, 4, Stranger>, V limit<signed char, 16, true, 0, 5, Nothing>, V limit<signed char, 16, true, 0, 5, Stranger>, V limit<signed char, 16, true, 0, 6, Nothing>, V limit<signed char, 16, true, 0, 6, Stranger>, V limit<signed char, 16, true, 0, 7, Nothing>, V limit<signed char, 16, true, 0, 7, Stranger>, V limit<signed char, 16, true, 0, 8, Nothing>, V limit<signed char, 16, true, 0, 8, Stranger>, V limit<signed char, 16, true, 0, 9, Nothing>, V limit<signed char, 16, true, 0, 9, Stranger>, V limit<signed char, 16, true, 0, 10, Nothing>, V limit<signed char, 16, true, 0, 10, Stranger>, V limit<signed char, 16, true, 0, 11, Nothing>, V limit<signed char, 16, true, 0, 11, Stranger>, V limit<signed char, 16, true, 0, 12, Nothing>, V limit<signed char, 16, true, 0, 12, Stranger>, V limit<signed char, 16, true, 0, 13, Nothing>, V limit<signed char, 16, true, 0, 13, Stranger>, V limit<signed char, 16, true, 0, 14, Nothing>, V limit<signed char, 16, true, 0, 14, Stranger>, V limit<signed char, 16, true, 0, 15, Nothing>, V limit<signed char, 16, true, 0, 15, Stranger>, V limit<signed char, 16, true, 1, 0, Nothing>, V limit<signed char, 16, true, 1, 15, Stranger>, V limit<signed char, 16, true, 2, 0, Nothing>, V limit<signed char, 16, true, 2, 15, Stranger>, V limit<signed char, 16, true, 3, 0, Nothing>, V limit<signed char, 16, true, 3, 15, Stranger>, V limit<signed char, 16, true, 2, 1, NextDigit>)
OBL_INSTANCES(m6, V limit<unsigned char, 10, false, 0, 0, Nothing>, V limit<unsigned char, 10, false, 0, 0, Stranger>, V limit<unsigned char, 10, false, 0, 1, Nothing>, V limit<unsigned char, 10, false, 0, 1, Stranger>, V limit<unsigned char, 10, false, 0, 2, Nothing>, V limit<unsigned char, 10, false, 0, 2, Stranger>, V limit<unsigned char, 10, false, 0, 3, Nothing>, V limit<unsigned char, 10, false, 0, 3, Stranger>, V limit<unsigned char, 10, false, 0, 4, Nothing>, V limit<unsigned char, 10, false, 0, 4, Stranger>, V limit<unsigned char, 10, false, 0, 5, Nothing>, V limit<unsigned char, 10, false, 0, 5, Stranger>, V limit<unsigned char, 10, false, 0, 6, Nothing>, V limit<unsigned char, 10, false, 0, 6, Stranger>, V limit<unsigned char, 10, false, 0, 7, Nothing>, V limit<unsigned char, 10, false, 0, 7, Stranger>, V limit<unsigned char, 10, false, 0, 8, Nothing>, V limit<unsigned char, 10, false, 0, 8, Stranger>, V limit<unsigned char, 10, false, 0, 9, Nothing>, V limit<unsigned char, 10, false, 0, 9, Stranger>, V limit<unsigned char, 10, false, 1, 0, Nothing>, V limit<unsigned char, 10, false, 1, 9, Stranger>, V limit<unsigned char, 10, false, 2, 0, Nothing>, V limit<unsigned char, 10, false, 2, 9, Stranger>, V limit<unsigned char, 10, false, 3, 0, Nothing>, V limit<unsigned char, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m7, V limit<unsigned char, 2, false, 0, 0, Nothing>, V limit<unsigned char, 2, false, 0, 0, Stranger>, V limit<unsigned char, 2, false, 0, 1, Nothing>, V limit<unsigned char, 2, false, 0, 1, Stranger>, V limit<unsigned char, 2, false, 1, 0, Nothing>, V limit<unsigned char, 2, false, 1, 1, Stranger>, V limit<unsigned char, 2, false, 2, 0, Nothing>, V limit<unsigned char, 2, false, 2, 1, Stranger>, V limit<unsigned char, 2, false, 3, 0, Nothing>, V limit<unsigned char, 2, false, 3, 1, Stranger>, V limit<unsigned char, 2, false, 2, 1, NextDigit>)
OBL_INSTANCES(m8, V limit<unsigned char, 16, false, 0, 0, Nothing>, V limit<unsigned char, 16, false, 0, 0, Stranger>, V limit<unsigned char, 16, false, 0, 1, Nothing>, V limit<unsigned char, 16, false, 0, 1, Stranger>, V limit<unsigned char, 16, false, 0, 2, Nothing>, V limit<unsigned char, 16, false, 0, 2, Stranger>, V limit<unsigned char, 16, false, 0, 3, Nothing>, V limit<unsigned char, 16, false, 0, 3, Stranger>, V limit<unsigned char, 16, false, 0, 4, Nothing>, V limit<unsigned char, 16, false, 0, 4, Stranger>, V limit<unsigned char, 16, false, 0, 5, Nothing>, V limit<unsigned char, 16, false, 0, 5, Stranger>, V limit<unsigned char, 16, false, 0, 6, Nothing>, V limit<unsigned char, 16, false, 0, 6, Stranger>, V limit<unsigned char, 16, false, 0, 7, Nothing>, V limit<unsigned char, 16, false, 0, 7, Stranger>, V limit<unsigned char, 16, false, 0, 8, Nothing>, V limit<unsigned char, 16, false, 0, 8, Stranger>, V limit<unsigned char, 16, false, 0, 9, Nothing>, V limit<unsigned char, 16, false, 0, 9, Stranger>, V limit<unsigned char, 16, false, 0, 10, Nothing>, V limit<unsigned char, 16, false, 0, 10, Stranger>, V limit<unsigned char, 16, false, 0, 11, Nothing>, V limit<unsigned char, 16, false, 0, 11, Stranger>, V limit<unsigned char, 16, false, 0, 12, Nothing>, V limit<unsigned char, 16, false, 0, 12, Stranger>, V limit<unsigned char, 16, false, 0, 13, Nothing>, V limit<unsigned char, 16, false, 0, 13, Stranger>, V limit<unsigned char, 16, false, 0, 14, Nothing>, V limit<unsigned char, 16, false, 0, 14, Stranger>, V limit<unsigned char, 16, false, 0, 15, Nothing>, V limit<unsigned char, 16, false, 0, 15, Stranger>, V limit<unsigned char, 16, false, 1, 0, Nothing>, V limit<unsigned char, 16, false, 1, 15, Stranger>, V limit<unsigned char, 16, false, 2, 0, Nothing>, V limit<unsigned char, 16, false, 2, 15, Stranger>, V limit<unsigned char, 16, false, 3, 0, Nothing>, V limit<unsigned char, 16, false, 3, 15, Stranger>, V limit<unsigned char, 16, false, 2, 1, NextDigit>)
OBL_INSTANCES(m9, V limit<short, 8, false, 0, 0, Nothing>, V limit<short, 8, false, 0, 0, Stranger>, V limit<short, 8, false, 0, 1, Nothing>, V limit<short, 8, false, 0, 2, Nothing>, V limit<short, 8, false, 0, 3, Nothing>, V limit<short, 8, false, 0, 3, Stranger>, V limit<short, 8, false, 0, 4, Nothing>, V limit<short, 8, false, 0, 5, Nothing>, V limit<short, 8, false, 0, 6, Nothing>, V limit<short, 8, false, 0, 6, Stranger>, V limit<short, 8, false, 0, 7, Nothing>, V limit<short, 8, false, 1, 0, Nothing>, V limit<short, 8, false, 1, 7, Stranger>, V limit<short, 8, false, 2, 0, Nothing>, V limit<short, 8, false, 2, 7, Stranger>, V limit<short, 8, false, 3, 0, Nothing>, V limit<short, 8, false, 3, 7, Stranger>, V limit<short, 8, false, 2, 1, NextDigit>)
OBL_INSTANCES(m10, V limit<short, 8, true, 0, 0, Nothing>, V limit<short, 8, true, 0, 0, Stranger>, V limit<short, 8, true, 0, 1, Nothing>, V limit<short, 8, true, 0, 2, Nothing>, V limit<short, 8, true, 0, 3, Nothing>, V limit<short, 8, true, 0, 3, Stranger>, V limit<short, 8, true, 0, 4, Nothing>, V limit<short, 8, true, 0, 5, Nothing>, V limit<short, 8, true, 0, 6, Nothing>, V limit<short, 8, true, 0, 6, Stranger>, V limit<short, 8, true, 0, 7, Nothing>, V limit<short, 8, true, 1, 0, Nothing>, V limit<short, 8, true, 1, 7, Stranger>, V limit<short, 8, true, 2, 0, Nothing>, V limit<short, 8, true, 2, 7, Stranger>, V limit<short, 8, true, 3, 0, Nothing>, V limit<short, 8, true, 3, 7, Stranger>, V limit<short, 8, true, 2, 1, NextDigit>)
OBL_INSTANCES(m11, V limit<short, 10, false, 0, 0, Nothing>, V limit<short, 10, false, 0, 0, Stranger>, V limit<short, 10, false, 0, 1, Nothing>, V limit<short, 10, false, 0, 2, Nothing>, V limit<short, 10, false, 0, 3, Nothing>, V limit<short, 10, false, 0, 3, Stranger>, V limit<short, 10, false, 0, 4, Nothing>, V limit<short, 10, false, 0, 5, Nothing>, V limit<short, 10, false, 0, 6, Nothing>, V limit<short, 10, false, 0, 6, Stranger>, V limit<short, 10, false, 0, 7, Nothing>, V limit<short, 10, false, 0, 8, Nothing>, V limit<short, 10, false, 0, 9, Nothing>, V limit<short, 10, false, 0, 9, Stranger>, V limit<short, 10, false, 1, 0, Nothing>, V limit<short, 10, false, 1, 9, Stranger>, V limit<short, 10, false, 2, 0, Nothing>, V limit<short, 10, false, 2, 9, Stranger>, V limit<short, 10, false, 3, 0, Nothing>, V limit<short, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m12, V limit<short, 10, true, 0, 0, Nothing>, V limit<short, 10, true, 0, 0, Stranger>, V limit<short, 10, true, 0, 1, Nothing>, V limit<short, 10, true, 0, 2, Nothing>, V limit<short, 10, true, 0, 3, Nothing>, V limit<short, 10, true, 0, 3, Stranger>, V limit<short, 10, true, 0, 4, Nothing>, V limit<short, 10, true, 0, 5, Nothing>, V limit<short, 10, true, 0, 6, Nothing>, V limit<short, 10, true, 0, 6, Stranger>, V limit<short, 10, true, 0, 7, Nothing>, V limit<short, 10, true, 0, 8, Nothing>, V limit<short, 10, true, 0, 9, Nothing>, V limit<short, 10, true, 0, 9, Stranger>, V limit<short, 10, true, 1, 0, Nothing>, V limit<short, 10, true, 1, 9, Stranger>, V limit<short, 10, true, 2, 0, Nothing>, V limit<short, 10, true, 2, 9, Stranger>, V limit<short, 10, true, 3, 0, Nothing>, V limit<short, 10, true, 3, 9, Stranger>)
OBL_INSTANCES(m13, V limit<unsigned short, 8, false, 0, 0, Nothing>, V limit<unsigned short, 8, false, 0, 0, Stranger>, V limit<unsigned short, 8, false, 0, 1, Nothing>, V limit<unsigned short, 8, false, 0, 2, Nothing>, V limit<unsigned short, 8, false, 0, 3, Nothing>, V limit<unsigned short, 8, false, 0, 3, Stranger>, V limit<unsigned short, 8, false, 0, 4, Nothing>, V limit<unsigned short, 8, false, 0, 5, Nothing>, V limit<unsigned short, 8, false, 0, 6, Nothing>, V limit<unsigned short, 8, false, 0, 6, Stranger>, V limit<unsigned short, 8, false, 0, 7, Nothing>, V limit<unsigned short, 8, false, 1, 0, Nothing>, V limit<unsigned short, 8, false, 1, 7, Stranger>, V limit<unsigned short, 8, false, 2, 0, Nothing>, V limit<unsigned short, 8, false, 2, 7, Stranger>, V limit<unsigned short, 8, false, 3, 0, Nothing>, V limit<unsigned short, 8, false, 3, 7, Stranger>, V limit<unsigned short, 8, false, 2, 1, NextDigit>)
OBL_INSTANCES(m14, V limit<unsigned short, 10, false, 0, 0, Nothing>, V limit<unsigned short, 10, false, 0, 0, Stranger>, V limit<unsigned short, 10, false, 0, 1, Nothing>, V limit<unsigned short, 10, false, 0, 2, Nothing>, V limit<unsigned short, 10, false, 0, 3, Nothing>, V limit<unsigned short, 10, false, 0, 3, Stranger>, V limit<unsigned short, 10, false, 0, 4, Nothing>, V limit<unsigned short, 10, false, 0, 5, Nothing>, V limit<unsigned short, 10, false, 0, 6, Nothing>, V limit<unsigned short, 10, false, 0, 6, Stranger>, V limit<unsigned short, 10, false, 0, 7, Nothing>, V limit<unsigned short, 10, false, 0, 8, Nothing>, V limit<unsigned short, 10, false, 0, 9, Nothing>, V limit<unsigned short, 10, false, 0, 9, Stranger>, V limit<unsigned short, 10, false, 1, 0, Nothing>, V limit<unsigned short, 10, false, 1, 9, Stranger>, V limit<unsigned short, 10, false, 2, 0, Nothing>, V limit<unsigned short, 10, false, 2, 9, Stranger>, V limit<unsigned short, 10, false, 3, 0, Nothing>, V limit<unsigned short, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m15, V limit<int, 10, false, 0, 0, Nothing>, V limit<int, 10, false, 0, 0, Stranger>, V limit<int, 10, false, 0, 1, Nothing>, V limit<int, 10, false, 0, 2, Nothing>, V limit<int, 10, false, 0, 3, Nothing>, V limit<int, 10, false, 0, 3, Stranger>, V limit<int, 10, false, 0, 4, Nothing>, V limit<int, 10, false, 0, 5, Nothing>, V limit<int, 10, false, 0, 6, Nothing>, V limit<int, 10, false, 0, 6, Stranger>, V limit<int, 10, false, 0, 7, Nothing>, V limit<int, 10, false, 0, 8, Nothing>, V limit<int, 10, false, 0, 9, Nothing>, V limit<int, 10, false, 0, 9, Stranger>, V limit<int, 10, false, 1, 0, Nothing>, V limit<int, 10, false, 1, 9, Stranger>, V limit<int, 10, false, 2, 0, Nothing>, V limit<int, 10, false, 2, 9, Stranger>, V limit<int, 10, false, 3, 0, Nothing>, V limit<int, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m16, V limit<int, 10, true, 0, 0, Nothing>, V limit<int, 10, true, 0, 0, Stranger>, V limit<int, 10, true, 0, 1, Nothing>, V limit<int, 10, true, 0, 2, Nothing>, V limit<int, 10, true, 0, 3, Nothing>, V limit<int, 10, true, 0, 3, Stranger>, V limit<int, 10, true, 0, 4, Nothing>, V limit<int, 10, true, 0, 5, Nothing>, V limit<int, 10, true, 0, 6, Nothing>, V limit<int, 10, true, 0, 6, Stranger>, V limit<int, 10, true, 0, 7, Nothing>, V limit<int, 10, true, 0, 8, Nothing>, V limit<int, 10, true, 0, 9, Nothing>, V limit<int, 10, true, 0, 9, Stranger>, V limit<int, 10, true, 1, 0, Nothing>, V limit<int, 10, true, 1, 9, Stranger>, V limit<int, 10, true, 2, 0, Nothing>, V limit<int, 10, true, 2, 9, Stranger>, V limit<int, 10, true, 3, 0, Nothing>, V limit<int, 10, true, 3, 9, Stranger>)
OBL_INSTANCES(m17, V limit<int, 16, false, 0, 0, Nothing>, V limit<int, 16, false, 0, 0, Stranger>, V limit<int, 16, false, 0, 1, Nothing>, V limit<int, 16, false, 0, 2, Nothing>, V limit<int, 16, false, 0, 3, Nothing>, V limit<int, 16, false, 0, 3, Stranger>, V limit<int, 16, false, 0, 4, Nothing>, V limit<int, 16, false, 0, 5, Nothing>, V limit<int, 16, false, 0, 6, Nothing>, V limit<int, 16, false, 0, 6, Stranger>, V limit<int, 16, false, 0, 7, Nothing>, V limit<int, 16, false, 0, 8, Nothing>, V limit<int, 16, false, 0, 9, Nothing>, V limit<int, 16, false, 0, 9, Stranger>, V limit<int, 16, false, 0, 10, Nothing>, V limit<int, 16, false, 0, 11, Nothing>, V limit<int, 16, false, 0, 12, Nothing>, V limit<int, 16, false, 0, 12, Stranger>, V limit<int, 16, false, 0, 13, Nothing>, V limit<int, 16, false, 0, 14, Nothing>, V limit<int, 16, false, 0, 15, Nothing>, V limit<int, 16, false, 0, 15, Stranger>, V limit<int, 16, false, 1, 0, Nothing>, V limit<int, 16, false, 1, 15, Stranger>, V limit<int, 16, false, 2, 0, Nothing>, V limit<int, 16, false, 2, 15, Stranger>, V limit<int, 16, false, 3, 0, Nothing>, V limit<int, 16, false, 3, 15, Stranger>, V limit<int, 16, false, 2, 1, NextDigit>)
OBL_INSTANCES(m18, V limit<int, 16, true, 0, 0, Nothing>, V limit<int, 16, true, 0, 0, Stranger>, V limit<int, 16, true, 0, 1, Nothing>, V limit<int, 16, true, 0, 2, Nothing>, V limit<int, 16, true, 0, 3, Nothing>, V limit<int, 16, true, 0, 3, Stranger>, V limit<int, 16, true, 0, 4, Nothing>, V limit<int, 16, true, 0, 5, Nothing>, V limit<int, 16, true, 0, 6, Nothing>, V limit<int, 16, true, 0, 6, Stranger>, V limit<int, 16, true, 0, 7, Nothing>, V limit<int, 16, true, 0, 8, Nothing>, V limit<int, 16, true, 0, 9, Nothing>, V limit<int, 16, true, 0, 9, Stranger>, V limit<int, 16, true, 0, 10, Nothing>, V limit<int, 16, true, 0, 11, Nothing>, V limit<int, 16, true, 0, 12, Nothing>, V limit<int, 16, true, 0, 12, Stranger>, V limit<int, 16, true, 0, 13, Nothing>, V limit<int, 16, true, 0, 14, Nothing>, V limit<int, 16, true, 0, 15, Nothing>, V limit<int, 16, true, 0, 15, Stranger>, V limit<int, 16, true, 1, 0, Nothing>, V limit<int, 16, true, 1, 15, Stranger>, V limit<int, 16, true, 2, 0, Nothing>, V limit<int, 16, true, 2, 15, Stranger>, V limit<int, 16, true, 3, 0, Nothing>, V limit<int, 16, true, 3, 15, Stranger>, V limit<int, 16, true, 2, 1, NextDigit>)
OBL_INSTANCES(m19, V limit<unsigned, 10, false, 0, 0, Nothing>, V limit<unsigned, 10, false, 0, 0, Stranger>, V limit<unsigned, 10, false, 0, 1, Nothing>, V limit<unsigned, 10, false, 0, 2, Nothing>, V limit<unsigned, 10, false, 0, 3, Nothing>, V limit<unsigned, 10, false, 0, 3, Stranger>, V limit<unsigned, 10, false, 0, 4, Nothing>, V limit<unsigned, 10, false, 0, 5, Nothing>, V limit<unsigned, 10, false, 0, 6, Nothing>, V limit<unsigned, 10, false, 0, 6, Stranger>, V limit<unsigned, 10, false, 0, 7, Nothing>, V limit<unsigned, 10, false, 0, 8, Nothing>, V limit<unsigned, 10, false, 0, 9, Nothing>, V limit<unsigned, 10, false, 0, 9, Stranger>, V limit<unsigned, 10, false, 1, 0, Nothing>, V limit<unsigned, 10, false, 1, 9, Stranger>, V limit<unsigned, 10, false, 2, 0, Nothing>, V limit<unsigned, 10, false, 2, 9, Stranger>, V limit<unsigned, 10, false, 3, 0, Nothing>, V limit<unsigned, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m20, V limit<unsigned, 16, false, 0, 0, Nothing>, V limit<unsigned, 16, false, 0, 0, Stranger>, V limit<unsigned, 16, false, 0, 1, Nothing>, V limit<unsigned, 16, false, 0, 2, Nothing>, V limit<unsigned, 16, false, 0, 3, Nothing>, V limit<unsigned, 16, false, 0, 3, Stranger>, V limit<unsigned, 16, false, 0, 4, Nothing>, V limit<unsigned, 16, false, 0, 5, Nothing>, V limit<unsigned, 16, false, 0, 6, Nothing>, V limit<unsigned, 16, false, 0, 6, Stranger>, V limit<unsigned, 16, false, 0, 7, Nothing>, V limit<unsigned, 16, false, 0, 8, Nothing>, V limit<unsigned, 16, false, 0, 9, Nothing>, V limit<unsigned, 16, false, 0, 9, Stranger>, V limit<unsigned, 16, false, 0, 10, Nothing>, V limit<unsigned, 16, false, 0, 11, Nothing>, V limit<unsigned, 16, false, 0, 12, Nothing>, V limit<unsigned, 16, false, 0, 12, Stranger>, V limit<unsigned, 16, false, 0, 13, Nothing>, V limit<unsigned, 16, false, 0, 14, Nothing>, V limit<unsigned, 16, false, 0, 15, Nothing>, V limit<unsigned, 16, false, 0, 15, Stranger>, V limit<unsigned, 16, false, 1, 0, Nothing>, V limit<unsigned, 16, false, 1, 15, Stranger>, V limit<unsigned, 16, false, 2, 0, Nothing>, V limit<unsigned, 16, false, 2, 15, Stranger>, V limit<unsigned, 16, false, 3, 0, Nothing>, V limit<unsigned, 16, false, 3, 15, Stranger>, V limit<unsigned, 16, false, 2, 1, NextDigit>)
OBL_INSTANCES(m21, V limit<long, 10, false, 0, 0, Nothing>, V limit<long, 10, false, 0, 0, Stranger>, V limit<long, 10, false, 0, 1, Nothing>, V limit<long, 10, false, 0, 2, Nothing>, V limit<long, 10, false, 0, 3, Nothing>, V limit<long, 10, false, 0, 3, Stranger>, V limit<long, 10, false, 0, 4, Nothing>, V limit<long, 10, false, 0, 5, Nothing>, V limit<long, 10, false, 0, 6, Nothing>, V limit<long, 10, false, 0, 6, Stranger>, V limit<long, 10, false, 0, 7, Nothing>, V limit<long, 10, false, 0, 8, Nothing>, V limit<long, 10, false, 0, 9, Nothing>, V limit<long, 10, false, 0, 9, Stranger>, V limit<long, 10, false, 1, 0, Nothing>, V limit<long, 10, false, 1, 9, Stranger>, V limit<long, 10, false, 2, 0, Nothing>, V limit<long, 10, false, 2, 9, Stranger>, V limit<long, 10, false, 3, 0, Nothing>, V limit<long, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m22, V limit<long, 10, true, 0, 0, Nothing>, V limit<long, 10, true, 0, 0, Stranger>, V limit<long, 10, true, 0, 1, Nothing>, V limit<long, 10, true, 0, 2, Nothing>, V limit<long, 10, true, 0, 3, Nothing>, V limit<long, 10, true, 0, 3, Stranger>, V limit<long, 10, true, 0, 4, Nothing>, V limit<long, 10, true, 0, 5, Nothing>, V limit<long, 10, true, 0, 6, Nothing>, V limit<long, 10, true, 0, 6, Stranger>, V limit<long, 10, true, 0, 7, Nothing>, V limit<long, 10, true, 0, 8, Nothing>, V limit<long, 10, true, 0, 9, Nothing>, V limit<long, 10, true, 0, 9, Stranger>, V limit<long, 10, true, 1, 0, Nothing>, V limit<long, 10, true, 1, 9, Stranger>, V limit<long, 10, true, 2, 0, Nothing>, V limit<long, 10, true, 2, 9, Stranger>, V limit<long, 10, true, 3, 0, Nothing>, V limit<long, 10, true, 3, 9, Stranger>)
OBL_INSTANCES(m23, V limit<unsigned long, 10, false, 0, 0, Nothing>, V limit<unsigned long, 10, false, 0, 0, Stranger>, V limit<unsigned long, 10, false, 0, 1, Nothing>, V limit<unsigned long, 10, false, 0, 2, Nothing>, V limit<unsigned long, 10, false, 0, 3, Nothing>, V limit<unsigned long, 10, false, 0, 3, Stranger>, V limit<unsigned long, 10, false, 0, 4, Nothing>, V limit<unsigned long, 10, false, 0, 5, Nothing>, V limit<unsigned long, 10, false, 0, 6, Nothing>, V limit<unsigned long, 10, false, 0, 6, Stranger>, V limit<unsigned long, 10, false, 0, 7, Nothing>, V limit<unsigned long, 10, false, 0, 8, Nothing>, V limit<unsigned long, 10, false, 0, 9, Nothing>, V limit<unsigned long, 10, false, 0, 9, Stranger>, V limit<unsigned long, 10, false, 1, 0, Nothing>, V limit<unsigned long, 10, false, 1, 9, Stranger>, V limit<unsigned long, 10, false, 2, 0, Nothing>, V limit<unsigned long, 10, false, 2, 9, Stranger>, V limit<unsigned long, 10, false, 3, 0, Nothing>, V limit<unsigned long, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m24, V limit<long long, 10, false, 0, 0, Nothing>, V limit<long long, 10, false, 0, 0, Stranger>, V limit<long long, 10, false, 0, 1, Nothing>, V limit<long long, 10, false, 0, 2, Nothing>, V limit<long long, 10, false, 0, 3, Nothing>, V limit<long long, 10, false, 0, 3, Stranger>, V limit<long long, 10, false, 0, 4, Nothing>, V limit<long long, 10, false, 0, 5, Nothing>, V limit<long long, 10, false, 0, 6, Nothing>, V limit<long long, 10, false, 0, 6, Stranger>, V limit<long long, 10, false, 0, 7, Nothing>, V limit<long long, 10, false, 0, 8, Nothing>, V limit<long long, 10, false, 0, 9, Nothing>, V limit<long long, 10, false, 0, 9, Stranger>, V limit<long long, 10, false, 1, 0, Nothing>, V limit<long long, 10, false, 1, 9, Stranger>, V limit<long long, 10, false, 2, 0, Nothing>, V limit<long long, 10, false, 2, 9, Stranger>, V limit<long long, 10, false, 3, 0, Nothing>, V limit<long long, 10, false, 3, 9, Stranger>)
OBL_INSTANCES(m25, V limit<long long, 10, true, 0, 0, Nothing>, V limit<long long, 10, true, 0, 0, Stranger>, V limit<long long, 10, true, 0, 1, Nothing>, V limit<long long, 10, true, 0, 2, Nothing>, V limit<long long, 10, true, 0, 3, Nothing>, V limit<long long, 10, true, 0, 3, Stranger>, V limit<long long, 10, true, 0, 4, Nothing>, V limit<long long, 10, true, 0, 5, Nothing>, V limit<long long, 10, true, 0, 6, Nothing>, V limit<long long, 10, true, 0, 6, Stranger>, V limit<long long, 10, true, 0, 7, Nothing>, V limit<long long, 10, true, 0, 8, Nothing>, V limit<long long, 10, true, 0, 9, Nothing>, V limit<long long, 10, true, 0, 9, Stranger>, V limit<long long, 10, true, 1, 0, Nothing>, V limit<long long, 10, true, 1, 9, Stranger>, V limit<long long, 10, true, 2, 0, Nothing>, V limit<long long, 10, true, 2, 9, Stranger>, V limit<long long, 10, true, 3, 0, Nothing>, V limit<long long, 10, true, 3, 9, Stranger>)
#endif
