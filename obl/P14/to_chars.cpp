// std: 17
// thorough: 20
// min: 600
// shards: 1 2 3 4 5
// peel: 8
#include <estd/charconv.h>
#include <estd/string.h>
#include "obl.h"

template <class T> constexpr bool is_signed_v = T(-1) < T(0);
template <class T> constexpr unsigned long long max_v = is_signed_v<T> ? (1ull << (sizeof(T) * 8 - 1)) - 1 : ~0ull >> (64 - sizeof(T) * 8);
template <class T> constexpr unsigned digits_of(unsigned base, unsigned long long v = max_v<T>) { unsigned r = 1; while(v >= base) { v /= base; ++r; } return r; }
constexpr unsigned long long power(unsigned base, unsigned e) { unsigned long long r = 1; while(e--) r *= base; return r; }

// the digit of v at place p, by division of the value or of its magnitude (equal, but folded apart)
constexpr char letter(int d, bool upper = false) { return d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10); }
template <class T, unsigned base> static inline bool is_digit(char c, T v, unsigned p, bool upper)
{
    if(v >= 0) return c == letter(int(v / T(power(base, p)) % T(base)));
    typedef unsigned long long U;
    return c == letter(-int(v / T(power(base, p)) % T(base))) ||
        c == letter(int((-U(v)) / power(base, p) % base)) ||
        c == letter(int(T(-v) / T(power(base, p)) % T(base)));
}

// restricts v to the values with this sign and this number of digits
template <class T, unsigned base, unsigned n, bool neg> static inline bool in_class(T v)
{
    const unsigned long long top = max_v<T> + (neg ? 1 : 0);
    const unsigned long long lo = n == 1 ? (neg ? 1 : 0) : power(base, n - 1);
    const unsigned long long hi = n >= digits_of<T>(base, top) ? top : power(base, n) - 1;
    if(neg) return v <= T(-lo) && v >= T(-hi);
    return v >= T(lo) && v <= T(hi);
}

struct Buf { char c[72]; };
#define TEXT(p, v) do { \
        if(neg) OBL_REQUIRE((p)[0] == '-'); \
        for(unsigned i = 0; i < n; i++) OBL_REQUIRE(is_digit<T, base>((p)[neg + n - 1 - i], v, i, upper)); \
    } while(0)

// room: -1 exact, -2 one too few, otherwise the number of spare places
namespace oblt {
template <class T, unsigned base, unsigned n, bool neg, int spare>
void exact(T v, char g0, char g1)
{
    constexpr int len = n + neg;
    constexpr int room = len + spare;
    constexpr bool upper = false;
    OBL_ASSUME(in_class<T, base, n, neg>(v));
    char b[room + 2];
    b[0] = g0; b[room + 1] = g1;
    estd::to_chars_result r = estd::to_chars(b + 1, b + 1 + room, v, base);
    if(spare < 0)
    {
        OBL_REQUIRE(r.ec == estd::errc::value_too_large);
        OBL_REQUIRE(r.ptr == b + 1 + room);
    }
    else
    {
        OBL_REQUIRE(r.ec == 0);
        OBL_REQUIRE(r.ptr == b + 1 + len);
        TEXT(b + 1, v);
    }
    OBL_REQUIRE(b[0] == g0 && b[room + 1] == g1);
    OBL_END;
}
template <class T, unsigned base, unsigned n, bool neg, int spare>
void forwards(T v, char g0, char g1)
{
    constexpr int len = n + neg;
    constexpr int room = len + spare;
    constexpr bool upper = false;
    OBL_ASSUME(in_class<T, base, n, neg>(v));
    char b[room + 2];
    b[0] = g0; b[room + 1] = g1;
    estd::to_chars_result r = estd::to_chars_exp(b + 1, b + 1 + room, v, base);
    if(spare < 0)
        OBL_REQUIRE(r.ec == estd::errc::value_too_large);
    else
    {
        OBL_REQUIRE(r.ec == 0);
        OBL_REQUIRE(r.ptr == b + 1 + len);
        TEXT(b + 1, v);
    }
    OBL_REQUIRE(b[0] == g0 && b[room + 1] == g1);
    OBL_END;
}
template <class T, unsigned base, unsigned n, bool neg, int spare, int upcase>
void opt(T v, char g0, char g1)
{
    constexpr int len = n + neg;
    constexpr int room = len + spare;
    constexpr bool upper = upcase == 1;
    OBL_ASSUME(in_class<T, base, n, neg>(v));
    char b[room + 2];
    b[0] = g0; b[room + 1] = g1;
    estd::to_chars_result r = upcase < 0 ? estd::to_chars_opt(b + 1, b + 1 + room, v, base) : estd::to_chars_opt(b + 1, b + 1 + room, v, base, upper);
    if(spare < 0)
        OBL_REQUIRE(r.ec == estd::errc::value_too_large);
    else
    {
        OBL_REQUIRE(r.ec == 0);
        OBL_REQUIRE(r.ptr == b + 1 + room - len);
        TEXT(r.ptr, v);
    }
    OBL_REQUIRE(b[0] == g0 && b[room + 1] == g1);
    OBL_END;
}
template <class T, unsigned n, bool neg>
void to_string(T v)
{
    constexpr unsigned base = 10;
    constexpr bool upper = false;
    OBL_ASSUME((in_class<T, base, n, neg>(v)));
    auto s = estd::to_string(v);
    OBL_REQUIRE(s.size() == n + neg);
    char c[32];
    for(unsigned i = 0; i < n + neg; i++) c[i] = s[i];
    TEXT(c, v);
    OBL_END;
}
template <class T, unsigned base, unsigned n, bool neg, int spare>
void to_string_opt(T v, char g)
{
    constexpr int len = n + neg;
    constexpr bool upper = false;
    OBL_ASSUME(in_class<T, base, n, neg>(v));
    struct { char b[len + 1 + spare]; char g; } x;
    x.g = g;
    estd::to_chars_result r = estd::to_string_opt(x.b, v, base);
    OBL_REQUIRE(r.ec == 0 && r.ptr == x.b + spare && x.b[len + spare] == 0 && x.g == g);
    TEXT(r.ptr, v);
    estd::to_chars_result q = estd::to_string_opt<base>(x.b, v);
    OBL_REQUIRE(q.ec == 0 && q.ptr == x.b + spare && x.b[len + spare] == 0 && x.g == g);
    TEXT(q.ptr, v);
    OBL_END;
}
// into a string given, which ends where the text does; what does not fit leaves nothing outside
template <class T, unsigned n, bool neg, int spare, int kind>
void to_given(T v, char g, char h)
{
    constexpr unsigned base = 10;
    constexpr int len = n + neg;
    constexpr bool upper = false;
    OBL_ASSUME((in_class<T, base, n, neg>(v)));
    struct { char g; char b[len + 1 + spare]; char h; } x;
    x.g = g; x.h = h;
    if(kind == 0)
    {
        struct { char g; estd::layer1::string<len + 1 + spare> s; char h; } y;
        y.g = g; y.h = h;
        estd::to_string(y.s, v);
        const char* t = &y.s.get_allocator().clock({});
        if(spare >= 0) { OBL_REQUIRE(t[len] == 0); TEXT(t, v); }
        OBL_REQUIRE(y.g == g && y.h == h);
    }
    else
    {
        estd::layer2::string<len + 1 + spare> s(x.b, 0);
        estd::to_string(s, v);
        if(spare >= 1) { OBL_REQUIRE(x.b[len] == 0); TEXT(x.b, v); }
        OBL_REQUIRE(x.g == g && x.h == h);
    }
    OBL_END;
}
// bases with letters: every digit at every place, the others being d, at the value's very digits
template <class T, unsigned base, bool neg, unsigned n> static inline void text(const char* p, unsigned long long m, bool upper)
{
    if(neg) OBL_HREQUIRE(p[0] == '-');
    for(unsigned i = 0; i < n; i++) OBL_HREQUIRE(p[neg + n - 1 - i] == letter(m / power(base, i) % base, upper));
}
template <class T, unsigned base, unsigned n, bool neg, unsigned place, unsigned other, unsigned digit>
void letters(char g0, char g1)
{
    unsigned long long m = 0;
    for(unsigned i = n; i--;) m = m * base + (i == place ? digit : other);
    const T v = neg ? T(-m) : T(m);
    constexpr int len = n + neg;
    char b[len + 3];
    b[0] = g0; b[len + 1] = g1;
    estd::to_chars_result r = estd::to_chars(b + 1, b + 1 + len, v, base);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 1 + len);
    text<T, base, neg, n>(b + 1, m, false);
    r = estd::to_chars_exp(b + 1, b + 1 + len, v, base);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 1 + len);
    text<T, base, neg, n>(b + 1, m, false);
    r = estd::to_chars_opt(b + 1, b + 1 + len, v, base);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 1);
    text<T, base, neg, n>(b + 1, m, false);
    r = estd::to_chars_opt(b + 1, b + 1 + len, v, base, false);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 1);
    text<T, base, neg, n>(b + 1, m, false);
    r = estd::to_chars_opt(b + 1, b + 1 + len, v, base, true);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 1);
    text<T, base, neg, n>(b + 1, m, true);
    OBL_REQUIRE(b[0] == g0 && b[len + 1] == g1);
    OBL_REQUIRE(estd::to_chars(b + 1, b + len, v, base).ec == estd::errc::value_too_large);
    OBL_REQUIRE(estd::to_chars_opt(b + 1, b + len, v, base, true).ec == estd::errc::value_too_large);
    OBL_REQUIRE(estd::to_chars_exp(b + 1, b + len, v, base).ec == estd::errc::value_too_large);
    OBL_REQUIRE(b[0] == g0 && b[len + 1] == g1);
    OBL_END;
}
}
using namespace oblt;

template <class T, unsigned base, unsigned n, bool neg, int spare> struct one
{
    static void* const p[];
};
#define ALL(F, ...) (void*)F<__VA_ARGS__>
#define ROOMS(F, T, b, n, g) (void*)F<T, b, n, g, 0>, (void*)F<T, b, n, g, -1>, (void*)F<T, b, n, g, 2>
#define SGN(F, T, b, n) ROOMS(F, T, b, n, false), ROOMS(F, T, b, n, true)

#if SHARD == 1
OBL(default_base, unsigned char x, char y)
{
    OBL_ASSUME(x >= 10 && x < 100);
    char b[2] = {y, y};
    int v = x;
    estd::to_chars_result r = estd::to_chars(b, b + 2, v);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 2 && (is_digit<int, 10>(b[0], v, 1, false)) && (is_digit<int, 10>(b[1], v, 0, false)));
    r = estd::to_chars_opt(b, b + 2, v);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b && (is_digit<int, 10>(b[0], v, 1, false)) && (is_digit<int, 10>(b[1], v, 0, false)));
    r = estd::to_chars_exp(b, b + 2, v);
    OBL_REQUIRE(r.ec == 0 && r.ptr == b + 2 && (is_digit<int, 10>(b[0], v, 1, false)) && (is_digit<int, 10>(b[1], v, 0, false)));
    OBL_END;
}
OBL_INSTANCES(i8, SGN(exact, signed char, 10, 1), SGN(exact, signed char, 10, 2), SGN(exact, signed char, 10, 3))
OBL_INSTANCES(u8, ROOMS(exact, unsigned char, 10, 1, false), ROOMS(exact, unsigned char, 10, 2, false), ROOMS(exact, unsigned char, 10, 3, false))
OBL_INSTANCES(i16, SGN(exact, short, 10, 1), SGN(exact, short, 10, 2), SGN(exact, short, 10, 3), SGN(exact, short, 10, 4), SGN(exact, short, 10, 5))
OBL_INSTANCES(u16, ROOMS(exact, unsigned short, 10, 1, false), ROOMS(exact, unsigned short, 10, 3, false), ROOMS(exact, unsigned short, 10, 5, false))
#elif SHARD == 2
OBL_INSTANCES(i32, SGN(exact, int, 10, 1), SGN(exact, int, 10, 2), SGN(exact, int, 10, 4), SGN(exact, int, 10, 7), SGN(exact, int, 10, 9), SGN(exact, int, 10, 10))
OBL_INSTANCES(u32, ROOMS(exact, unsigned, 10, 1, false), ROOMS(exact, unsigned, 10, 5, false), ROOMS(exact, unsigned, 10, 10, false))
OBL_INSTANCES(i64, SGN(exact, long, 10, 1), SGN(exact, long, 10, 3), SGN(exact, long, 10, 10), SGN(exact, long, 10, 18), SGN(exact, long, 10, 19))
OBL_INSTANCES(i64b, SGN(exact, long long, 10, 1), SGN(exact, long long, 10, 11), SGN(exact, long long, 10, 19))
OBL_INSTANCES(u64, ROOMS(exact, unsigned long, 10, 2, false), ROOMS(exact, unsigned long, 10, 20, false))
#elif SHARD == 3
OBL_INSTANCES(b2, SGN(exact, signed char, 2, 1), SGN(exact, signed char, 2, 4), SGN(exact, signed char, 2, 7), (void*)exact<signed char, 2, 8, true, 0>, (void*)exact<signed char, 2, 8, true, -1>, ROOMS(exact, unsigned, 2, 32, false))
OBL_INSTANCES(b8, SGN(exact, int, 8, 3), ROOMS(exact, int, 8, 11, true), ROOMS(exact, unsigned short, 8, 6, false))
OBL_INSTANCES(int16_1_0f, (void*)letters<int, 16, 1, false, 0, 1, 1>, (void*)letters<int, 16, 1, false, 0, 1, 2>, (void*)letters<int, 16, 1, false, 0, 1, 3>, (void*)letters<int, 16, 1, false, 0, 1, 4>, (void*)letters<int, 16, 1, false, 0, 1, 5>, (void*)letters<int, 16, 1, false, 0, 1, 6>, (void*)letters<int, 16, 1, false, 0, 1, 7>, (void*)letters<int, 16, 1, false, 0, 1, 8>, (void*)letters<int, 16, 1, false, 0, 1, 9>, (void*)letters<int, 16, 1, false, 0, 1, 10>, (void*)letters<int, 16, 1, false, 0, 1, 11>, (void*)letters<int, 16, 1, false, 0, 1, 12>, (void*)letters<int, 16, 1, false, 0, 1, 13>, (void*)letters<int, 16, 1, false, 0, 1, 14>, (void*)letters<int, 16, 1, false, 0, 1, 15>)
OBL_INSTANCES(int16_3_0t, (void*)letters<int, 16, 3, true, 0, 10, 0>, (void*)letters<int, 16, 3, true, 0, 10, 1>, (void*)letters<int, 16, 3, true, 0, 10, 2>, (void*)letters<int, 16, 3, true, 0, 10, 3>, (void*)letters<int, 16, 3, true, 0, 10, 4>, (void*)letters<int, 16, 3, true, 0, 10, 5>, (void*)letters<int, 16, 3, true, 0, 10, 6>, (void*)letters<int, 16, 3, true, 0, 10, 7>, (void*)letters<int, 16, 3, true, 0, 10, 8>, (void*)letters<int, 16, 3, true, 0, 10, 9>, (void*)letters<int, 16, 3, true, 0, 10, 10>, (void*)letters<int, 16, 3, true, 0, 10, 11>, (void*)letters<int, 16, 3, true, 0, 10, 12>, (void*)letters<int, 16, 3, true, 0, 10, 13>, (void*)letters<int, 16, 3, true, 0, 10, 14>, (void*)letters<int, 16, 3, true, 0, 10, 15>)
OBL_INSTANCES(int16_3_1t, (void*)letters<int, 16, 3, true, 1, 10, 0>, (void*)letters<int, 16, 3, true, 1, 10, 1>, (void*)letters<int, 16, 3, true, 1, 10, 2>, (void*)letters<int, 16, 3, true, 1, 10, 3>, (void*)letters<int, 16, 3, true, 1, 10, 4>, (void*)letters<int, 16, 3, true, 1, 10, 5>, (void*)letters<int, 16, 3, true, 1, 10, 6>, (void*)letters<int, 16, 3, true, 1, 10, 7>, (void*)letters<int, 16, 3, true, 1, 10, 8>, (void*)letters<int, 16, 3, true, 1, 10, 9>, (void*)letters<int, 16, 3, true, 1, 10, 10>, (void*)letters<int, 16, 3, true, 1, 10, 11>, (void*)letters<int, 16, 3, true, 1, 10, 12>, (void*)letters<int, 16, 3, true, 1, 10, 13>, (void*)letters<int, 16, 3, true, 1, 10, 14>, (void*)letters<int, 16, 3, true, 1, 10, 15>)
OBL_INSTANCES(int16_3_2t, (void*)letters<int, 16, 3, true, 2, 10, 1>, (void*)letters<int, 16, 3, true, 2, 10, 2>, (void*)letters<int, 16, 3, true, 2, 10, 3>, (void*)letters<int, 16, 3, true, 2, 10, 4>, (void*)letters<int, 16, 3, true, 2, 10, 5>, (void*)letters<int, 16, 3, true, 2, 10, 6>, (void*)letters<int, 16, 3, true, 2, 10, 7>, (void*)letters<int, 16, 3, true, 2, 10, 8>, (void*)letters<int, 16, 3, true, 2, 10, 9>, (void*)letters<int, 16, 3, true, 2, 10, 10>, (void*)letters<int, 16, 3, true, 2, 10, 11>, (void*)letters<int, 16, 3, true, 2, 10, 12>, (void*)letters<int, 16, 3, true, 2, 10, 13>, (void*)letters<int, 16, 3, true, 2, 10, 14>, (void*)letters<int, 16, 3, true, 2, 10, 15>)
OBL_INSTANCES(int16_3_0f, (void*)letters<int, 16, 3, false, 0, 9, 0>, (void*)letters<int, 16, 3, false, 0, 9, 1>, (void*)letters<int, 16, 3, false, 0, 9, 2>, (void*)letters<int, 16, 3, false, 0, 9, 3>, (void*)letters<int, 16, 3, false, 0, 9, 4>, (void*)letters<int, 16, 3, false, 0, 9, 5>, (void*)letters<int, 16, 3, false, 0, 9, 6>, (void*)letters<int, 16, 3, false, 0, 9, 7>, (void*)letters<int, 16, 3, false, 0, 9, 8>, (void*)letters<int, 16, 3, false, 0, 9, 9>, (void*)letters<int, 16, 3, false, 0, 9, 10>, (void*)letters<int, 16, 3, false, 0, 9, 11>, (void*)letters<int, 16, 3, false, 0, 9, 12>, (void*)letters<int, 16, 3, false, 0, 9, 13>, (void*)letters<int, 16, 3, false, 0, 9, 14>, (void*)letters<int, 16, 3, false, 0, 9, 15>)
OBL_INSTANCES(int16_3_1f, (void*)letters<int, 16, 3, false, 1, 9, 0>, (void*)letters<int, 16, 3, false, 1, 9, 1>, (void*)letters<int, 16, 3, false, 1, 9, 2>, (void*)letters<int, 16, 3, false, 1, 9, 3>, (void*)letters<int, 16, 3, false, 1, 9, 4>, (void*)letters<int, 16, 3, false, 1, 9, 5>, (void*)letters<int, 16, 3, false, 1, 9, 6>, (void*)letters<int, 16, 3, false, 1, 9, 7>, (void*)letters<int, 16, 3, false, 1, 9, 8>, (void*)letters<int, 16, 3, false, 1, 9, 9>, (void*)letters<int, 16, 3, false, 1, 9, 10>, (void*)letters<int, 16, 3, false, 1, 9, 11>, (void*)letters<int, 16, 3, false, 1, 9, 12>, (void*)letters<int, 16, 3, false, 1, 9, 13>, (void*)letters<int, 16, 3, false, 1, 9, 14>, (void*)letters<int, 16, 3, false, 1, 9, 15>)
OBL_INSTANCES(int16_3_2f, (void*)letters<int, 16, 3, false, 2, 9, 1>, (void*)letters<int, 16, 3, false, 2, 9, 2>, (void*)letters<int, 16, 3, false, 2, 9, 3>, (void*)letters<int, 16, 3, false, 2, 9, 4>, (void*)letters<int, 16, 3, false, 2, 9, 5>, (void*)letters<int, 16, 3, false, 2, 9, 6>, (void*)letters<int, 16, 3, false, 2, 9, 7>, (void*)letters<int, 16, 3, false, 2, 9, 8>, (void*)letters<int, 16, 3, false, 2, 9, 9>, (void*)letters<int, 16, 3, false, 2, 9, 10>, (void*)letters<int, 16, 3, false, 2, 9, 11>, (void*)letters<int, 16, 3, false, 2, 9, 12>, (void*)letters<int, 16, 3, false, 2, 9, 13>, (void*)letters<int, 16, 3, false, 2, 9, 14>, (void*)letters<int, 16, 3, false, 2, 9, 15>)
OBL_INSTANCES(unsigned16_8_0f, (void*)letters<unsigned, 16, 8, false, 0, 15, 0>, (void*)letters<unsigned, 16, 8, false, 0, 15, 1>, (void*)letters<unsigned, 16, 8, false, 0, 15, 2>, (void*)letters<unsigned, 16, 8, false, 0, 15, 3>, (void*)letters<unsigned, 16, 8, false, 0, 15, 4>, (void*)letters<unsigned, 16, 8, false, 0, 15, 5>, (void*)letters<unsigned, 16, 8, false, 0, 15, 6>, (void*)letters<unsigned, 16, 8, false, 0, 15, 7>, (void*)letters<unsigned, 16, 8, false, 0, 15, 8>, (void*)letters<unsigned, 16, 8, false, 0, 15, 9>, (void*)letters<unsigned, 16, 8, false, 0, 15, 10>, (void*)letters<unsigned, 16, 8, false, 0, 15, 11>, (void*)letters<unsigned, 16, 8, false, 0, 15, 12>, (void*)letters<unsigned, 16, 8, false, 0, 15, 13>, (void*)letters<unsigned, 16, 8, false, 0, 15, 14>, (void*)letters<unsigned, 16, 8, false, 0, 15, 15>)
OBL_INSTANCES(unsigned16_8_7f, (void*)letters<unsigned, 16, 8, false, 7, 15, 1>, (void*)letters<unsigned, 16, 8, false, 7, 15, 2>, (void*)letters<unsigned, 16, 8, false, 7, 15, 3>, (void*)letters<unsigned, 16, 8, false, 7, 15, 4>, (void*)letters<unsigned, 16, 8, false, 7, 15, 5>, (void*)letters<unsigned, 16, 8, false, 7, 15, 6>, (void*)letters<unsigned, 16, 8, false, 7, 15, 7>, (void*)letters<unsigned, 16, 8, false, 7, 15, 8>, (void*)letters<unsigned, 16, 8, false, 7, 15, 9>, (void*)letters<unsigned, 16, 8, false, 7, 15, 10>, (void*)letters<unsigned, 16, 8, false, 7, 15, 11>, (void*)letters<unsigned, 16, 8, false, 7, 15, 12>, (void*)letters<unsigned, 16, 8, false, 7, 15, 13>, (void*)letters<unsigned, 16, 8, false, 7, 15, 14>, (void*)letters<unsigned, 16, 8, false, 7, 15, 15>)
OBL_INSTANCES(unsignedchar16_2_0f, (void*)letters<unsigned char, 16, 2, false, 0, 11, 0>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 1>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 2>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 3>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 4>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 5>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 6>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 7>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 8>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 9>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 10>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 11>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 12>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 13>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 14>, (void*)letters<unsigned char, 16, 2, false, 0, 11, 15>)
OBL_INSTANCES(unsignedchar16_2_1f, (void*)letters<unsigned char, 16, 2, false, 1, 11, 1>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 2>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 3>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 4>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 5>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 6>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 7>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 8>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 9>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 10>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 11>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 12>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 13>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 14>, (void*)letters<unsigned char, 16, 2, false, 1, 11, 15>)
OBL_INSTANCES(long16_5_0t, (void*)letters<long, 16, 5, true, 0, 1, 0>, (void*)letters<long, 16, 5, true, 0, 1, 1>, (void*)letters<long, 16, 5, true, 0, 1, 2>, (void*)letters<long, 16, 5, true, 0, 1, 3>, (void*)letters<long, 16, 5, true, 0, 1, 4>, (void*)letters<long, 16, 5, true, 0, 1, 5>, (void*)letters<long, 16, 5, true, 0, 1, 6>, (void*)letters<long, 16, 5, true, 0, 1, 7>, (void*)letters<long, 16, 5, true, 0, 1, 8>, (void*)letters<long, 16, 5, true, 0, 1, 9>, (void*)letters<long, 16, 5, true, 0, 1, 10>, (void*)letters<long, 16, 5, true, 0, 1, 11>, (void*)letters<long, 16, 5, true, 0, 1, 12>, (void*)letters<long, 16, 5, true, 0, 1, 13>, (void*)letters<long, 16, 5, true, 0, 1, 14>, (void*)letters<long, 16, 5, true, 0, 1, 15>)
OBL_INSTANCES(long16_5_4t, (void*)letters<long, 16, 5, true, 4, 1, 1>, (void*)letters<long, 16, 5, true, 4, 1, 2>, (void*)letters<long, 16, 5, true, 4, 1, 3>, (void*)letters<long, 16, 5, true, 4, 1, 4>, (void*)letters<long, 16, 5, true, 4, 1, 5>, (void*)letters<long, 16, 5, true, 4, 1, 6>, (void*)letters<long, 16, 5, true, 4, 1, 7>, (void*)letters<long, 16, 5, true, 4, 1, 8>, (void*)letters<long, 16, 5, true, 4, 1, 9>, (void*)letters<long, 16, 5, true, 4, 1, 10>, (void*)letters<long, 16, 5, true, 4, 1, 11>, (void*)letters<long, 16, 5, true, 4, 1, 12>, (void*)letters<long, 16, 5, true, 4, 1, 13>, (void*)letters<long, 16, 5, true, 4, 1, 14>, (void*)letters<long, 16, 5, true, 4, 1, 15>)
OBL_INSTANCES(unsignedshort36_2_0f, (void*)letters<unsigned short, 36, 2, false, 0, 35, 0>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 1>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 2>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 3>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 4>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 5>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 6>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 7>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 8>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 9>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 10>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 11>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 12>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 13>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 14>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 15>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 16>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 17>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 18>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 19>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 20>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 21>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 22>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 23>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 24>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 25>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 26>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 27>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 28>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 29>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 30>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 31>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 32>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 33>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 34>, (void*)letters<unsigned short, 36, 2, false, 0, 35, 35>)
OBL_INSTANCES(unsignedshort36_2_1f, (void*)letters<unsigned short, 36, 2, false, 1, 35, 1>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 2>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 3>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 4>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 5>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 6>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 7>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 8>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 9>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 10>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 11>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 12>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 13>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 14>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 15>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 16>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 17>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 18>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 19>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 20>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 21>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 22>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 23>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 24>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 25>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 26>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 27>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 28>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 29>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 30>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 31>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 32>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 33>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 34>, (void*)letters<unsigned short, 36, 2, false, 1, 35, 35>)
OBL_INSTANCES(int36_2_0t, (void*)letters<int, 36, 2, true, 0, 10, 0>, (void*)letters<int, 36, 2, true, 0, 10, 1>, (void*)letters<int, 36, 2, true, 0, 10, 2>, (void*)letters<int, 36, 2, true, 0, 10, 3>, (void*)letters<int, 36, 2, true, 0, 10, 4>, (void*)letters<int, 36, 2, true, 0, 10, 5>, (void*)letters<int, 36, 2, true, 0, 10, 6>, (void*)letters<int, 36, 2, true, 0, 10, 7>, (void*)letters<int, 36, 2, true, 0, 10, 8>, (void*)letters<int, 36, 2, true, 0, 10, 9>, (void*)letters<int, 36, 2, true, 0, 10, 10>, (void*)letters<int, 36, 2, true, 0, 10, 11>, (void*)letters<int, 36, 2, true, 0, 10, 12>, (void*)letters<int, 36, 2, true, 0, 10, 13>, (void*)letters<int, 36, 2, true, 0, 10, 14>, (void*)letters<int, 36, 2, true, 0, 10, 15>, (void*)letters<int, 36, 2, true, 0, 10, 16>, (void*)letters<int, 36, 2, true, 0, 10, 17>, (void*)letters<int, 36, 2, true, 0, 10, 18>, (void*)letters<int, 36, 2, true, 0, 10, 19>, (void*)letters<int, 36, 2, true, 0, 10, 20>, (void*)letters<int, 36, 2, true, 0, 10, 21>, (void*)letters<int, 36, 2, true, 0, 10, 22>, (void*)letters<int, 36, 2, true, 0, 10, 23>, (void*)letters<int, 36, 2, true, 0, 10, 24>, (void*)letters<int, 36, 2, true, 0, 10, 25>, (void*)letters<int, 36, 2, true, 0, 10, 26>, (void*)letters<int, 36, 2, true, 0, 10, 27>, (void*)letters<int, 36, 2, true, 0, 10, 28>, (void*)letters<int, 36, 2, true, 0, 10, 29>, (void*)letters<int, 36, 2, true, 0, 10, 30>, (void*)letters<int, 36, 2, true, 0, 10, 31>, (void*)letters<int, 36, 2, true, 0, 10, 32>, (void*)letters<int, 36, 2, true, 0, 10, 33>, (void*)letters<int, 36, 2, true, 0, 10, 34>, (void*)letters<int, 36, 2, true, 0, 10, 35>)
OBL_INSTANCES(int36_2_1t, (void*)letters<int, 36, 2, true, 1, 10, 1>, (void*)letters<int, 36, 2, true, 1, 10, 2>, (void*)letters<int, 36, 2, true, 1, 10, 3>, (void*)letters<int, 36, 2, true, 1, 10, 4>, (void*)letters<int, 36, 2, true, 1, 10, 5>, (void*)letters<int, 36, 2, true, 1, 10, 6>, (void*)letters<int, 36, 2, true, 1, 10, 7>, (void*)letters<int, 36, 2, true, 1, 10, 8>, (void*)letters<int, 36, 2, true, 1, 10, 9>, (void*)letters<int, 36, 2, true, 1, 10, 10>, (void*)letters<int, 36, 2, true, 1, 10, 11>, (void*)letters<int, 36, 2, true, 1, 10, 12>, (void*)letters<int, 36, 2, true, 1, 10, 13>, (void*)letters<int, 36, 2, true, 1, 10, 14>, (void*)letters<int, 36, 2, true, 1, 10, 15>, (void*)letters<int, 36, 2, true, 1, 10, 16>, (void*)letters<int, 36, 2, true, 1, 10, 17>, (void*)letters<int, 36, 2, true, 1, 10, 18>, (void*)letters<int, 36, 2, true, 1, 10, 19>, (void*)letters<int, 36, 2, true, 1, 10, 20>, (void*)letters<int, 36, 2, true, 1, 10, 21>, (void*)letters<int, 36, 2, true, 1, 10, 22>, (void*)letters<int, 36, 2, true, 1, 10, 23>, (void*)letters<int, 36, 2, true, 1, 10, 24>, (void*)letters<int, 36, 2, true, 1, 10, 25>, (void*)letters<int, 36, 2, true, 1, 10, 26>, (void*)letters<int, 36, 2, true, 1, 10, 27>, (void*)letters<int, 36, 2, true, 1, 10, 28>, (void*)letters<int, 36, 2, true, 1, 10, 29>, (void*)letters<int, 36, 2, true, 1, 10, 30>, (void*)letters<int, 36, 2, true, 1, 10, 31>, (void*)letters<int, 36, 2, true, 1, 10, 32>, (void*)letters<int, 36, 2, true, 1, 10, 33>, (void*)letters<int, 36, 2, true, 1, 10, 34>, (void*)letters<int, 36, 2, true, 1, 10, 35>)
OBL_INSTANCES(short11_3_0f, (void*)letters<short, 11, 3, false, 0, 10, 0>, (void*)letters<short, 11, 3, false, 0, 10, 1>, (void*)letters<short, 11, 3, false, 0, 10, 2>, (void*)letters<short, 11, 3, false, 0, 10, 3>, (void*)letters<short, 11, 3, false, 0, 10, 4>, (void*)letters<short, 11, 3, false, 0, 10, 5>, (void*)letters<short, 11, 3, false, 0, 10, 6>, (void*)letters<short, 11, 3, false, 0, 10, 7>, (void*)letters<short, 11, 3, false, 0, 10, 8>, (void*)letters<short, 11, 3, false, 0, 10, 9>, (void*)letters<short, 11, 3, false, 0, 10, 10>)
OBL_INSTANCES(short11_3_1f, (void*)letters<short, 11, 3, false, 1, 10, 0>, (void*)letters<short, 11, 3, false, 1, 10, 1>, (void*)letters<short, 11, 3, false, 1, 10, 2>, (void*)letters<short, 11, 3, false, 1, 10, 3>, (void*)letters<short, 11, 3, false, 1, 10, 4>, (void*)letters<short, 11, 3, false, 1, 10, 5>, (void*)letters<short, 11, 3, false, 1, 10, 6>, (void*)letters<short, 11, 3, false, 1, 10, 7>, (void*)letters<short, 11, 3, false, 1, 10, 8>, (void*)letters<short, 11, 3, false, 1, 10, 9>, (void*)letters<short, 11, 3, false, 1, 10, 10>)
OBL_INSTANCES(short11_3_2f, (void*)letters<short, 11, 3, false, 2, 10, 1>, (void*)letters<short, 11, 3, false, 2, 10, 2>, (void*)letters<short, 11, 3, false, 2, 10, 3>, (void*)letters<short, 11, 3, false, 2, 10, 4>, (void*)letters<short, 11, 3, false, 2, 10, 5>, (void*)letters<short, 11, 3, false, 2, 10, 6>, (void*)letters<short, 11, 3, false, 2, 10, 7>, (void*)letters<short, 11, 3, false, 2, 10, 8>, (void*)letters<short, 11, 3, false, 2, 10, 9>, (void*)letters<short, 11, 3, false, 2, 10, 10>)
#elif SHARD == 4
OBL_INSTANCES(f8, SGN(forwards, signed char, 10, 1), SGN(forwards, signed char, 10, 3), SGN(forwards, short, 10, 5), ROOMS(forwards, unsigned char, 10, 3, false))
OBL_INSTANCES(f32, SGN(forwards, int, 10, 1), SGN(forwards, int, 10, 4), SGN(forwards, int, 10, 10), SGN(forwards, long, 10, 19), ROOMS(forwards, unsigned, 2, 5, false))
#define UP(F, T, b, n, g) (void*)F<T, b, n, g, 0, 0>, (void*)F<T, b, n, g, 2, 1>, (void*)F<T, b, n, g, -1, 1>, (void*)F<T, b, n, g, 1, -1>
OBL_INSTANCES(opt, UP(opt, int, 10, 1, false), UP(opt, int, 8, 4, true), UP(opt, unsigned, 10, 8, false), UP(opt, short, 10, 5, true), UP(opt, unsigned char, 10, 2, false), UP(opt, long, 10, 19, true))
#elif SHARD == 5
#define STR(T, n) (void*)oblt::to_string<T, n, false>, (void*)oblt::to_string<T, n, true>
#define STRU(T, n) (void*)oblt::to_string<T, n, false>
OBL_INSTANCES(str, STR(signed char, 1), STR(signed char, 3), STR(short, 2), STR(short, 5), STR(int, 1), STR(int, 5), STR(int, 10), STR(long, 19), STR(long, 7), STR(long long, 19), STRU(unsigned char, 3), STRU(unsigned short, 5), STRU(unsigned, 10), STRU(unsigned long, 20))
#define GIVEN(T, n, neg) (void*)oblt::to_given<T, n, neg, 0, 0>, (void*)oblt::to_given<T, n, neg, 3, 0>, (void*)oblt::to_given<T, n, neg, -1, 0>, (void*)oblt::to_given<T, n, neg, 1, 1>
OBL_INSTANCES(sg, GIVEN(int, 1, false), GIVEN(int, 3, true), GIVEN(int, 10, true), GIVEN(short, 4, false), GIVEN(unsigned char, 2, false), GIVEN(long, 6, true), GIVEN(unsigned, 7, false))
OBL_INSTANCES(so, (void*)oblt::to_string_opt<int, 10, 3, true, 0>, (void*)oblt::to_string_opt<int, 8, 3, false, 2>, (void*)oblt::to_string_opt<short, 10, 5, true, 1>, (void*)oblt::to_string_opt<unsigned, 2, 9, false, 0>)
#endif
// room said to suffice for a type suffices for its least and its greatest value
template <class T> constexpr bool room()
{
    unsigned n = 0;
    unsigned long long v = T(-1) < T(0) ? 1ull << (sizeof(T) * 8 - 1) : (unsigned long long)T(-1);
    if(T(-1) < T(0)) n++;
    for(; v; v /= 10) n++;
    return estd::internal::legacy::maxStringLength<T>() >= n;
}
OBL_STATIC(room_for_text, room<uint8_t>() && room<int8_t>() && room<uint16_t>() && room<int16_t>() && room<uint32_t>() && room<int32_t>() && room<uint64_t>() && room<int64_t>() && estd::internal::legacy::maxStringLength<char>() >= 1);
