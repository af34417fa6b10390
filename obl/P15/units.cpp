// std: 17
// thorough: 20
// min: 50
// peel: 1
// rounds: 14
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/internal/units/base.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/percent.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/internal/units/ostream.h>
#include <estd/internal/units/operators.hpp>
#include <ratio>
#include "obl.h"

namespace u = estd::internal::units;
typedef int64_t I;
struct length_tag {};
struct other_tag {};
namespace estd { namespace internal { namespace units {
template <> struct traits<length_tag> { static constexpr const char* name() { return "metre"; } static constexpr const char* abbrev() { return "m"; } };
}}}
template <class Rep, int n = 1, int d = 1> using Len = u::unit_base<Rep, estd::ratio<n, d>, length_tag>;
// reads 40 more than is stored
template <class Rep, int n = 1, int d = 1> using Shifted = u::unit_base<Rep, estd::ratio<n, d>, length_tag, u::adder<Rep, 40> >;
template <class Rep, int n = 1, int d = 1> using Lowered = u::unit_base<Rep, estd::ratio<n, d>, length_tag, u::subtractor<Rep, 40> >;

namespace oblt {
template <class A, class B, int an, int ad, int bn, int bd> void converts(A v)
{
    typedef std::ratio_divide<std::ratio<an, ad>, std::ratio<bn, bd> > r;
    const Len<A, an, ad> a(v);
    OBL_REQUIRE(a.count() == v && a.root_count() == v);
    const I want = I(v) * r::num / r::den;
    const Len<B, bn, bd> b(a, u::relaxed_narrow_t{});
    OBL_REQUIRE(b.count() == B(want) && b.root_count() == B(want));
    Len<B, bn, bd> c(0);
    Len<B, bn, bd>& r2 = c = a;
    OBL_REQUIRE(&r2 == &c && c.count() == B(want) && a.count() == v);
    OBL_END;
}
template <int an, int ad, int bn, int bd> void mixes(I x, I y)
{
    const Len<I, an, ad> a(x);
    const Len<I, bn, bd> b(y);
    typedef typename decltype(a + b)::period period;
    // both counts are whole in the period of the result
    typedef std::ratio_divide<std::ratio<an, ad>, std::ratio<period::num, period::den> > ra;
    typedef std::ratio_divide<std::ratio<bn, bd>, std::ratio<period::num, period::den> > rb;
    OBL_STATIC(whole_in_common_period, ra::den == 1 && rb::den == 1);
    const I p = x * ra::num, q = y * rb::num;
    OBL_REQUIRE((a + b).count() == p + q && (a - b).count() == p - q);
    OBL_REQUIRE((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q) && (a != b) == (p != q));
    OBL_END;
}
// a projection changes what is read, not what there is
template <class S, int off> void projects(int v, int w)
{
    const S s(v);
    OBL_REQUIRE(s.root_count() == v && s.count() == v + off);
    const Len<int> plain(s);
    OBL_REQUIRE(plain.count() == v + off);
    const S back(plain);
    OBL_REQUIRE(back.count() == v + off && back.root_count() == v);
    S again(w);
    again = plain;
    OBL_REQUIRE(again.count() == v + off && again.root_count() == v);
    again.root_count(w);
    OBL_REQUIRE(again.count() == w + off);
    const u::unit_base<int, estd::ratio<1, 10>, length_tag, u::adder<int, 7> > tenths(Len<int, 1, 10>(w), u::relaxed_narrow_t{});
    OBL_REQUIRE(tenths.count() == w);
    OBL_END;
}
template <class A> void alone(A x, A y)
{
    typedef Len<A> L;
    L a(x);
    L& r = a += L(y);
    OBL_REQUIRE(&r == &a && a.count() == A(x + y));
    L& r2 = a -= L(y);
    OBL_REQUIRE(&r2 == &a && a.count() == x);
    OBL_REQUIRE((a == L(y)) == (x == y) && (a == y) == (x == y) && (a < y) == (x < y) && (a > y) == (x > y));
    OBL_REQUIRE((L(x) + L(y)).count() == A(x + y) && (L(x) - L(y)).count() == A(x - y));
    OBL_REQUIRE((-a).count() == A(-x) && a.count() == x);
    L& r3 = ++a;
    OBL_REQUIRE(&r3 == &a && a.count() == A(x + 1));
    a -= y;
    OBL_REQUIRE(a.count() == A(A(x + 1) - y));
    a += y;
    OBL_REQUIRE(a.count() == A(x + 1));
    OBL_END;
}
void coarser_added(I x, I y)
{
    Len<I, 1, 1000> a(x);
    a += Len<I>(y);
    OBL_REQUIRE(a.count() == x + y * 1000);
    a -= Len<I>(y);
    OBL_REQUIRE(a.count() == x);
    OBL_END;
}
void sizes(unsigned short v, I w)
{
    OBL_REQUIRE(u::bytes<I>(u::kilobytes<I>(w)).count() == w * 1024);
    OBL_REQUIRE(u::kilobytes<I>(u::bytes<I>(w)).count() == w / 1024);
    OBL_REQUIRE(u::kilobytes<I>(u::megabytes<I>(w)).count() == w * 1024);
    OBL_REQUIRE(u::bytes<I>(u::gigabytes<I>(I(v))).count() == I(v) << 30);
    OBL_REQUIRE(u::megabytes<I>(u::gigabytes<I>(w)).count() == w * 1024);
    OBL_END;
}
template <int pc> void percents(unsigned short lo, unsigned short span, unsigned char p)
{
    typedef u::bytes<I> B;
    const I a = lo, b = I(lo) + span;
    OBL_REQUIRE(get_from_percent(u::percent<int>(pc), B(a), B(b)).count() == a + (b - a) * pc / 100);
    OBL_REQUIRE(get_from_percent(u::percent<int>(pc), B(b)).count() == b * pc / 100);
    OBL_REQUIRE(get_from_percent(u::percent<I, estd::ratio<100, 1024> >(p), B(b)).count() == b * p * 100 / 102400);
    OBL_END;
}
template <class S> static inline void is(S& s, const char* t, int n)
{
    OBL_REQUIRE(int(s.size()) == n);
    const char* d = s.clock();
    for(int i = 0; i < n; i++) OBL_REQUIRE(d[i] == t[i]);
    s.cunlock();
}
#define WRITES(name, value, abbrev, text) void name() { estd::layer1::ostringstream<64> out; out << estd::put_unit(value, abbrev); is(out.rdbuf()->str(), text, sizeof(text) - 1); OBL_REQUIRE(out.good()); OBL_END; }
WRITES(w1, Len<int>(1234), true, "1234m")
WRITES(w2, Len<int>(-7), false, "-7 metre")
WRITES(w3, (Len<int, 1000>(5)), true, "5km")
WRITES(w4, (Len<int, 1000>(5)), false, "5 kilometre")
WRITES(w5, (Len<int, 1, 1000>(5)), true, "5mm")
WRITES(w6, (Len<int, 1, 1000000>(5)), false, "5 micrometre")
WRITES(w7, u::megabytes<unsigned>(3), true, "3MB")
WRITES(w8, u::megabytes<unsigned>(3), false, "3 megabytes")
WRITES(w9, u::percent<int>(99), true, "99%")
WRITES(d1, Len<double>(0.0), true, "0.00m")
WRITES(d2, Len<double>(2.5), true, "2.50m")
WRITES(d3, Len<double>(-2.5), true, "-2.50m")
WRITES(d4, Len<double>(-0.5), true, "-0.50m")
WRITES(d5, Len<double>(0.0625), true, "0.06m")
WRITES(d6, Len<double>(-0.0625), false, "-0.06 metre")
WRITES(d7, Len<double>(1234567.75), true, "1234567.75m")
WRITES(d8, Len<double>(-1.03125), true, "-1.03m")
WRITES(s1, (Len<int, 1000000>(1)), true, "1Mm")
WRITES(s2, (Len<int, 1, 10>(1)), true, "1dm")
WRITES(s3, (Len<int, 1, 100>(1)), false, "1 centimetre")
WRITES(s4, (Len<int, 10, 1>(1)), true, "1dam")
WRITES(s5, (Len<int, 1, 1000000000>(1)), true, "1nm")
WRITES(s6, u::kilobytes<int>(1), true, "1kB")
WRITES(s7, u::gigabytes<int>(1), false, "1 gigabytes")
template <int digits> void written(unsigned char x, unsigned char y)
{
    const unsigned v = digits == 1 ? x % 10 : (1 + x % 9) * 10 + y % 10;
    estd::layer1::ostringstream<64> out;
    out << estd::put_unit(u::bytes<unsigned>(v));
    const auto& s = out.rdbuf()->str();
    OBL_REQUIRE(s.size() == digits + 1);
    const char* d = s.clock();
    if(digits == 1) OBL_REQUIRE(d[0] == char('0' + x % 10) && d[1] == 'B');
    else OBL_REQUIRE(d[2] == 'B');
    s.cunlock();
    OBL_END;
}
}
#define CONV(A, B, an, ad, bn, bd) (void*)&oblt::converts<A, B, an, ad, bn, bd>
OBL_INSTANCES(converts, CONV(I, I, 1, 1, 1, 1000), CONV(I, I, 1000, 1, 1, 1), CONV(I, I, 1, 1, 1000, 1), CONV(int, I, 1024, 1, 1, 1), CONV(I, int, 1, 1, 1024, 1), CONV(int, int, 1, 1, 1, 1), CONV(short, I, 100, 1024, 1, 1), CONV(I, I, 3, 7, 5, 11), CONV(int, short, 1, 1000, 1, 1), CONV(uint8_t, uint8_t, 1, 1, 1, 1))
#define MIX(...) (void*)&oblt::mixes<__VA_ARGS__>
OBL_INSTANCES(mixes, MIX(1, 1, 1, 1), MIX(1, 1, 1, 1000), MIX(1000, 1, 1, 1), MIX(100, 1024, 1, 1), MIX(2, 3, 3, 4), MIX(6, 1, 4, 1), MIX(1, 6, 1, 4))
OBL_INSTANCES(projects, (void*)&oblt::projects<Shifted<int>, 40>, (void*)&oblt::projects<Lowered<int>, -40>)
OBL_INSTANCES(alone, (void*)&oblt::alone<int>, (void*)&oblt::alone<I>, (void*)&oblt::coarser_added)
OBL_INSTANCES(sizes, (void*)&oblt::sizes, (void*)&oblt::percents<0>, (void*)&oblt::percents<1>, (void*)&oblt::percents<50>, (void*)&oblt::percents<99>, (void*)&oblt::percents<100>)
#define W(x) (void*)&oblt::x
OBL_INSTANCES(writes, W(w1), W(w2), W(w3), W(w4), W(w5), W(w6), W(w7), W(w8), W(w9), W(d1), W(d2), W(d3), W(d4), W(d5), W(d6), W(d7), W(d8), W(s1), W(s2), W(s3), W(s4), W(s5), W(s6), W(s7), W(written<1>), W(written<2>))
OBL_STATIC(not_mixed, !estd::is_convertible<Len<int>, u::unit_base<int, estd::ratio<1>, other_tag> >::value);
