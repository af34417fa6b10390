// std: 17
// thorough: 20
// min: 250
#include <estd/chrono.h>
#include <estd/internal/chrono/operators.hpp>
#include <estd/internal/chrono/math.h>
#include <ratio>
#include <chrono>
#include "obl.h"

namespace c = estd::chrono;
template <int n, int d = 1> using R = estd::ratio<n, d>;
template <class Rep, int n, int d = 1> using Dur = c::duration<Rep, estd::ratio<n, d> >;

// a clock like a platform provides it
struct Ticks
{
    typedef int rep;
    typedef estd::ratio<1, 15> period;
    typedef c::duration<int, period> duration;
    typedef c::time_point<Ticks> time_point;
};
template <> struct estd::chrono::internal::clock_traits<Ticks> : estd::chrono::internal::unix_epoch_clock_traits {};

typedef int64_t I;
// period From / period To, in lowest terms
template <int fn, int fd, int tn, int td> struct factor { typedef std::ratio_divide<std::ratio<fn, fd>, std::ratio<tn, td> > r; };
template <class F, int64_t n, int64_t d> static inline I scaled(F v) { return I(v) * n / d; }

namespace oblt {
// every count expressed in another period: exact, or without its fraction
template <class A, class B, int an, int ad, int bn, int bd> void converts(A v)
{
    typedef std::ratio_divide<std::ratio<an, ad>, std::ratio<bn, bd> > r;
    const Dur<A, an, ad> a(v);
    OBL_REQUIRE(a.count() == v);
    const I want = scaled<A, r::num, r::den>(v);
    const Dur<B, bn, bd> b(a);
    OBL_REQUIRE(b.count() == B(want));
    OBL_REQUIRE(c::duration_cast<Dur<B, bn, bd> >(a).count() == B(want));
    OBL_REQUIRE(a.count() == v);
    // the library's durations and the standard's mean the same
    const std::chrono::duration<A, std::ratio<an, ad> > s(v);
    const Dur<B, bn, bd> bs(s);
    OBL_REQUIRE(bs.count() == B(want));
    const std::chrono::duration<A, std::ratio<an, ad> > back = a;
    OBL_REQUIRE(back.count() == v);
    OBL_REQUIRE(c::duration_cast<Dur<B, bn, bd> >(s).count() == B(want));
    OBL_END;
}
// two durations of (small) counts in different periods are added, subtracted and compared by the time they stand for
template <class A, class B, int an, int ad, int bn, int bd> void mixes(A x, B y)
{
    const Dur<A, an, ad> a(x);
    const Dur<B, bn, bd> b(y);
    typedef typename std::common_type<std::chrono::duration<I, std::ratio<an, ad> >, std::chrono::duration<I, std::ratio<bn, bd> > >::type ct;
    typedef std::ratio_divide<std::ratio<an, ad>, typename ct::period> ra;
    typedef std::ratio_divide<std::ratio<bn, bd>, typename ct::period> rb;
    static_assert(ra::den == 1 && rb::den == 1, "");
    const I p = I(x) * ra::num, q = I(y) * rb::num;
    typedef typename decltype(a + b)::period period;
    OBL_STATIC(period_of_sum, std::ratio_equal<std::ratio<period::num, period::den>, typename ct::period>::value);
    OBL_STATIC(period_of_difference, std::is_same<decltype(a + b), decltype(a - b)>::value);
    typedef typename decltype(a + b)::rep rep;
    OBL_STATIC(no_narrowing, sizeof(rep) >= sizeof(A) && sizeof(rep) >= sizeof(B));
    if(sizeof(A) <= 2 && sizeof(B) <= 2 && sizeof(rep) >= 8)
    {
        OBL_REQUIRE((a + b).count() == p + q);
        OBL_REQUIRE((a - b).count() == p - q);
    }
    else
    {
        OBL_REQUIRE((a + b).count() == rep(rep(p) + rep(q)));
        OBL_REQUIRE((a - b).count() == rep(rep(p) - rep(q)));
    }
    OBL_END;
}
template <class A, class B, int an, int ad, int bn, int bd> void compares(short x, short y)
{
    const Dur<A, an, ad> a(x);
    const Dur<B, bn, bd> b(y);
    typedef typename std::common_type<std::chrono::duration<I, std::ratio<an, ad> >, std::chrono::duration<I, std::ratio<bn, bd> > >::type ct;
    typedef std::ratio_divide<std::ratio<an, ad>, typename ct::period> ra;
    typedef std::ratio_divide<std::ratio<bn, bd>, typename ct::period> rb;
    const I p = I(x) * ra::num, q = I(y) * rb::num;
    OBL_REQUIRE((a < b) == (p < q));
    OBL_REQUIRE((a > b) == (p > q));
    OBL_REQUIRE((a <= b) == (p <= q));
    OBL_REQUIRE((a >= b) == (p >= q));
    OBL_REQUIRE((a == b) == (p == q));
    OBL_REQUIRE((a != b) == (p != q));
    OBL_END;
}
template <class A, int an, int ad> void alone(A x, A y)
{
    typedef Dur<A, an, ad> D;
    D d(x);
    D& r = d += D(y);
    OBL_REQUIRE(&r == &d && d.count() == A(x + y));
    D& r2 = d -= D(y);
    OBL_REQUIRE(&r2 == &d && d.count() == x);
    D& r3 = d *= y;
    OBL_REQUIRE(&r3 == &d && d.count() == A(x * y));
    d = D(x);
    OBL_REQUIRE((+d).count() == x && (-d).count() == A(-x));
    OBL_REQUIRE((d * y).count() == decltype((d * y).count())(x * y));
    OBL_REQUIRE(D::zero().count() == 0);
    OBL_REQUIRE(D::min().count() <= x && D::max().count() >= x);
    OBL_REQUIRE(D::min() <= d && D::max() >= d);
    OBL_REQUIRE(c::abs(d).count() == (x < 0 ? A(-x) : x));
    OBL_END;
}
template <class A> void unsigned_abs(A x)
{
    OBL_REQUIRE(c::abs(Dur<A, 1>(x)).count() == x);
    OBL_END;
}
void points(int x, int y, short n)
{
    typedef Ticks::time_point P;
    P e;
    OBL_REQUIRE(e.time_since_epoch().count() == 0);
    P p{Ticks::duration(x)}, q{Ticks::duration(y)};
    OBL_REQUIRE(p.time_since_epoch().count() == x);
    OBL_REQUIRE((p < q) == (x < y) && (p > q) == (x > y) && (p >= q) == (x >= y) && (p == q) == (x == y) && (p != q) == (x != y));
    OBL_REQUIRE((p - q).count() == x - y);
    P r = p + Ticks::duration(y);
    OBL_REQUIRE(r.time_since_epoch().count() == x + y && p.time_since_epoch().count() == x);
    r = p - Ticks::duration(y);
    OBL_REQUIRE(r.time_since_epoch().count() == x - y && p.time_since_epoch().count() == x);
    P& s = p += Ticks::duration(y);
    OBL_REQUIRE(&s == &p && p.time_since_epoch().count() == x + y);
    P& t = p -= Ticks::duration(y);
    OBL_REQUIRE(&t == &p && p.time_since_epoch().count() == x);
    OBL_REQUIRE(P::min().time_since_epoch().count() <= x);
    // the same instant for clocks of another resolution
    const P m{Ticks::duration(n)};
    const c::time_point<Ticks, Dur<I, 1, 30> > fine(m);
    OBL_REQUIRE(fine.time_since_epoch().count() == I(n) * 2);
    const c::time_point<Ticks, Dur<I, 2, 15> > coarse(m);
    OBL_REQUIRE(coarse.time_since_epoch().count() == n / 2);
    OBL_REQUIRE(fine == m);
    OBL_END;
}
void system_points(I ms)
{
    typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds> S;
    const c::time_point<Ticks, Dur<I, 1> > p{S(std::chrono::milliseconds(ms))};
    OBL_REQUIRE(p.time_since_epoch().count() == ms / 1000);
    OBL_END;
}
// times of the standard library move by durations of this one
void std_mix(I t, int n)
{
    typedef std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds> S;
    const S s{std::chrono::milliseconds(t)};
    const Dur<int, 1> d(n);
    OBL_REQUIRE((s + d).time_since_epoch().count() == t + I(n) * 1000);
    OBL_REQUIRE((s - d).time_since_epoch().count() == t - I(n) * 1000);
    S m = s;
    m += d;
    OBL_REQUIRE(m.time_since_epoch().count() == t + I(n) * 1000);
    m -= d;
    OBL_REQUIRE(m.time_since_epoch().count() == t);
    OBL_END;
}

// a time of the day, all parts given
template <class Rep, int num, int den, int h, int m, int s, int sub, bool neg> void clock_time()
{
    constexpr I sec = den / num;
    constexpr I all = ((h * I(60) + m) * 60 + s) * sec + sub;
    typedef Dur<Rep, num, den> D;
    const c::hh_mm_ss<D> t{D(Rep(neg ? -all : all))};
    OBL_REQUIRE(t.is_negative() == neg);
    OBL_REQUIRE(t.hours().count() == h);
    OBL_REQUIRE(t.minutes().count() == m);
    OBL_REQUIRE(t.seconds().count() == s);
    OBL_REQUIRE(t.subseconds().count() == sub);
    OBL_REQUIRE(t.to_duration().count() == (neg ? -all : all));
    OBL_END;
}
constexpr bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
constexpr int length(int y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
// days between 1970-01-01 and the first of the month
constexpr long first(int y, int m)
{
    long d = 0;
    for(int i = 1970; i < y; i++) d += leap(i) ? 366 : 365;
    for(int i = y; i < 1970; i++) d -= leap(i) ? 366 : 365;
    for(int i = 1; i < m; i++) d += length(y, i);
    return d;
}
template <int y> void years()
{
    OBL_REQUIRE(c::year(y).is_leap() == leap(y));
    OBL_REQUIRE(c::year(y).ok());
    OBL_END;
}
template <int y, int m> void dates()
{
    typedef c::internal::year_month_day<Ticks> ymd;
    typedef c::time_point<Ticks, c::days> day;
    constexpr long f = first(y, m);
    constexpr int n = length(y, m);
    const ymd a{day(c::days(f))};
    OBL_REQUIRE(int(a.year()) == y && int(a.month()) == m && int(a.days()) == 1);
    const ymd b{day(c::days(f + 11))};
    OBL_REQUIRE(int(b.year()) == y && int(b.month()) == m && int(b.days()) == 12);
    const ymd e{day(c::days(f + n - 1))};
    OBL_REQUIRE(int(e.year()) == y && int(e.month()) == m && int(e.days()) == n);
    const c::internal::year_month_day_last<Ticks> l{c::year(y), c::internal::month_day_last<Ticks>(c::month(m))};
    OBL_REQUIRE(int(l.day()) == n && int(l.year()) == y && l.ok());
    OBL_END;
}
void fields(int y, unsigned char m, unsigned char d)
{
    OBL_REQUIRE(int(c::year(y)) == short(y));
    OBL_REQUIRE(c::month(m).ok() == (m >= 1 && m <= 12) && int(c::month(m)) == m);
    OBL_REQUIRE(c::day(d).ok() == (d >= 1 && d <= 31) && int(c::day(d)) == d);
    OBL_REQUIRE(c::year(y).ok() == (short(y) != -32768));
    const c::internal::year_month_day<void> x{c::year(y), c::month(m), c::day(d)};
    OBL_REQUIRE(int(x.year()) == short(y) && int(x.month()) == m && int(x.day()) == d);
    OBL_REQUIRE(x.ok() == (short(y) != -32768 && m >= 1 && m <= 12 && d >= 1 && d <= 31));
    const c::internal::month_day_last<Ticks> l{c::month(m)};
    OBL_REQUIRE(l.ok() == (m >= 1 && m <= 12) && int(l.month()) == m);
    OBL_END;
}
void arithmetic(short y, short n, unsigned char m, unsigned char k)
{
    OBL_REQUIRE(int(c::year(y) + c::years(n)) == short(y + n));
    OBL_REQUIRE(int(c::years(n) + c::year(y)) == short(y + n));
    c::year a(y);
    a += c::year(n);
    OBL_REQUIRE(int(a) == short(y + n));
    a -= c::year(n);
    OBL_REQUIRE(int(a) == y);
    c::month b(m);
    b += c::month(k);
    OBL_REQUIRE(int(b) == (unsigned char)(m + k));
    c::day d(m);
    d -= c::day(k);
    OBL_REQUIRE(int(d) == (unsigned char)(m - k));
    OBL_END;
}
}
OBL_STATIC(months, int(c::January) == 1 && int(c::February) == 2 && int(c::March) == 3 && int(c::April) == 4 && int(c::May) == 5 && int(c::June) == 6 &&
    int(c::July) == 7 && int(c::August) == 8 && int(c::September) == 9 && int(c::October) == 10 && int(c::November) == 11 && int(c::December) == 12);
OBL_STATIC(year_limits, int(c::year::min()) == -32767 && int(c::year::max()) == 32767);
template <class D, long long n, long long d> constexpr bool period_is() { return std::ratio_equal<std::ratio<D::period::num, D::period::den>, std::ratio<n, d> >::value; }
OBL_STATIC(periods, period_is<c::nanoseconds, 1, 1000000000>() && period_is<c::microseconds, 1, 1000000>() && period_is<c::milliseconds, 1, 1000>() && period_is<c::seconds, 1, 1>());
OBL_STATIC(long_periods, period_is<c::minutes, 60, 1>() && period_is<c::hours, 3600, 1>() && period_is<c::days, 86400, 1>() && period_is<c::weeks, 604800, 1>() &&
    period_is<c::months, 2629746, 1>() && period_is<c::years, 31556952, 1>());
OBL_STATIC(ratios, std::ratio_equal<std::ratio<estd::pico::num, estd::pico::den>, std::pico>::value && std::ratio_equal<std::ratio<estd::nano::num, estd::nano::den>, std::nano>::value &&
    std::ratio_equal<std::ratio<estd::micro::num, estd::micro::den>, std::micro>::value && std::ratio_equal<std::ratio<estd::milli::num, estd::milli::den>, std::milli>::value &&
    std::ratio_equal<std::ratio<estd::centi::num, estd::centi::den>, std::centi>::value && std::ratio_equal<std::ratio<estd::deci::num, estd::deci::den>, std::deci>::value &&
    std::ratio_equal<std::ratio<estd::deca::num, estd::deca::den>, std::deca>::value && std::ratio_equal<std::ratio<estd::kilo::num, estd::kilo::den>, std::kilo>::value &&
    std::ratio_equal<std::ratio<estd::mega::num, estd::mega::den>, std::mega>::value && std::ratio_equal<std::ratio<estd::giga::num, estd::giga::den>, std::giga>::value &&
    std::ratio_equal<std::ratio<estd::tera::num, estd::tera::den>, std::tera>::value);
template <int a, int b, int x, int y> constexpr bool ratios_agree()
{
    typedef estd::ratio<a, b> p; typedef estd::ratio<x, y> q;
    typedef std::ratio<a, b> sp; typedef std::ratio<x, y> sq;
    typedef estd::ratio_multiply<p, q> m; typedef estd::ratio_divide<p, q> d; typedef estd::ratio_add<p, q> s;
    return std::ratio_equal<std::ratio<m::num, m::den>, std::ratio_multiply<sp, sq> >::value &&
        std::ratio_equal<std::ratio<d::num, d::den>, std::ratio_divide<sp, sq> >::value &&
        std::ratio_equal<std::ratio<s::num, s::den>, std::ratio_add<sp, sq> >::value &&
        std::ratio_equal<std::ratio<estd::detail::ratio_add<p, q>::num, estd::detail::ratio_add<p, q>::den>, std::ratio_add<sp, sq> >::value &&
        m::type::num == std::ratio_multiply<sp, sq>::num && d::type::den == std::ratio_divide<sp, sq>::den &&
        p::type::num == sp::num && p::type::den == sp::den;
}
OBL_STATIC(ratio_arithmetic, ratios_agree<1, 1, 1, 1>() && ratios_agree<1, 2, 1, 3>() && ratios_agree<2, 3, 9, 4>() && ratios_agree<6, 4, 10, 15>() && ratios_agree<1, 1000, 1000, 1>() &&
    ratios_agree<60, 1, 1, 60>() && ratios_agree<100, 1024, 1, 1>() && ratios_agree<1000000, 1, 1, 1000>() && ratios_agree<7, 15, 15, 7>() && ratios_agree<86400, 1, 3600, 1>() && ratios_agree<3, 8, 5, 12>());

#define CONV(A, B, an, ad, bn, bd) (void*)&oblt::converts<A, B, an, ad, bn, bd>
OBL_INSTANCES(converts, CONV(I, I, 1, 1, 1, 1000), CONV(I, I, 1, 1000, 1, 1), CONV(I, I, 60, 1, 1, 1), CONV(I, I, 1, 1, 60, 1), CONV(int, I, 1, 1, 1, 1000000), CONV(I, int, 1, 1000, 60, 1), CONV(int, int, 3600, 1, 60, 1),
  CONV(int, int, 60, 1, 86400, 1), CONV(short, I, 1, 15, 1, 1000), CONV(int, I, 1, 15, 1, 30), CONV(I, I, 1, 1000, 1, 15), CONV(int, I, 2, 3, 3, 2), CONV(int, short, 1, 1000, 1, 1), CONV(unsigned, I, 1, 1, 1, 1000), CONV(unsigned, unsigned, 1, 1000, 1, 1),
  CONV(short, short, 1, 1, 1, 1), CONV(short, I, 1, 1, 1, 1), CONV(I, short, 1, 1, 1, 1), CONV(int8_t, I, 1, 10, 1, 100), CONV(uint8_t, uint16_t, 1, 1000, 1, 1000000), CONV(int, int, 604800, 1, 86400, 1), CONV(int, int, 3, 7, 5, 11))
#define MIX(A, B, an, ad, bn, bd) (void*)&oblt::mixes<A, B, an, ad, bn, bd>, (void*)&oblt::compares<I, I, an, ad, bn, bd>
OBL_INSTANCES(mixes, MIX(I, I, 1, 1, 1, 1000), MIX(I, I, 1, 1000, 1, 1), MIX(I, I, 60, 1, 1, 1), MIX(int, I, 1, 15, 1, 1), MIX(I, int, 1, 15, 1, 10), MIX(short, short, 2, 3, 3, 4), MIX(int, int, 3600, 1, 60, 1), MIX(I, I, 1, 1, 1, 1), MIX(int8_t, I, 6, 1, 4, 1), MIX(I, I, 10, 1, 1, 6),
  (void*)&oblt::compares<short, I, 1, 1, 1, 1000>, (void*)&oblt::compares<I, short, 1, 1, 1, 1>, (void*)&oblt::compares<I, I, 60, 1, 3600, 1>, (void*)&oblt::compares<I, I, 1, 1, 5, 1>)
#define ALONE(A) (void*)&oblt::alone<A, 1, 1>, (void*)&oblt::alone<A, 1, 1000>
OBL_INSTANCES(alone, ALONE(int8_t), ALONE(short), ALONE(int), ALONE(I), (void*)&oblt::unsigned_abs<uint8_t>, (void*)&oblt::unsigned_abs<unsigned>)
OBL_INSTANCES(points, (void*)&oblt::points, (void*)&oblt::system_points, (void*)&oblt::std_mix)
#define HT(h, m, s) (void*)&oblt::clock_time<I, 1, 1000, h, m, s, 5, false>, (void*)&oblt::clock_time<I, 1, 1000, h, m, s, 999, true>, (void*)&oblt::clock_time<int, 1, 1, h, m, s, 0, false>, (void*)&oblt::clock_time<uint32_t, 1, 1000, h, m, s, 37, false>
OBL_INSTANCES(clock_times, HT(0, 0, 1), HT(0, 1, 0), HT(0, 59, 59), HT(1, 0, 1), HT(4, 15, 59), HT(4, 16, 1), HT(5, 1, 2), HT(12, 34, 56), HT(23, 59, 59), HT(24, 0, 0), HT(100, 30, 15), HT(255, 59, 59))
#define Y(y) (void*)&oblt::years<y>
OBL_INSTANCES(years, Y(-400), Y(-100), Y(-4), Y(-1), Y(0), Y(1), Y(4), Y(100), Y(400), Y(1582), Y(1600), Y(1700), Y(1896), Y(1900), Y(1904), Y(1970), Y(1971), Y(1972), Y(1996), Y(1999), Y(2000), Y(2001), Y(2002), Y(2004), Y(2023), Y(2024), Y(2100), Y(2200), Y(2400), Y(2800), Y(32000), Y(32767), Y(-32767))
#define DM(y) (void*)&oblt::dates<y, 1>, (void*)&oblt::dates<y, 2>, (void*)&oblt::dates<y, 3>, (void*)&oblt::dates<y, 4>, (void*)&oblt::dates<y, 5>, (void*)&oblt::dates<y, 6>, \
  (void*)&oblt::dates<y, 7>, (void*)&oblt::dates<y, 8>, (void*)&oblt::dates<y, 9>, (void*)&oblt::dates<y, 10>, (void*)&oblt::dates<y, 11>, (void*)&oblt::dates<y, 12>
OBL_INSTANCES(dates, DM(1600), DM(1899), DM(1900), DM(1968), DM(1969), DM(1970), DM(1971), DM(1972), DM(1973), DM(1999), DM(2000), DM(2001), DM(2023), DM(2024), DM(2100), DM(2101), DM(2400))
OBL_INSTANCES(fields, (void*)&oblt::fields, (void*)&oblt::arithmetic)
