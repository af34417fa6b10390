// std: 17
// thorough: 20
// min: 28
// peel: 6
// rounds: 8
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/algorithm.h>
#include <estd/iterator.h>
#include <estd/vector.h>
#include <estd/sstream.h>
#include <estd/internal/numeric.h>
#include <numeric>
#include "obl.h"

typedef long long T;
typedef estd::detail::basic_ostream<estd::internal::streambuf<estd::internal::impl::out_span_streambuf<char> > > Out;
namespace oblt {
// putting through an iterator puts into the stream (buffer), and tells when it was full
template <int n> void puts_through_streambuf(char a, char b, char c, char d, char e)
{
    const char S[5] = {a, b, c, d, e};
    char to[4] = {9, 9, 9, 9};
    typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<char> > Buf;
    Buf sb(estd::span<char>(to, size_t(3)));
    estd::experimental::ostreambuf_iterator<Buf> it(&sb);
    OBL_REQUIRE(!it.failed());
    for(int i = 0; i < n; i++)
    {
        if(i % 2) ++it = S[i]; else it = S[i];
        OBL_REQUIRE(it.failed() == (i >= 3));
        ++it;
    }
    for(int i = 0; i < 4; i++) OBL_REQUIRE(to[i] == (i < n && i < 3 ? S[i] : 9));
    OBL_END;
}
template <int n> void puts_through_stream(char a, char b, char c)
{
    const char S[3] = {a, b, c};
    char to[4] = {9, 9, 9, 9};
    Out out(estd::span<char>(to, size_t(4)));
    estd::experimental::ostream_iterator<char, Out> it(out);
    for(int i = 0; i < n; i++) *it++ = S[i];
    for(int i = 0; i < 4; i++) OBL_REQUIRE(to[i] == (i < n ? S[i] : 9));
    OBL_END;
}
template <int n> void appends(T a, T b, T c)
{
    const T S[3] = {a, b, c};
    estd::layer1::vector<T, 4> v;
    estd::back_insert_iterator<estd::layer1::vector<T, 4>> it(v);
    for(int i = 0; i < n; i++) { auto& r = (it = S[i]); OBL_REQUIRE(&r == &it); }
    OBL_REQUIRE(v.size() == n);
    for(int i = 0; i < n; i++) OBL_REQUIRE(v.data()[i] == S[i]);
    OBL_END;
}
// taking from a stream buffer: each character in turn, then the end
template <int n> void takes_from_streambuf(char a, char b, char c)
{
    char S[4] = {a, b, c, 9};
    typedef estd::internal::streambuf<estd::internal::impl::in_span_streambuf<char> > Buf;
    typedef estd::istreambuf_iterator<Buf> It;
    Buf sb(estd::span<char>(S, size_t(n)));
    const It end;
    OBL_REQUIRE(end == It());
    OBL_REQUIRE(!(end != It()));
    {
        It it(&sb);
        for(int i = 0; i < n; i++)
        {
            OBL_REQUIRE(it != end);
            OBL_REQUIRE(!(it == end) && !it.equal(end));
            OBL_REQUIRE(*it == (unsigned char)S[i] && *it == (unsigned char)S[i]);    // looking takes nothing
            It& r = ++it;
            OBL_REQUIRE(&r == &it);
        }
        OBL_REQUIRE(it == end && !(it != end));
        ++it;                                       // there is no going past the end
        OBL_REQUIRE(it == end);
        It again(sb);
        OBL_REQUIRE(again == end);
    }
    OBL_END;
}
template <int n> void takes_while_advancing(char a, char b, char c)
{
    char S[4] = {a, b, c, 9};
    typedef estd::internal::streambuf<estd::internal::impl::in_span_streambuf<char> > Buf;
    typedef estd::istreambuf_iterator<Buf> It;
    Buf sb(estd::span<char>(S, size_t(n)));
    const It end;
    It it(sb);
    for(int i = 0; i < n; i++)
    {
        OBL_REQUIRE(it != end);
        auto was = it++;
        OBL_REQUIRE(*was == S[i]);
        OBL_REQUIRE(!was.equal(end));
        if(i + 1 < n) OBL_REQUIRE(*it == (unsigned char)S[i + 1]);
    }
    OBL_REQUIRE(it == end);
    auto none = it++;
    OBL_REQUIRE(none.equal(end) && it == end);
    OBL_END;
}
template <int n> void takes_from_stream(char a, char b, char c)
{
    char S[4] = {a, b, c, 9};
    typedef estd::internal::streambuf<estd::internal::impl::in_span_streambuf<char> > Buf;
    typedef estd::istreambuf_iterator<Buf> It;
    estd::detail::basic_istream<Buf> in(estd::span<char>(S, size_t(n)));
    char to[4] = {7, 7, 7, 7}, *t = to;
    for(It it(in); it != It(); ++it) { OBL_REQUIRE(t < to + n); *t++ = char(*it); }
    OBL_REQUIRE(t == to + n);
    for(int i = 0; i < 4; i++) OBL_REQUIRE(to[i] == (i < n ? S[i] : 7));
    OBL_END;
}
// what is read is what the function makes of each element
template <int n> void reads_through_function(int a, int b, int c)
{
    const int S[3] = {a, b, c};
    auto f = [](int v) { return v ^ 21; };
    auto it = estd::experimental::make_filter_iterator(f, (const int*)S);
    for(int i = 0; i < n; i++)
    {
        OBL_REQUIRE(*it == (S[i] ^ 21));
        if(i % 2) { ++it; } else { auto old = it++; OBL_REQUIRE(*old == (S[i] ^ 21)); }
    }
    OBL_END;
}
#define X(f) (void*)&oblt::f<0>, (void*)&oblt::f<1>, (void*)&oblt::f<2>, (void*)&oblt::f<3>
OBL_INSTANCES(iterators, X(takes_from_streambuf), X(takes_while_advancing), X(takes_from_stream), X(puts_through_streambuf), (void*)&oblt::puts_through_streambuf<4>, (void*)&oblt::puts_through_streambuf<5>, X(puts_through_stream), X(appends), X(reads_through_function))
}

// iterator properties
#define SAME(...) estd::is_same<__VA_ARGS__>::value
typedef estd::iterator_traits<const int*> CP;
OBL_STATIC(traits_of_pointers, SAME(CP::value_type, int) && SAME(CP::reference, const int&) && SAME(CP::pointer, const int*) && SAME(CP::difference_type, std::ptrdiff_t) && SAME(CP::iterator_category, std::random_access_iterator_tag));
struct Some { typedef short difference_type; typedef char value_type; typedef char* pointer; typedef char& reference; typedef std::input_iterator_tag iterator_category; };
typedef estd::iterator_traits<Some> ST;
OBL_STATIC(traits_of_others, SAME(ST::value_type, char) && SAME(ST::reference, char&) && SAME(ST::pointer, char*) && SAME(ST::difference_type, short) && SAME(ST::iterator_category, std::input_iterator_tag));

// common divisors and multiples
template <intmax_t a, intmax_t b> constexpr bool common()
{
    return estd::internal::gcd<a, b>::value == std::gcd(a, b) && estd::internal::gcd<b, a>::value == std::gcd(a, b) &&
        estd::internal::lcm<a, b>::value == std::lcm(a, b) && estd::internal::lcm<b, a>::value == std::lcm(a, b);
}
OBL_STATIC(common_divisors, common<1, 1>() && common<4, 6>() && common<1000, 1024>() && common<7, 13>() && common<1, 1000000000>() && common<86400, 3600>() && common<17, 17>() && common<12, 18>() && common<1000000, 1000>());
