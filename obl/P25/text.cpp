// std: 17
// thorough: 20
// min: 440
// peel: 4
// rounds: 6
// Characters are partitioned into the ranges within which nothing changes: facts hold for all characters of each.
// Classification of characters, digits of bases and the names of locales.
#include <estd/cctype.h>
#include <estd/locale.h>
#include <estd/internal/locale/cbase.h>
#include <estd/internal/chooser.h>
#include <estd/string.h>
#include <estd/optional.h>
#include "obl.h"

typedef estd::locale::classic_type C;
typedef estd::internal::locale<estd::internal::locale_code::en_US, estd::internal::encodings::UTF8> US;
typedef estd::internal::locale<estd::internal::locale_code::fr_FR, estd::internal::encodings::UTF8> FR;

// ---- the C library in the "C" locale, spelt independently
static inline bool up(int c) { return unsigned(c) - 'A' < 26u; }
static inline bool low(int c) { return unsigned(c) - 'a' < 26u; }
static inline bool dig(int c) { return unsigned(c) - '0' < 10u; }
static inline bool spc(int c) { return c == 0x20 || unsigned(c) - 9 < 5u; }
static inline bool hex(int c) { return dig(c) || unsigned(c) - 'A' < 6u || unsigned(c) - 'a' < 6u; }
static inline bool pun(int c) { return unsigned(c) - 0x21 < 0x5eu && !up(c) && !low(c) && !dig(c); }

OBL(upper_letters, int c) { OBL_REQUIRE((estd::isupper(c) != 0) == up(c)); OBL_END; }
OBL(lower_letters, int c) { OBL_REQUIRE((estd::islower(c) != 0) == low(c)); OBL_END; }
OBL(letters, int c) { OBL_REQUIRE((estd::isalpha(c) != 0) == (up(c) || low(c))); OBL_END; }
OBL(digits, int c) { OBL_REQUIRE((estd::isdigit(c) != 0) == dig(c)); OBL_END; }
OBL(spaces, int c) { OBL_REQUIRE((estd::isspace(c) != 0) == spc(c)); OBL_END; }
OBL(spaces_of_locale, char c) { OBL_REQUIRE(estd::isspace(c, C()) == spc(c)); OBL_REQUIRE(estd::isspace(c, US()) == spc(c)); OBL_END; }

// ---- ranges of characters
static constexpr int first_of[] = { -128, 0, 9, 14, 32, 33, '0', ':', 'A', 'G', '[', 'a', 'g', '{', 127, 128 };
#define KINDS(x) x(0) x(1) x(2) x(3) x(4) x(5) x(6) x(7) x(8) x(9) x(10) x(11) x(12) x(13) x(14)
#define ASSUME_KIND(c, K) OBL_ASSUME(c >= first_of[K]); OBL_ASSUME(c < first_of[K + 1])

// ---- the facet: any category asked for
namespace oblt {
template <class L, unsigned M, int K> void character_is(char c)
{
    ASSUME_KIND(c, K);
    typedef estd::ctype_base B;
    const auto f = estd::use_facet<estd::ctype<char> >(L());
    const int x = first_of[K];
    bool expected = false;
    if(M & B::space) expected |= spc(x);
    if(M & B::digit) expected |= dig(x);
    if(M & B::alpha) expected |= up(x) || low(x);
    if(M & B::punct) expected |= pun(x);
    if(M & B::upper) expected |= up(x);
    if(M & B::lower) expected |= low(x);
    if(M & B::xdigit) expected |= hex(x);
    OBL_REQUIRE(f.is(B::mask(M), c) == expected);
    OBL_END;
}
template <class L, int K> void facet_predicates(char c)
{
    ASSUME_KIND(c, K);
    const auto f = estd::use_facet<estd::ctype<char> >(L());
    OBL_REQUIRE(f.isspace(c) == spc(first_of[K]));
    OBL_REQUIRE(f.isupper(c) == up(first_of[K]));
    OBL_REQUIRE(f.islower(c) == low(first_of[K]));
    OBL_REQUIRE(f.widen(c) == c);
    OBL_END;
}
}
#define M1(m, k) (void*)&oblt::character_is<C, m, k>,
#define OF_KIND(k) M1(0, k) M1(1, k) M1(2, k) M1(4, k) M1(8, k) M1(16, k) M1(32, k) M1(64, k) M1(6, k) M1(14, k) M1(48, k) M1(112, k) M1(9, k) M1(66, k) M1(5, k) M1(40, k) M1(127, k) \
    (void*)&oblt::character_is<US, 1, k>, (void*)&oblt::character_is<US, 6, k>, (void*)&oblt::character_is<US, 64, k>,
OBL_INSTANCES(character_is, KINDS(OF_KIND) nullptr)
#define PREDICATES(k) (void*)&oblt::facet_predicates<C, k>,
OBL_INSTANCES(facet_predicates, KINDS(PREDICATES) nullptr)
OBL_STATIC(categories_are_distinct, (estd::ctype_base::space | estd::ctype_base::digit | estd::ctype_base::alpha | estd::ctype_base::punct | estd::ctype_base::upper | estd::ctype_base::lower | estd::ctype_base::xdigit) == 127);
OBL_STATIC(compound_categories, estd::ctype_base::alnum == (estd::ctype_base::alpha | estd::ctype_base::digit) && estd::ctype_base::graph == (estd::ctype_base::alnum | estd::ctype_base::punct));
OBL(widened, char c)
{
    OBL_ASSUME(c >= 0);
    OBL_REQUIRE((estd::ctype<wchar_t, C>::widen(c) == wchar_t(c)));
    OBL_END;
}

// ---- digits of a base: characters to values and back
namespace oblt {
// Three kinds: decimal digits, letters of either case; I: whether those below the base, or those from it on
template <unsigned B, unsigned R, int KIND, bool IN> void digit_of_base()
{
    typedef estd::cbase<char, B, C> F;
    constexpr int zero = KIND == 0 ? '0' : KIND == 1 ? 'A' - 10 : 'a' - 10;     // what has value zero
    constexpr int from = KIND == 0 ? 0 : 10, to = KIND == 0 ? 10 : 36;
    constexpr int limit = int(R) < from ? from : int(R) > to ? to : int(R);
    for(int v = IN ? from : limit; v < (IN ? limit : to); v++) {
    const char c = char(zero + v);
    const typename F::optional_type d = F::from_char(c, R);
    OBL_REQUIRE(F::is_in_base(c, R) == IN);
    OBL_REQUIRE(d.has_value() == IN);
    if(IN) { OBL_REQUIRE(*d == v); OBL_REQUIRE(F::from_char_raw(c) == v); }
    if(R == B) { OBL_REQUIRE(F::is_in_base(c) == IN); OBL_REQUIRE(F::from_char(c).has_value() == IN); }
    }
    OBL_END;
}
// K: everything else
template <unsigned B, unsigned R, int K> void no_digit()
{
    typedef estd::cbase<char, B, C> F;
    for(int c = first_of[K]; c < first_of[K + 1]; c++) {
    OBL_REQUIRE(!F::is_in_base(char(c), R));
    OBL_REQUIRE(!F::from_char(char(c), R).has_value());
    }
    OBL_END;
}
template <unsigned B> void digit_from_value()
{
    typedef estd::cbase<char, B, C> F;
    const F f = F();
    for(unsigned v = 0; v < B; v++) {
    const char c = f.to_char(v);
    if(v < 10) OBL_REQUIRE(c == char('0' + v));
    if(v >= 10) OBL_REQUIRE(c == char('a' + (v - 10)));
    }
    OBL_END;
}
template <unsigned B> void digit_in_either_case(unsigned char v)
{
    OBL_ASSUME(v < B);
    typedef estd::internal::cbase_utf<char, B, estd::internal::CBASE_POLICY_CASE_DYNAMIC> F;
    const F u(estd::internal::CBASE_POLICY_CASE_UPPER), l(estd::internal::CBASE_POLICY_CASE_LOWER);
    if(v < 10) { OBL_REQUIRE(u.to_char(v) == '0' + v); OBL_REQUIRE(l.to_char(v) == '0' + v); }
    if(v >= 10) { OBL_REQUIRE(u.to_char(v) == 'A' + (v - 10)); OBL_REQUIRE(l.to_char(v) == 'a' + (v - 10)); }
    OBL_REQUIRE(u.casing() == estd::internal::CBASE_POLICY_CASE_UPPER && l.casing() == estd::internal::CBASE_POLICY_CASE_LOWER);
    OBL_END;
}
}
#define D(b, r, k) (void*)&oblt::digit_of_base<b, r, k, true>, (void*)&oblt::digit_of_base<b, r, k, false>,
#define N(b, r) (void*)&oblt::no_digit<b, r, 0>, (void*)&oblt::no_digit<b, r, 1>, (void*)&oblt::no_digit<b, r, 4>, (void*)&oblt::no_digit<b, r, 5>, (void*)&oblt::no_digit<b, r, 7>, (void*)&oblt::no_digit<b, r, 10>, \
    (void*)&oblt::no_digit<b, r, 13>, (void*)&oblt::no_digit<b, r, 14>,
#define LOW_BASE(b, r) D(b, r, 0) (void*)&oblt::digit_of_base<b, r, 1, false>, (void*)&oblt::digit_of_base<b, r, 2, false>,
#define TEN(b, r) (void*)&oblt::digit_of_base<b, r, 0, true>, (void*)&oblt::digit_of_base<b, r, 1, false>, (void*)&oblt::digit_of_base<b, r, 2, false>,
#define HIGH_BASE(b, r) (void*)&oblt::digit_of_base<b, r, 0, true>, D(b, r, 1) D(b, r, 2)
#define TOP(b, r) (void*)&oblt::digit_of_base<b, r, 0, true>, (void*)&oblt::digit_of_base<b, r, 1, true>, (void*)&oblt::digit_of_base<b, r, 2, true>,
OBL_INSTANCES(digit_of_base, LOW_BASE(2, 2) LOW_BASE(3, 3) LOW_BASE(8, 8) TEN(10, 10) LOW_BASE(10, 2) LOW_BASE(10, 7) LOW_BASE(10, 9) HIGH_BASE(11, 11) HIGH_BASE(16, 16) HIGH_BASE(35, 35) TOP(36, 36) HIGH_BASE(36, 11) HIGH_BASE(36, 16) HIGH_BASE(36, 30) nullptr)
OBL_INSTANCES(no_digit, N(2, 2) N(8, 8) N(10, 10) N(10, 7) N(11, 11) N(16, 16) N(36, 36) N(36, 12) nullptr)
#define BASES(f) OBL_INSTANCES(f, (void*)&oblt::f<2>, (void*)&oblt::f<3>, (void*)&oblt::f<8>, (void*)&oblt::f<10>, (void*)&oblt::f<11>, (void*)&oblt::f<16>, (void*)&oblt::f<20>, (void*)&oblt::f<35>, (void*)&oblt::f<36>)
BASES(digit_from_value)
OBL_INSTANCES(digit_in_either_case, (void*)&oblt::digit_in_either_case<11>, (void*)&oblt::digit_in_either_case<16>, (void*)&oblt::digit_in_either_case<36>)

// ---- names and signs
static inline bool same(const char* a, const char* b)
{
    for(int i = 0; ; i++) { if(a[i] != b[i]) return false; if(a[i] == 0) return true; }
}
OBL(locale_names)
{
    OBL_REQUIRE(same(C().name(), "C"));
    OBL_REQUIRE(same(US().name(), "en_US.UTF-8"));
    OBL_REQUIRE(same(estd::internal::locale<estd::internal::locale_code::en_US, estd::internal::encodings::ASCII>().name(), "en_US"));
    OBL_END;
}
namespace oblt {
template <class L> void truth_in_english()
{
    const auto f = estd::use_facet<estd::numpunct<char> >(L());
    OBL_REQUIRE(same(f.truename().data(), "true"));
    OBL_REQUIRE(same(f.falsename().data(), "false"));
    OBL_REQUIRE(f.truename().size() == 4);
    OBL_REQUIRE(f.falsename().size() == 5);
    OBL_REQUIRE(f.decimal_point() == '.');
    OBL_REQUIRE(f.thousands_sep() == ',');
    OBL_REQUIRE(f.grouping().empty());
    OBL_END;
}
}
OBL_INSTANCES(truth_in_english, (void*)&oblt::truth_in_english<C>, (void*)&oblt::truth_in_english<US>)
OBL(truth_in_french)
{
    const auto f = estd::use_facet<estd::numpunct<char> >(FR());
    OBL_REQUIRE(same(f.truename().data(), "vrai"));
    OBL_REQUIRE(same(f.falsename().data(), "faux"));
    OBL_END;
}
OBL(money)
{
    const auto f = estd::use_facet<estd::moneypunct<char, false> >(US());
    const auto g = estd::use_facet<estd::moneypunct<char, true> >(US());
    OBL_REQUIRE(same(f.curr_symbol().data(), "$"));
    OBL_REQUIRE(same(g.curr_symbol().data(), "USD "));
    OBL_REQUIRE(f.decimal_point() == '.' && g.decimal_point() == '.');
    OBL_END;
}
OBL_STATIC(every_encoding_holds_ascii, estd::internal::is_ascii_compatible(estd::internal::encodings::ASCII) && estd::internal::is_ascii_compatible(estd::internal::encodings::UTF8));
OBL_STATIC(classic_compatible, estd::internal::is_compatible_with_classic_locale<C>::value && estd::internal::is_compatible_with_classic_locale<US>::value && !estd::internal::is_compatible_with_classic_locale<FR>::value);

// ---- chooser: the name which the text spells, text behind it is left; -1 without any
namespace oblt {
template <int W> void chosen(char after, char other)
{
    static const char* const names[] = { "one", "two", "three" };      // t is shared: the first of those which start alike
    static const int sizes[] = { 3, 3, 5 };
    (void)other;
    char text[8] = {};
    for(int i = 0; i < sizes[W]; i++) text[i] = names[W][i];
    text[sizes[W]] = after;
    const char* in = text;
    const int found = estd::internal::chooser::choose(names, in, (const char*)text + 7);
    if(W != 2) { OBL_REQUIRE(found == W); OBL_REQUIRE(in == text + sizes[W]); }
    OBL_END;
}
// a text which ends early or departs from the name is not chosen
template <int N> void not_chosen(char other)
{
    static const char* const names[] = { "abc", "xyz" };
    OBL_ASSUME(other != "abc"[N]);
    if(N == 0) OBL_ASSUME(other != 'x');
    char text[4] = { 'a', 'b', 'c', 0 };
    text[N] = other;
    const char* in = text;
    OBL_REQUIRE(estd::internal::chooser::choose(names, in, (const char*)text + 3) == -1);
    OBL_END;
}
template <int N> void cut_short(int)
{
    static const char* const names[] = { "abc", "xyz" };
    char text[4] = { 'x', 'y', 'z', 0 };
    const char* in = text;
    OBL_REQUIRE(estd::internal::chooser::choose(names, in, (const char*)text + N) == -1);
    OBL_REQUIRE(in == text + N);
    OBL_END;
}
}
OBL_INSTANCES(chosen, (void*)&oblt::chosen<0>, (void*)&oblt::chosen<1>)
OBL_INSTANCES(not_chosen, (void*)&oblt::not_chosen<0>, (void*)&oblt::not_chosen<1>, (void*)&oblt::not_chosen<2>)
OBL_INSTANCES(cut_short, (void*)&oblt::cut_short<0>, (void*)&oblt::cut_short<1>, (void*)&oblt::cut_short<2>)
