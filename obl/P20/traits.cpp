// std: 17
// thorough: 20
// min: 1
#include <estd/type_traits.h>
#include <estd/limits.h>
#include <estd/cstdint.h>
#include <estd/utility.h>
#include <type_traits>
#include <limits>
#include "obl.h"

// A type-level fact per trait: on every listed type it says what its namesake of the standard library says.
namespace sample {
struct empty {};
struct plain { int i; };
struct derived : plain { char c; };
struct privately : private plain {};
struct twice_a : plain {}; struct twice_b : plain {}; struct twice : twice_a, twice_b {};
struct virt { virtual ~virt(); virtual int f(); };
struct from_virt : virt { int f() override; };
struct abstract { virtual void f() = 0; };
struct nontrivial { nontrivial(); nontrivial(const nontrivial&); ~nontrivial(); nontrivial& operator=(const nontrivial&); };
struct move_only { move_only(move_only&&); move_only& operator=(move_only&&); };
struct immovable { immovable() = default; immovable(const immovable&) = delete; immovable& operator=(const immovable&) = delete; };
struct from_int { from_int(int); };
struct explicit_int { explicit explicit_int(int); };
struct to_int { operator int() const; };
struct throwing_move { throwing_move(throwing_move&&) noexcept(false); };
struct callable { int operator()(int) const; };
class with_private { int i; public: int get() const; };
enum plain_enum { e0 };
enum class scoped_enum : unsigned char { s0 };
typedef int plain::*data_member;
typedef int (with_private::*function_member)() const;
typedef void function_type(int, char);
typedef int ellipsis_function(const char*, ...);
typedef void const_function() const;
typedef void ref_function() &;
}
template <class...> struct list {};
using namespace sample;
typedef list<bool, char, signed char, unsigned char, wchar_t, char16_t, char32_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long> integers;
typedef list<float, double, long double> floats;
typedef list<void, const void, decltype(nullptr), int*, const int*, int* const, void*, const void* const, const char* volatile, plain*, int**, int&, const int&, int&&, plain&, plain&&, const plain&&, int* &,
    const int, volatile int, const volatile long, const float, const bool, const plain, int[], int[3], const int[3], int[2][3], plain[4], const char[], int (&)[3], int (*)[3],
    function_type, ellipsis_function, const_function, ref_function, function_type*, function_type&, function_type* const, data_member, function_member, const data_member, function_member&> built;
typedef list<empty, plain, derived, privately, twice, virt, from_virt, abstract, nontrivial, move_only, immovable, from_int, explicit_int, to_int, throwing_move, callable, with_private, plain_enum, scoped_enum> classes;
// without void and functions, and complete
typedef list<int, bool, char, double, int*, const int*, int* const, plain*, decltype(nullptr), data_member, function_member, empty, plain, derived, privately, virt, from_virt, nontrivial, move_only, immovable, from_int, explicit_int, to_int,
    throwing_move, callable, with_private, plain_enum, scoped_enum, const int, const plain, int&, const int&, int&&, plain&, const plain&> objects;

template <template <class> class A, template <class> class B, class... T> constexpr bool agree(list<T...>) { return ((bool(A<T>::value) == bool(B<T>::value)) && ...); }
template <template <class> class A, template <class> class B, class... L> constexpr bool on() { return (agree<A, B>(L()) && ...); }
template <template <class> class A, template <class> class B, class... T> constexpr bool same_types(list<T...>) { return (std::is_same<typename A<T>::type, typename B<T>::type>::value && ...); }
template <template <class> class A, template <class> class B, class... L> constexpr bool types_on() { return (same_types<A, B>(L()) && ...); }
template <template <class, class> class A, template <class, class> class B, class T, class... U> constexpr bool row(list<U...>) { return ((bool(A<T, U>::value) == bool(B<T, U>::value)) && ...); }
template <template <class, class> class A, template <class, class> class B, class... T, class M> constexpr bool matrix(list<T...>, M m) { return (row<A, B, T>(m) && ...); }
#define AGREE(trait, ...) OBL_STATIC(trait##_agrees, on<estd::trait, std::trait, __VA_ARGS__>())
#define SAME(trait, ...) OBL_STATIC(trait##_yields_the_same, types_on<estd::trait, std::trait, __VA_ARGS__>())
#define ALL integers, floats, built, classes
typedef list<int, bool, unsigned char, long, double, int*, const int*, void*, const void*, decltype(nullptr), char*, const char*, empty, plain, derived, plain*, derived*, privately*, const derived*, virt*, from_virt*, from_int, explicit_int, to_int, int&, const int&, int&&,
    plain&, derived&, const plain&, plain_enum, scoped_enum, data_member, function_type*, move_only, immovable, nontrivial, nontrivial&, const nontrivial&> pairs;
typedef list<empty, plain, derived, privately, twice, twice_a, virt, from_virt, abstract, int, plain*, plain_enum, const plain, const derived, volatile plain> bases;

AGREE(is_void, ALL);
AGREE(is_const, ALL);
AGREE(is_volatile, ALL);
AGREE(is_reference, ALL);
AGREE(is_lvalue_reference, ALL);
AGREE(is_rvalue_reference, ALL);
AGREE(is_array, ALL);
AGREE(is_pointer, ALL);
AGREE(is_function, ALL);
AGREE(is_member_pointer, ALL);
AGREE(is_member_function_pointer, ALL);
AGREE(is_member_object_pointer, ALL);
AGREE(is_integral, ALL);
AGREE(is_floating_point, ALL);
AGREE(is_arithmetic, ALL);
AGREE(is_signed, ALL);
AGREE(is_unsigned, ALL);
AGREE(is_class, ALL);
AGREE(is_empty, integers, floats, classes);
AGREE(is_trivial, integers, floats, classes);
AGREE(is_copy_constructible, objects);
AGREE(is_move_constructible, objects);
AGREE(is_nothrow_move_constructible, objects);
AGREE(is_copy_assignable, objects);
AGREE(is_move_assignable, objects);
OBL_STATIC(is_same_agrees, matrix<estd::is_same, std::is_same>(pairs(), pairs()));
OBL_STATIC(is_base_of_agrees, matrix<estd::is_base_of, std::is_base_of>(bases(), bases()));
OBL_STATIC(is_convertible_agrees, matrix<estd::is_convertible, std::is_convertible>(pairs(), pairs()));
OBL_STATIC(is_assignable_agrees, matrix<estd::is_assignable, std::is_assignable>(pairs(), pairs()));
template <class T, class U> using estd_made_of = estd::is_constructible<T, U>;
template <class T, class U> using std_made_of = std::is_constructible<T, U>;
OBL_STATIC(is_constructible_agrees, matrix<estd_made_of, std_made_of>(pairs(), pairs()) && estd::is_constructible<plain>::value && !estd::is_constructible<from_int>::value && !estd::is_constructible<abstract>::value);
SAME(remove_const, ALL);
SAME(remove_volatile, ALL);
SAME(remove_cv, ALL);
SAME(remove_reference, ALL);
SAME(remove_pointer, ALL);
SAME(remove_extent, ALL);
SAME(add_const, ALL);
SAME(add_volatile, ALL);
SAME(add_cv, ALL);
SAME(decay, integers, floats, classes, list<int&, const int&, int&&, const plain&, int[3], const int[3], int[], int (&)[3], const char (&)[4], int[2][3], function_type, ellipsis_function, function_type&, int* const, const int* const&, volatile char, function_type*, data_member>);
SAME(add_lvalue_reference, integers, floats, classes, list<void, int&, int&&, const int, int[3], plain&, function_type, int*>);
SAME(add_rvalue_reference, integers, floats, classes, list<int&, int&&, const int, int[3], plain&, function_type, int*>);
SAME(add_pointer, integers, floats, classes, list<int&, int&&, const int, int[3], plain&, const plain&, int*, function_type, ellipsis_function, void>);
SAME(underlying_type, list<plain_enum, scoped_enum>);
#if __cplusplus >= 202002L
SAME(remove_cvref, ALL);
#else
OBL_STATIC(remove_cvref_of, std::is_same<estd::remove_cvref<const int&>::type, int>::value && std::is_same<estd::remove_cvref<volatile plain&&>::type, plain>::value && std::is_same<estd::remove_cvref<const char>::type, char>::value
    && std::is_same<estd::remove_cvref<const int*>::type, const int*>::value);
#endif
template <class A, class B> constexpr bool is() { return std::is_same<A, B>::value; }
OBL_STATIC(abbreviations, is<estd::remove_cv_t<const int>, int>() && is<estd::remove_const_t<const volatile int>, volatile int>() && is<estd::remove_reference_t<int&&>, int>() && is<estd::remove_pointer_t<int*>, int>()
    && is<estd::add_const_t<int>, const int>() && is<estd::add_lvalue_reference_t<int>, int&>() && is<estd::add_rvalue_reference_t<int>, int&&>() && is<estd::decay_t<const int&>, int>()
    && is<estd::conditional_t<true, int, char>, int>() && is<estd::conditional_t<false, int, char>, char>() && is<estd::enable_if_t<true, long>, long>() && is<estd::enable_if_t<true>, void>() && is<estd::void_t<int, plain>, void>()
    && is<estd::type_identity_t<plain>, plain>() && is<estd::remove_cvref_t<const plain&>, plain>() && is<estd::remove_volatile_t<volatile int>, int>());
template <class T, class = void> struct enabled : std::false_type {};
template <class T> struct enabled<T, estd::enable_if_t<T::value> > : std::true_type {};
OBL_STATIC(enabling, enabled<estd::true_type>::value && !enabled<estd::false_type>::value);
typedef estd::true_type y; typedef estd::false_type n;
OBL_STATIC(junctions, estd::conjunction<>::value && estd::conjunction<y>::value && !estd::conjunction<n>::value && !estd::conjunction<y, n, y>::value && !estd::conjunction<y, y, n>::value && !estd::conjunction<n, y, y>::value && estd::conjunction<y, y, y>::value
    && !estd::disjunction<>::value && estd::disjunction<y>::value && !estd::disjunction<n>::value && estd::disjunction<n, n, y>::value && estd::disjunction<y, n>::value && estd::disjunction<n, y, n>::value && !estd::disjunction<n, n>::value);
// they end at the first which decides: the rest is not looked at
struct no_value;
OBL_STATIC(junctions_stop, !estd::conjunction<y, n, no_value>::value && estd::disjunction<n, y, no_value>::value);
OBL_STATIC(constants, estd::integral_constant<int, -5>::value == -5 && estd::integral_constant<int, -5>() == -5 && estd::integral_constant<char, 'x'>()() == 'x' && is<estd::integral_constant<long, 1>::value_type, long>()
    && is<estd::bool_constant<true>, estd::true_type>() && is<estd::true_type::type, estd::true_type>());
template <class A, class B> constexpr bool common() { return is<typename estd::common_type<A, B>::type, typename std::common_type<A, B>::type>(); }
OBL_STATIC(common_types, common<int, char>() && common<int, unsigned>() && common<short, short>() && common<long, unsigned>() && common<float, int>() && common<double, float>() && common<long long, unsigned long long>() && common<int&, const int>()
    && common<derived*, plain*>() && common<const char*, char*>() && common<bool, char>() && is<estd::common_type<int>::type, int>() && is<estd::common_type<char, short, long>::type, std::common_type<char, short, long>::type>());
OBL_STATIC(void_pointers_common, common<int*, void*>() && common<decltype(nullptr), int*>() && common<int, to_int>());
template <size_t L, size_t A> constexpr bool room() { typedef typename estd::aligned_storage<L, A>::type t; return sizeof(t) >= L && alignof(t) == A && sizeof(t) == (L + A - 1) / A * A; }
OBL_STATIC(aligned_rooms, room<1, 1>() && room<3, 1>() && room<4, 4>() && room<5, 4>() && room<16, 8>() && room<300, 1>() && room<24, 16>());
OBL_STATIC(alignments, estd::alignment_of<char>::value == 1 && estd::alignment_of<long>::value == alignof(long) && estd::alignment_of<plain>::value == alignof(plain) && estd::alignment_of<long double>::value == alignof(long double));

// ---- numeric limits
template <class T> using S = std::numeric_limits<T>;
template <class T> using E = estd::numeric_limits<T>;
template <class... T> constexpr bool int_min(list<T...>) { return ((E<T>::min() == S<T>::min()) && ...); }
template <class... T> constexpr bool int_max(list<T...>) { return ((E<T>::max() == S<T>::max()) && ...); }
template <class... T> constexpr bool int_digits(list<T...>) { return ((int(E<T>::digits) == S<T>::digits) && ...); }
template <class... T> constexpr bool int_digits10(list<T...>) { return ((int(E<T>::digits10) == S<T>::digits10) && ...); }
template <class... T> constexpr bool int_kind(list<T...>) { return ((E<T>::is_signed == S<T>::is_signed && E<T>::is_integer && E<T>::is_specialized && int(E<T>::radix) == 2 && !E<T>::is_iec559 && E<T>::bits == 8 * sizeof(T)) && ...); }
template <class T> constexpr unsigned text_length(unsigned base)
{
    // octal is counted generously by the library
    unsigned long long v = std::is_signed<T>::value ? ~0ull >> (64 - 8 * sizeof(T)) : (unsigned long long)S<T>::max();
    unsigned r = std::is_signed<T>::value ? 1 : 0;
    for(; v; v /= base) r++;
    return r;
}
template <class... T> constexpr bool int_lengths(list<T...>) { return ((E<T>::template length<10>::value == text_length<T>(10) && E<T>::template length<16>::value == text_length<T>(16)) && ...); }
template <class... T> constexpr bool int_octal(list<T...>) { return ((E<T>::template length<8>::value >= text_length<T>(8)) && ...); }
template <class... T> constexpr bool int_unsigned(list<T...>) { return (is<typename estd::make_unsigned<T>::type, typename std::make_unsigned<T>::type>() && ...); }
typedef list<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long> limited;
OBL_STATIC(least_values, int_min(limited()) && !E<bool>::min());
OBL_STATIC(greatest_values, int_max(limited()) && E<bool>::max());
OBL_STATIC(binary_digits, int_digits(limited()) && E<bool>::digits == 1);
OBL_STATIC(decimal_digits, int_digits10(limited()) && E<bool>::digits10 == 0);
OBL_STATIC(integer_kinds, int_kind(limited()));
OBL_STATIC(text_lengths, int_lengths(limited()));
OBL_STATIC(octal_lengths, int_octal(limited()));
OBL_STATIC(unsigned_counterparts, int_unsigned(list<signed char, short, int, long, unsigned char, unsigned short, unsigned, unsigned long>()));
template <class T> constexpr bool float_limits() { return E<T>::min() == S<T>::min() && E<T>::max() == S<T>::max() && E<T>::lowest() == S<T>::lowest() && int(E<T>::digits) == S<T>::digits && int(E<T>::digits10) == S<T>::digits10
    && E<T>::is_iec559 == S<T>::is_iec559 && E<T>::is_signed && !E<T>::is_integer && int(E<T>::radix) == S<T>::radix && E<T>::is_specialized && E<T>::bits == 8 * sizeof(T); }
OBL_STATIC(float_limits, float_limits<float>() && float_limits<double>());

// ---- the address of an object, also of one which hides it
struct hides { int v; hides* operator&() { return nullptr; } const hides* operator&() const { return nullptr; } };
OBL(addressof, int a, char c)
{
    struct { int before; hides h; } s = {a, {a}};
    const hides& k = s.h;
    OBL_REQUIRE(reinterpret_cast<char*>(estd::addressof(s.h)) == reinterpret_cast<char*>(&s) + sizeof(int) && estd::addressof(k) == estd::addressof(s.h));
    OBL_REQUIRE(estd::addressof(a) == &a && estd::addressof(c) == &c);
    OBL_END;
}
