// std: 17
// thorough: 20
// min: 11
// peel: 2
// rounds: 4
#include <estd/utility.h>
#include <estd/tuple.h>
#include <estd/internal/variadic.h>
#include "obl.h"

namespace v = estd::variadic;
using estd::is_same;
struct A {}; struct B { int x; }; struct C { char c[16]; }; struct D : A { long l; };
template <class T> struct type { typedef T t; };

// ---- integer sequences
template <class S, size_t... Is> constexpr bool is_values() { return estd::is_base_of<estd::index_sequence<Is...>, S>::value; }
OBL_STATIC(index_sequences, is_values<estd::make_index_sequence<0>>() && is_values<estd::make_index_sequence<1>, 0>() && is_values<estd::make_index_sequence<2>, 0, 1>()
    && is_values<estd::make_index_sequence<5>, 0, 1, 2, 3, 4>() && is_values<estd::index_sequence_for<A, B, C>, 0, 1, 2>() && is_values<estd::index_sequence_for<>>());
OBL_STATIC(reverse_sequences, is_values<estd::make_reverse_index_sequence<0>>() && is_values<estd::make_reverse_index_sequence<1>, 0>() && is_values<estd::make_reverse_index_sequence<2>, 1, 0>()
    && is_values<estd::make_reverse_index_sequence<5>, 4, 3, 2, 1, 0>());
OBL_STATIC(integer_sequences, estd::is_base_of<estd::integer_sequence<char, 0, 1, 2>, estd::make_integer_sequence<char, 3>>::value);
OBL_STATIC(large_sequence, estd::make_index_sequence<300>::size() == 300 && estd::make_index_sequence<300>::get<299>::value == 299 && estd::make_index_sequence<300>::get<256>::value == 256
    && estd::make_reverse_index_sequence<300>::get<0>::value == 299);
typedef v::values<int, 7, -3, 7, 40000, 0> V;
OBL_STATIC(values_access, V::size() == 5 && V::first() == 7 && V::get<0>::value == 7 && V::get<1>::value == -3 && V::get<2>::value == 7 && V::get<3>::value == 40000 && V::get<4>::value == 0
    && is_same<V::value_type, int>::value && v::values<int>::size() == 0 && v::values<long, -9>::single() == -9);
OBL_STATIC(values_added, is_same<V::prepend<5>, v::values<int, 5, 7, -3, 7, 40000, 0>>::value && is_same<V::append<5>, v::values<int, 7, -3, 7, 40000, 0, 5>>::value
    && is_same<v::values<int>::append<1>, v::values<int, 1>>::value && is_same<v::values<int>::prepend<1>, v::values<int, 1>>::value);
OBL_STATIC(values_contained, V::contains<-3>() && V::contains<0>() && V::contains<40000>() && !V::contains<1>() && !V::contains<-7>() && !v::values<int>::contains<0>());
OBL_STATIC(values_contained_twice, V::contains<7>());
struct positive { template <int j, size_t> using evaluator = estd::bool_constant<(j > 0)>; };
struct even_place { template <int, size_t i> using evaluator = estd::bool_constant<i % 2 == 0>; };
OBL_STATIC(values_where, is_same<V::where<positive>, v::values<int, 7, 7, 40000>>::value && is_same<V::where<even_place>, v::values<int, 7, 7, 0>>::value
    && is_same<v::values<int>::where<positive>, v::values<int>>::value && is_same<v::values<int, -1>::where<positive>, v::values<int>>::value);
OBL_STATIC(values_of_other, is_same<V::where<estd::internal::is_same_values_selector<v::values<int, 0, -3, 9>>>, v::values<int, -3, 0>>::value);
OBL_STATIC(indices_reversed, is_same<estd::internal::indices_reverser<1, 5, 3>::reversed, estd::index_sequence<3, 5, 1>>::value && is_same<estd::internal::indices_reverser<>::reversed, estd::index_sequence<>>::value);

// ---- type sequences
typedef v::types<A, B, C, B> TT;
OBL_STATIC(types_access, TT::size() == 4 && !TT::empty() && is_same<TT::first, A>::value && is_same<TT::last, B>::value && is_same<TT::get<1>, B>::value && is_same<TT::get<2>, C>::value
    && v::types<>::size() == 0 && v::types<>::empty() && is_same<v::types<C>::single, C>::value);
OBL_STATIC(types_added, is_same<TT::prepend<D>, v::types<D, A, B, C, B>>::value && is_same<TT::append<D>, v::types<A, B, C, B, D>>::value && is_same<v::types<>::append<D>, v::types<D>>::value);
OBL_STATIC(types_where, is_same<TT::where<estd::internal::is_same_selector<B>>, v::types<B, B>>::value && is_same<TT::where<estd::internal::is_same_selector<D>>, v::types<>>::value
    && is_same<TT::where<estd::internal::index_selector<2>>, v::types<C>>::value && is_same<v::types<>::where<estd::internal::is_same_selector<D>>, v::types<>>::value);
OBL_STATIC(types_selected_indices, is_same<TT::selector<estd::internal::is_same_selector<B>>::indices, estd::index_sequence<1, 3>>::value
    && is_same<TT::selector<estd::internal::is_same_selector<A>>::indices, estd::index_sequence<0>>::value && is_same<TT::selector<estd::internal::is_same_selector<D>>::indices, estd::index_sequence<>>::value
    && is_same<TT::selector<estd::internal::is_same_selector<B>>::selected, v::types<v::type<1, B>, v::type<3, B>>>::value);
OBL_STATIC(types_select_all, !TT::selector<estd::internal::is_same_selector<B>>::all && v::types<B, B>::selector<estd::internal::is_same_selector<B>>::all);
OBL_STATIC(types_convertible, is_same<v::types<A, D*, A*, int>::where<estd::internal::converting_selector<D*>>, v::types<D*, A*>>::value
    && is_same<v::types<A, long, D*, int>::where<estd::internal::constructible_selector<char>>, v::types<long, int>>::value);
OBL_STATIC(type_selected, is_same<estd::internal::select_type<B, A, B, C>, v::types<v::type<1, B>>>::value && estd::internal::contains_type<B, A, B, B>::value && !estd::internal::contains_type<D, A, B>::value
    && !estd::internal::contains_type<D>::value && is_same<estd::internal::ensure_type_t<B, A, B>, B>::value);
OBL_STATIC(type_indices, estd::internal::first_index_of_type<A, A, B, C>::index == 0 && estd::internal::first_index_of_type<B, A, B, C, B>::index == 1 && estd::internal::first_index_of_type<C, A, B, C>::index == 2
    && estd::internal::first_index_of_type<B, A, B, C, B>::matches == 2 && estd::internal::first_index_of_type<D, A, B>::detail::value == 0 && estd::internal::single_index_of_type<C, A, B, C>::index == 2);
OBL_STATIC(types_at, is_same<estd::internal::type_at_index<0, A, B, C>, A>::value && is_same<estd::internal::type_at_index<2, A, B, C>, C>::value);
OBL_STATIC(largest, is_same<estd::internal::largest_type<A, B, C, D>::type, C>::value && is_same<estd::internal::largest_type<C, A>::type, C>::value && is_same<estd::internal::largest_type<char, short, char>::type, short>::value
    && is_same<estd::internal::largest_type<char, short, long long, int>::type, long long>::value && is_same<estd::internal::largest_type<A>::type, A>::value);
struct NT { NT(); ~NT(); };
OBL_STATIC(all_trivial, estd::internal::are_trivial<>::value && estd::internal::are_trivial<int, B>::value && !estd::internal::are_trivial<NT, int>::value && !estd::internal::are_trivial<int, NT>::value && !estd::internal::are_trivial<int, NT, int>::value);
OBL_STATIC(all_same, estd::internal::are_same<int, int, int>::value && !estd::internal::are_same<int, int, char>::value && !estd::internal::are_same<int, char, int>::value);
OBL_STATIC(counted, v::size<A, B, A>::value == 3 && v::size<>::value == 0);

// ---- visiting: in order, each once with its index, until one accepts; tells its index, or -1
namespace oblt {
template <int stop> void visit_types(int a)
{
    int n = 0;
    const size_t size[] = {sizeof(A), sizeof(B), sizeof(C), sizeof(B)};
    const int which = v::type_visitor<A, B, C, B>::visit([&](auto vi, int extra)
    {
        OBL_REQUIRE(int(vi.index) == n && sizeof(typename decltype(vi)::type) == size[n] && extra == a);
        return n++ == stop;
    }, a);
    OBL_REQUIRE(which == stop && n == (stop < 0 ? 4 : stop + 1));
    n = 4;
    const int back = v::type_visitor<A, B, C, B>::visit_reverse([&](auto vi, int extra)
    {
        n--;
        OBL_REQUIRE(int(vi.index) == n && sizeof(typename decltype(vi)::type) == size[n] && extra == a);
        return n == stop;
    }, a);
    OBL_REQUIRE(back == stop && n == (stop < 0 ? 0 : stop));
    OBL_END;
}
// whether a visitor accepts is decided at run time
template <int dummy> void visit_at_run_time(int a, int stop)
{
    int n = 0;
    OBL_ASSUME(stop >= -1 && stop < 3);
    const int which = v::type_visitor<A, B, C>::visit([&](auto vi) { OBL_REQUIRE(int(vi.index) == n); return n++ == stop; });
    OBL_REQUIRE(which == stop);
    OBL_REQUIRE(stop < 0 || n == stop + 1);
    n = 0;
    const int value = V::visit([&](auto vi) { OBL_REQUIRE(int(vi.index) == n); return n++ == stop; });
    OBL_REQUIRE(value == stop);
    OBL_END;
}
template <int stop> void visit_values(int a)
{
    int n = 0;
    const int values[] = {7, -3, 7, 40000, 0};
    const int which = V::visit([&](auto vi, int extra)
    {
        OBL_REQUIRE(int(vi.index) == n && decltype(vi)::value == values[n] && extra == a);
        return n++ == stop;
    }, a);
    OBL_REQUIRE(which == stop && n == (stop < 0 ? 5 : stop + 1));
    n = 0;
    const int again = v::value_visitor<int, 7, -3, 7, 40000, 0>::visit([&](auto vi) { OBL_REQUIRE(decltype(vi)::value == values[n]); return n++ == stop; });
    OBL_REQUIRE(again == which && n == (stop < 0 ? 5 : stop + 1));
    OBL_END;
}
template <int dummy> void visit_none()
{
    int n = 0;
    OBL_REQUIRE(v::type_visitor<>::visit([&](auto) { n++; return true; }) == -1 && n == 0);
    OBL_REQUIRE(v::type_visitor<>::visit_reverse([&](auto) { n++; return true; }) == -1 && n == 0);
    OBL_END;
}
}
OBL_INSTANCES(visits, (void*)&oblt::visit_types<-1>, (void*)&oblt::visit_types<0>, (void*)&oblt::visit_types<1>, (void*)&oblt::visit_types<2>, (void*)&oblt::visit_types<3>,
    (void*)&oblt::visit_values<-1>, (void*)&oblt::visit_values<0>, (void*)&oblt::visit_values<2>, (void*)&oblt::visit_values<4>, (void*)&oblt::visit_at_run_time<0>, (void*)&oblt::visit_none<0>)
// ---- offered to each in turn, counted from the front
namespace oblt {
template <int stop> void offered_forward(int a)
{
    int n = 0;
    const size_t size[] = {sizeof(A), sizeof(B), sizeof(C), sizeof(D)};
    auto f = [&](auto vi, int& extra) { OBL_REQUIRE(&extra == &a && int(vi.index) == n && sizeof(typename decltype(vi)::type) == size[n]); return n++ == stop; };
    const estd::experimental::forward_invoker<A, B, C, D> invoker{};
    const int which = invoker.invoke(f, a);
    OBL_REQUIRE(which == (stop < 4 ? stop : -1) && n == (stop < 0 || stop >= 4 ? 4 : stop + 1));
    OBL_END;
}
}
OBL_INSTANCES(offered_forward, (void*)&oblt::offered_forward<-1>, (void*)&oblt::offered_forward<0>, (void*)&oblt::offered_forward<1>, (void*)&oblt::offered_forward<2>, (void*)&oblt::offered_forward<3>)
