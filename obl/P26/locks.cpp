// std: 17
// thorough: 20
// min: 72
// peel: 6
// rounds: 6
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// What an operation locks it unlocks: an allocator which counts, under the containers.
#include <estd/string.h>
#include <estd/vector.h>
#include <estd/string_view.h>
#include <estd/allocators/fixed.h>
#include "obl.h"
#include "cstr.h"

// depth: locks not yet given back; broken: an unlock of what was not locked
struct count { int depth = 0; bool broken = false; };
template <class T, size_t N> struct counting : estd::layer1::allocator<T, N>
{
    typedef estd::layer1::allocator<T, N> base;
    using typename base::handle_type;
    using typename base::handle_with_offset;
    mutable count n;
    T& lock(handle_type h, int pos = 0, int c = 0) { n.depth++; return base::lock(h, pos, c); }
    T& lock(const handle_with_offset& h, int pos = 0, int c = 0) { n.depth++; return base::lock(h, pos, c); }
    const T& clock(handle_type h, int pos = 0, int c = 0) const { n.depth++; return base::clock(h, pos, c); }
    const T& clock(const handle_with_offset& h, int pos = 0, int c = 0) const { n.depth++; return base::clock(h, pos, c); }
    void unlock(handle_type) { if(n.depth <= 0) n.broken = true; n.depth--; }
    void cunlock(handle_type) const { if(n.depth <= 0) n.broken = true; n.depth--; }
};

namespace es = estd::internal;
template <size_t N, bool zero> using text = es::basic_string<counting<char, N>, es::string_policy<estd::char_traits<char>, zero ? es::string_options::null_terminated : es::string_options::none, uint16_t> >;
typedef estd::layer1::string<15> L1;

#define BALANCED(s) OBL_REQUIRE((s).get_allocator().n.depth == 0); OBL_REQUIRE(!(s).get_allocator().n.broken)
namespace oblt {
// one operation on a text of four characters
template <bool zero> struct made
{
    typedef text<16, zero> S;
    S s;
    made() { const char four[] = { 'a', 'b', 'c', 'd' }; if(zero) { typename counting<char, 16>::handle_type h{}; s.get_allocator().lock(h) = 0; } s.append(four, 4); s.get_allocator().n = count(); }
};
#define OPERATION(name, ...) template <bool zero> void name(char c, char d) { \
    typedef text<16, zero> S; made<zero> m; made<zero> o; S& s = m.s; const S& k = s; S& other = o.s; (void)k; (void)other; \
    const char two[] = { c, d, 0 }; const L1 foreign("xy"); const estd::string_view view("xy", 2); (void)two; (void)foreign; (void)view; \
    { __VA_ARGS__ } \
    BALANCED(s); BALANCED(other); OBL_END; }
OPERATION(pushes, s.push_back(c);)
OPERATION(pops, s.pop_back();)
OPERATION(appends_text, s.append("xy");)
OPERATION(appends_count, s.append(two, 2);)
OPERATION(appends_same, s.append(other);)
OPERATION(appends_foreign, s.append(foreign);)
OPERATION(plus_text, s += "xy";)
OPERATION(plus_same, s += other;)
OPERATION(plus_foreign, s += foreign;)
OPERATION(plus_char, s += c;)
OPERATION(assigns_text, s = "xy";)
OPERATION(assigns_same, s = other;)
OPERATION(assigns_foreign, s = foreign;)
OPERATION(assigns_range, s.assign(view.begin(), view.end());)
OPERATION(erases, s.erase(1, 2);)
OPERATION(clears, s.clear();)
OPERATION(shrinks, s.resize(2);)
OPERATION(grows, s.resize(6);)
OPERATION(sizes, OBL_REQUIRE(k.size() == 4); OBL_REQUIRE(!k.empty()); (void)k.capacity(); (void)k.max_size();)
OPERATION(equal_text, (void)(k == "abcd"); (void)(k == "abc");)
OPERATION(equal_same, (void)(k == other); other.push_back('x'); (void)(k == other);)
OPERATION(equal_foreign, (void)(k == foreign);)
OPERATION(compares_text, (void)k.compare("abcd"); (void)k.compare(two);)
OPERATION(compares_same, (void)k.compare(other);)
OPERATION(compares_foreign, (void)k.compare(foreign);)
OPERATION(starts_text, (void)k.starts_with("ab"); (void)k.starts_with(two);)
OPERATION(starts_char, (void)k.starts_with(c);)
OPERATION(starts_same, (void)k.starts_with(other);)
OPERATION(starts_foreign, (void)k.starts_with(foreign);)
OPERATION(ends_text, (void)k.ends_with("cd"); (void)k.ends_with(two);)
OPERATION(ends_char, (void)k.ends_with(c);)
OPERATION(ends_foreign, (void)k.ends_with(foreign);)
OPERATION(finds_char, (void)k.find(c); (void)k.find('b'); (void)k.find('x');)
OPERATION(finds_text, (void)k.find("bc"); (void)k.find("xx");)
OPERATION(finds_last, (void)k.find_last_of("cd"); (void)k.find_last_of("xx");)
OPERATION(finds_first, (void)k.find_first_of("cd"); (void)k.find_first_of("xx");)
OPERATION(copies, char to[8]; k.copy(to, 2, 1); k.copy(to, 8);)
}
#define BOTH(f) OBL_INSTANCES(f, (void*)&oblt::f<true>, (void*)&oblt::f<false>)
BOTH(pushes)
BOTH(pops)
BOTH(appends_text)
BOTH(appends_count)
BOTH(appends_same)
BOTH(appends_foreign)
BOTH(plus_text)
BOTH(plus_same)
BOTH(plus_foreign)
BOTH(plus_char)
BOTH(assigns_text)
BOTH(assigns_same)
BOTH(assigns_foreign)
BOTH(assigns_range)
BOTH(erases)
BOTH(clears)
BOTH(shrinks)
BOTH(grows)
BOTH(sizes)
BOTH(equal_text)
BOTH(equal_same)
BOTH(equal_foreign)
BOTH(compares_text)
BOTH(compares_same)
BOTH(compares_foreign)
BOTH(starts_text)
BOTH(starts_char)
BOTH(starts_same)
BOTH(starts_foreign)
BOTH(ends_text)
BOTH(ends_char)
BOTH(ends_foreign)
BOTH(finds_char)
BOTH(finds_text)
BOTH(finds_last)
BOTH(finds_first)
BOTH(copies)
