// std: 17
// thorough: 20
// min: 60
// peel: 2
// rounds: 8
#include <estd/algorithm.h>
#include <estd/numeric.h>
#include <estd/iterator.h>
#include <estd/vector.h>
#include <estd/internal/numeric.h>
#include "obl.h"

// An element: what comparisons see, which one it is, and contents unknown to the analysis.
struct E
{
    int key, id; long long p;
    E() : key(-1), id(-1), p(0) {}
    E(int key, int id, long long p) : key(key), id(id), p(p) {}
    E(const E& o) : key(o.key), id(o.id), p(o.p) {}
    E& operator=(const E& o) { key = o.key; id = o.id; p = o.p; return *this; }
    bool is(int i, long long q) const { return id == i && p == q; }
};
static inline bool operator==(const E& a, const E& b) { return a.key == b.key; }
static inline bool operator<(const E& a, const E& b) { return a.key < b.key; }
static inline bool operator>(const E& a, const E& b) { return a.key > b.key; }
typedef long long T;

// Forward iterator over x[0..n) which must not leave it; an input iterator's worth of operations
template <int n> struct It
{
    typedef int difference_type; typedef E value_type; typedef E* pointer; typedef E& reference; typedef std::forward_iterator_tag iterator_category;
    E* x; int at;
    E& operator*() const { OBL_REQUIRE(at >= 0 && at < n); return x[at]; }
    It& operator++() { OBL_REQUIRE(at < n); ++at; return *this; }
    It operator++(int) { It r(*this); ++*this; return r; }
    It& operator--() { OBL_REQUIRE(at > 0); --at; return *this; }
    bool operator==(const It& o) const { return at == o.at; }
    bool operator!=(const It& o) const { return at != o.at; }
};
template <int n> struct Src
{
    E x[n ? n : 1];
    Src(const T* S, int pattern, int base = 4) { for(int i = 0; i < n; i++) { x[i].key = pattern % base; x[i].id = i; x[i].p = S[i]; pattern /= base; } }
    Src() {}
    It<n> begin() { return It<n>{x, 0}; }
    It<n> end() { return It<n>{x, n}; }
    It<n> at(int i) { return It<n>{x, i}; }
    bool intact(const T* S, int pattern, int base = 4) const { for(int i = 0; i < n; i++) { if(x[i].key != pattern % base || !x[i].is(i, S[i])) return false; pattern /= base; } return true; }
};
#define ARG T a, T b, T c, T d
#define SS const T S[5] = {a, b, c, d, a ^ d}

namespace oblt {
// ---- order: the first of the least, the first of the greatest
template <int n, int pattern> void extremes(ARG)
{
    SS; Src<n> s(S, pattern);
    int lo = n ? 0 : n, hi = lo;
    for(int i = 1; i < n; i++) { if(s.x[i].key < s.x[lo].key) lo = i; if(s.x[i].key > s.x[hi].key) hi = i; }
    auto less = [](const E& a, const E& b) { return a.key < b.key; };
    auto more = [](const E& a, const E& b) { return a.key > b.key; };
    OBL_REQUIRE(estd::min_element(s.begin(), s.end(), less).at == lo && estd::min_element(s.begin(), s.end(), more).at == hi);
    OBL_REQUIRE(estd::max_element(s.begin(), s.end(), less).at == hi && estd::max_element(s.begin(), s.end(), more).at == lo);
    OBL_REQUIRE(s.intact(S, pattern));
    if(n >= 2)
    {
        const E &x = s.x[0], &y = s.x[1];
        // of equal ones the first
        OBL_REQUIRE(&estd::min(x, y) == (y.key < x.key ? &y : &x) && &estd::max(x, y) == (x.key < y.key ? &y : &x));
        OBL_REQUIRE(&estd::min(x, y, more) == (y.key > x.key ? &y : &x));
    }
    if(n >= 3)
    {
        const E &v = s.x[0], &l = s.x[1].key <= s.x[2].key ? s.x[1] : s.x[2], &h = s.x[1].key <= s.x[2].key ? s.x[2] : s.x[1];
        const E* want = v.key < l.key ? &l : h.key < v.key ? &h : &v;
        OBL_REQUIRE(&estd::clamp(v, l, h) == want && &estd::clamp(v, l, h, less) == want && &estd::clamp(v, h, l, more) == want);
    }
    OBL_END;
}
// ---- searching
template <int n, int m, int pattern, int sought> void searches(ARG)
{
    SS; Src<n> s(S, pattern); Src<m> t(S, sought);
    auto same = [](const E& a, const E& b) { return a.key == b.key; };
    int first = n, last = -1, where = n;
    for(int i = n; i--;) for(int k = 0; k < m; k++) if(s.x[i].key == t.x[k].key) first = i;
    for(int i = 0; i < n; i++) for(int k = 0; k < m; k++) if(s.x[i].key == t.x[k].key) last = i;
    for(int i = n - m; i >= 0; i--) { bool all = true; for(int k = 0; k < m; k++) all = all && s.x[i + k].key == t.x[k].key; if(all) where = i; }
    OBL_REQUIRE(estd::find_first_of(s.begin(), s.end(), t.begin(), t.end()).at == first);
    OBL_REQUIRE(estd::find_first_of(s.begin(), s.end(), t.begin(), t.end(), same).at == first);
    OBL_REQUIRE(estd::search(s.begin(), s.end(), t.begin(), t.end(), same).at == where);
    if(m >= 1)
    {
        int f = n;
        for(int i = n; i--;) if(s.x[i].key == t.x[0].key) f = i;
        OBL_REQUIRE(estd::find_if(s.begin(), s.end(), [&](const E& e) { return e.key == t.x[0].key; }).at == f);
    }
    if(n >= 1)  // looks from the last one down to, not at, the first one given
    {
        int l = 0;
        for(int i = 1; i < n; i++) for(int k = 0; k < m; k++) if(s.x[i].key == t.x[k].key) l = i;
        OBL_REQUIRE(estd::internal::find_last_of(s.begin(), s.at(n - 1), t.begin(), t.end()).at == l);
        OBL_REQUIRE(estd::internal::find_last_of(s.begin(), s.at(n - 1), t.begin(), t.end(), same).at == l);
    }
    OBL_REQUIRE(s.intact(S, pattern) && t.intact(S, sought));
    OBL_END;
}
template <int n, int pattern, int other> void compares(ARG)
{
    SS; Src<n> s(S, pattern), t(S, other);
    int at = n;
    for(int i = n; i--;) if(s.x[i].key != t.x[i].key) at = i;
    OBL_REQUIRE(estd::equal(s.begin(), s.end(), t.begin()) == (at == n));
    auto r = estd::mismatch(s.begin(), s.end(), t.begin());
    OBL_REQUIRE(r.first.at == at && r.second.at == at && r.first.x == s.x && r.second.x == t.x);
    OBL_END;
}
// ---- moving elements about
template <int n> void copies(ARG)
{
    SS; Src<n> s(S, 0);
    {
        Src<n + 2> t;
        OBL_REQUIRE(estd::copy(s.begin(), s.end(), t.at(1)).at == n + 1);
        for(int i = 0; i < n; i++) OBL_REQUIRE(t.x[i + 1].is(i, S[i]));
        OBL_REQUIRE(t.x[0].id == -1 && t.x[n + 1].id == -1);
    }
    {
        Src<n + 2> t;
        OBL_REQUIRE(estd::copy_n(s.begin(), n, t.at(1)).at == n + 1);
        for(int i = 0; i < n; i++) OBL_REQUIRE(t.x[i + 1].is(i, S[i]));
        OBL_REQUIRE(t.x[0].id == -1 && t.x[n + 1].id == -1);
    }
    {
        Src<n + 2> t;
        OBL_REQUIRE(estd::copy_backward(s.begin(), s.end(), t.at(n + 1)).at == 1);
        for(int i = 0; i < n; i++) OBL_REQUIRE(t.x[i + 1].is(i, S[i]));
        OBL_REQUIRE(t.x[0].id == -1 && t.x[n + 1].id == -1);
    }
    {
        Src<n + 2> t;
        OBL_REQUIRE(estd::move_backward(s.begin(), s.end(), t.at(n + 1)).at == 1);
        for(int i = 0; i < n; i++) OBL_REQUIRE(t.x[i + 1].is(i, S[i]));
        OBL_REQUIRE(t.x[0].id == -1 && t.x[n + 1].id == -1);
    }
    OBL_REQUIRE(s.intact(S, 0));
    OBL_END;
}
// within one range, each in the direction it is made for
template <int n, int by> void shifts(ARG)
{
    SS;
    {
        Src<n> s(S, 0);
        OBL_REQUIRE(estd::copy(s.at(by), s.end(), s.begin()).at == n - by);
        for(int i = 0; i < n - by; i++) OBL_REQUIRE(s.x[i].is(i + by, S[i + by]));
        for(int i = n - by; i < n; i++) OBL_REQUIRE(s.x[i].is(i, S[i]));
    }
    {
        Src<n> s(S, 0);
        OBL_REQUIRE(estd::copy_backward(s.begin(), s.at(n - by), s.end()).at == by);
        for(int i = by; i < n; i++) OBL_REQUIRE(s.x[i].is(i - by, S[i - by]));
        for(int i = 0; i < by; i++) OBL_REQUIRE(s.x[i].is(i, S[i]));
    }
    {
        Src<n> s(S, 0);
        OBL_REQUIRE(estd::move_backward(s.begin(), s.at(n - by), s.end()).at == by);
        for(int i = by; i < n; i++) OBL_REQUIRE(s.x[i].is(i - by, S[i - by]));
        for(int i = 0; i < by; i++) OBL_REQUIRE(s.x[i].is(i, S[i]));
    }
    OBL_END;
}
// what can be moved is
template <int n> void moves(int a, int b, int c, int d)
{
    const int S[4] = {a, b, c, d};
    obl::tracked<1> s[n], t[n];
    for(int i = 0; i < n; i++) s[i] = obl::tracked<1>(S[i]);
    const int copied = obl::tracked<1>::copies;
    obl::tracked<1>* const r = estd::move_backward(s, s + n, t + n);
    OBL_REQUIRE(r == t && obl::tracked<1>::copies == copied);
    for(int i = 0; i < n; i++) OBL_REQUIRE(t[i].v == S[i]);
    OBL_END;
}
template <int n> void fills(ARG)
{
    SS;
    const E v(1, 7, d);
    {
        Src<n + 2> t;
        OBL_REQUIRE(estd::fill_n(t.at(1), n, v).at == n + 1);
        for(int i = 0; i < n; i++) OBL_REQUIRE(t.x[i + 1].is(7, d));
        OBL_REQUIRE(t.x[0].id == -1 && t.x[n + 1].id == -1);
    }
    {
        Src<n + 2> t;
        estd::fill(t.at(1), t.at(n + 1), v);
        for(int i = 0; i < n; i++) OBL_REQUIRE(t.x[i + 1].is(7, d));
        OBL_REQUIRE(t.x[0].id == -1 && t.x[n + 1].id == -1);
    }
    OBL_END;
}
template <int n> void reverses(ARG)
{
    SS; Src<n + 2> s;
    for(int i = 0; i < n; i++) s.x[i + 1] = E(i, i, S[i]);
    estd::reverse(s.at(1), s.at(n + 1));
    for(int i = 0; i < n; i++) OBL_REQUIRE(s.x[n - i].is(i, S[i]));
    OBL_REQUIRE(s.x[0].id == -1 && s.x[n + 1].id == -1);
    for(int i = 0; i < n; i++) for(int k = 0; k < n; k++)
    {
        Src<n> t(S, 0);
        estd::iter_swap(t.at(i), t.at(k));
        for(int l = 0; l < n; l++) { const int w = l == i ? k : l == k ? i : l; OBL_REQUIRE(t.x[l].is(w, S[w])); }
    }
    OBL_END;
}
template <class N, int n> void reverses_numbers(N a, N b, N c, N d)
{
    const N S[5] = {a, b, c, d, a};
    N x[n + 2] = {b};
    x[n + 1] = a;
    for(int i = 0; i < n; i++) x[i + 1] = S[i];
    estd::reverse(x + 1, x + n + 1);
    for(int i = 0; i < n; i++) OBL_REQUIRE(x[n - i] == S[i]);
    OBL_REQUIRE(x[0] == b && x[n + 1] == a);
    OBL_END;
}
// ---- sums, distances
template <class N, int n> void sums(N a, N b, N c, N d, N z)
{
    const N x[4] = {a, b, c, d};
    N want = z;
    for(int i = 0; i < n; i++) want = N(want + x[i]);
    OBL_REQUIRE(estd::accumulate(x, x + n, z) == want);
    // any operation, applied from left to right
    N w = z;
    for(int i = 0; i < n; i++) w = N(w * 3 ^ x[i]);
    OBL_REQUIRE(estd::accumulate(x, x + n, z, [](N l, N r) { return N(l * 3 ^ r); }) == w);
    OBL_REQUIRE(estd::distance(x, x + n) == n && estd::distance(x + n, x + n) == 0);
    OBL_END;
}
template <int n> void distances(ARG)
{
    SS; Src<n> s(S, 0);
    for(int i = 0; i <= n; i++) OBL_REQUIRE(estd::distance(s.at(i), s.end()) == n - i && estd::distance(s.begin(), s.at(i)) == i);
    OBL_END;
}
#define NUM(f, N) (void*)&oblt::f<N, 0>, (void*)&oblt::f<N, 1>, (void*)&oblt::f<N, 2>, (void*)&oblt::f<N, 3>, (void*)&oblt::f<N, 4>
#define X4(f) (void*)&oblt::f<0>, (void*)&oblt::f<1>, (void*)&oblt::f<2>, (void*)&oblt::f<3>, (void*)&oblt::f<4>
OBL_INSTANCES(one, X4(copies), X4(fills), X4(reverses), X4(distances), (void*)&oblt::moves<1>, (void*)&oblt::moves<2>, (void*)&oblt::moves<4>,
    NUM(sums, int), NUM(sums, unsigned char), NUM(sums, T), NUM(reverses_numbers, char), NUM(reverses_numbers, short), NUM(reverses_numbers, int), NUM(reverses_numbers, T), NUM(reverses_numbers, unsigned), NUM(reverses_numbers, unsigned long),
    (void*)&oblt::shifts<1, 0>, (void*)&oblt::shifts<1, 1>, (void*)&oblt::shifts<2, 1>, (void*)&oblt::shifts<3, 1>, (void*)&oblt::shifts<3, 2>, (void*)&oblt::shifts<4, 1>, (void*)&oblt::shifts<4, 2>, (void*)&oblt::shifts<4, 3>)
OBL_INSTANCES(extremes,
    (void*)&oblt::extremes<0, 0>, (void*)&oblt::extremes<1, 0>, (void*)&oblt::extremes<2, 0>, (void*)&oblt::extremes<2, 4>, (void*)&oblt::extremes<2, 1>, (void*)&oblt::extremes<2, 5>, (void*)&oblt::extremes<3, 0>, (void*)&oblt::extremes<3, 16>,
    (void*)&oblt::extremes<3, 32>, (void*)&oblt::extremes<3, 4>, (void*)&oblt::extremes<3, 20>, (void*)&oblt::extremes<3, 36>, (void*)&oblt::extremes<3, 8>, (void*)&oblt::extremes<3, 24>, (void*)&oblt::extremes<3, 40>, (void*)&oblt::extremes<3, 1>,
    (void*)&oblt::extremes<3, 17>, (void*)&oblt::extremes<3, 33>, (void*)&oblt::extremes<3, 5>, (void*)&oblt::extremes<3, 21>, (void*)&oblt::extremes<3, 37>, (void*)&oblt::extremes<3, 9>, (void*)&oblt::extremes<3, 25>, (void*)&oblt::extremes<3, 41>,
    (void*)&oblt::extremes<3, 2>, (void*)&oblt::extremes<3, 18>, (void*)&oblt::extremes<3, 34>, (void*)&oblt::extremes<3, 6>, (void*)&oblt::extremes<3, 22>, (void*)&oblt::extremes<3, 38>, (void*)&oblt::extremes<3, 10>, (void*)&oblt::extremes<3, 26>,
    (void*)&oblt::extremes<3, 42>, (void*)&oblt::extremes<4, 0>, (void*)&oblt::extremes<4, 39>, (void*)&oblt::extremes<4, 125>, (void*)&oblt::extremes<4, 66>, (void*)&oblt::extremes<4, 228>, (void*)&oblt::extremes<4, 27>, (void*)&oblt::extremes<4, 5>,
    (void*)&oblt::extremes<4, 84>)
OBL_INSTANCES(searches,
    (void*)&oblt::searches<0, 0, 0, 0>, (void*)&oblt::searches<0, 1, 0, 1>, (void*)&oblt::searches<0, 2, 0, 5>, (void*)&oblt::searches<0, 2, 0, 9>, (void*)&oblt::searches<1, 0, 0, 0>, (void*)&oblt::searches<1, 0, 1, 0>, (void*)&oblt::searches<1, 0, 2, 0>, (void*)&oblt::searches<1, 1, 0, 1>,
    (void*)&oblt::searches<1, 1, 1, 1>, (void*)&oblt::searches<1, 1, 2, 1>, (void*)&oblt::searches<1, 2, 0, 5>, (void*)&oblt::searches<1, 2, 0, 9>, (void*)&oblt::searches<1, 2, 1, 5>, (void*)&oblt::searches<1, 2, 1, 9>, (void*)&oblt::searches<1, 2, 2, 5>, (void*)&oblt::searches<1, 2, 2, 9>,
    (void*)&oblt::searches<2, 0, 0, 0>, (void*)&oblt::searches<2, 0, 4, 0>, (void*)&oblt::searches<2, 0, 8, 0>, (void*)&oblt::searches<2, 0, 1, 0>, (void*)&oblt::searches<2, 0, 5, 0>, (void*)&oblt::searches<2, 0, 9, 0>, (void*)&oblt::searches<2, 0, 2, 0>, (void*)&oblt::searches<2, 0, 6, 0>,
    (void*)&oblt::searches<2, 0, 10, 0>, (void*)&oblt::searches<2, 1, 0, 1>, (void*)&oblt::searches<2, 1, 4, 1>, (void*)&oblt::searches<2, 1, 8, 1>, (void*)&oblt::searches<2, 1, 1, 1>, (void*)&oblt::searches<2, 1, 5, 1>, (void*)&oblt::searches<2, 1, 9, 1>, (void*)&oblt::searches<2, 1, 2, 1>,
    (void*)&oblt::searches<2, 1, 6, 1>, (void*)&oblt::searches<2, 1, 10, 1>, (void*)&oblt::searches<2, 2, 0, 5>, (void*)&oblt::searches<2, 2, 0, 9>, (void*)&oblt::searches<2, 2, 4, 5>, (void*)&oblt::searches<2, 2, 4, 9>, (void*)&oblt::searches<2, 2, 8, 5>, (void*)&oblt::searches<2, 2, 8, 9>,
    (void*)&oblt::searches<2, 2, 1, 5>, (void*)&oblt::searches<2, 2, 1, 9>, (void*)&oblt::searches<2, 2, 5, 5>, (void*)&oblt::searches<2, 2, 5, 9>, (void*)&oblt::searches<2, 2, 9, 5>, (void*)&oblt::searches<2, 2, 9, 9>, (void*)&oblt::searches<2, 2, 2, 5>, (void*)&oblt::searches<2, 2, 2, 9>,
    (void*)&oblt::searches<2, 2, 6, 5>, (void*)&oblt::searches<2, 2, 6, 9>, (void*)&oblt::searches<2, 2, 10, 5>, (void*)&oblt::searches<2, 2, 10, 9>, (void*)&oblt::searches<3, 0, 0, 0>, (void*)&oblt::searches<3, 0, 16, 0>, (void*)&oblt::searches<3, 0, 32, 0>, (void*)&oblt::searches<3, 0, 4, 0>,
    (void*)&oblt::searches<3, 0, 20, 0>, (void*)&oblt::searches<3, 0, 36, 0>, (void*)&oblt::searches<3, 0, 8, 0>, (void*)&oblt::searches<3, 0, 24, 0>, (void*)&oblt::searches<3, 0, 40, 0>, (void*)&oblt::searches<3, 0, 1, 0>, (void*)&oblt::searches<3, 0, 17, 0>, (void*)&oblt::searches<3, 0, 33, 0>,
    (void*)&oblt::searches<3, 0, 5, 0>, (void*)&oblt::searches<3, 0, 21, 0>, (void*)&oblt::searches<3, 0, 37, 0>, (void*)&oblt::searches<3, 0, 9, 0>, (void*)&oblt::searches<3, 0, 25, 0>, (void*)&oblt::searches<3, 0, 41, 0>, (void*)&oblt::searches<3, 0, 2, 0>, (void*)&oblt::searches<3, 0, 18, 0>,
    (void*)&oblt::searches<3, 0, 34, 0>, (void*)&oblt::searches<3, 0, 6, 0>, (void*)&oblt::searches<3, 0, 22, 0>, (void*)&oblt::searches<3, 0, 38, 0>, (void*)&oblt::searches<3, 0, 10, 0>, (void*)&oblt::searches<3, 0, 26, 0>, (void*)&oblt::searches<3, 0, 42, 0>, (void*)&oblt::searches<3, 1, 0, 1>,
    (void*)&oblt::searches<3, 1, 16, 1>, (void*)&oblt::searches<3, 1, 32, 1>, (void*)&oblt::searches<3, 1, 4, 1>, (void*)&oblt::searches<3, 1, 20, 1>, (void*)&oblt::searches<3, 1, 36, 1>, (void*)&oblt::searches<3, 1, 8, 1>, (void*)&oblt::searches<3, 1, 24, 1>, (void*)&oblt::searches<3, 1, 40, 1>,
    (void*)&oblt::searches<3, 1, 1, 1>, (void*)&oblt::searches<3, 1, 17, 1>, (void*)&oblt::searches<3, 1, 33, 1>, (void*)&oblt::searches<3, 1, 5, 1>, (void*)&oblt::searches<3, 1, 21, 1>, (void*)&oblt::searches<3, 1, 37, 1>, (void*)&oblt::searches<3, 1, 9, 1>, (void*)&oblt::searches<3, 1, 25, 1>,
    (void*)&oblt::searches<3, 1, 41, 1>, (void*)&oblt::searches<3, 1, 2, 1>, (void*)&oblt::searches<3, 1, 18, 1>, (void*)&oblt::searches<3, 1, 34, 1>, (void*)&oblt::searches<3, 1, 6, 1>, (void*)&oblt::searches<3, 1, 22, 1>, (void*)&oblt::searches<3, 1, 38, 1>, (void*)&oblt::searches<3, 1, 10, 1>,
    (void*)&oblt::searches<3, 1, 26, 1>, (void*)&oblt::searches<3, 1, 42, 1>, (void*)&oblt::searches<3, 2, 0, 5>, (void*)&oblt::searches<3, 2, 0, 9>, (void*)&oblt::searches<3, 2, 16, 5>, (void*)&oblt::searches<3, 2, 16, 9>, (void*)&oblt::searches<3, 2, 32, 5>, (void*)&oblt::searches<3, 2, 32, 9>,
    (void*)&oblt::searches<3, 2, 4, 5>, (void*)&oblt::searches<3, 2, 4, 9>, (void*)&oblt::searches<3, 2, 20, 5>, (void*)&oblt::searches<3, 2, 20, 9>, (void*)&oblt::searches<3, 2, 36, 5>, (void*)&oblt::searches<3, 2, 36, 9>, (void*)&oblt::searches<3, 2, 8, 5>, (void*)&oblt::searches<3, 2, 8, 9>,
    (void*)&oblt::searches<3, 2, 24, 5>, (void*)&oblt::searches<3, 2, 24, 9>, (void*)&oblt::searches<3, 2, 40, 5>, (void*)&oblt::searches<3, 2, 40, 9>, (void*)&oblt::searches<3, 2, 1, 5>, (void*)&oblt::searches<3, 2, 1, 9>, (void*)&oblt::searches<3, 2, 17, 5>, (void*)&oblt::searches<3, 2, 17, 9>,
    (void*)&oblt::searches<3, 2, 33, 5>, (void*)&oblt::searches<3, 2, 33, 9>, (void*)&oblt::searches<3, 2, 5, 5>, (void*)&oblt::searches<3, 2, 5, 9>, (void*)&oblt::searches<3, 2, 21, 5>, (void*)&oblt::searches<3, 2, 21, 9>, (void*)&oblt::searches<3, 2, 37, 5>, (void*)&oblt::searches<3, 2, 37, 9>,
    (void*)&oblt::searches<3, 2, 9, 5>, (void*)&oblt::searches<3, 2, 9, 9>, (void*)&oblt::searches<3, 2, 25, 5>, (void*)&oblt::searches<3, 2, 25, 9>, (void*)&oblt::searches<3, 2, 41, 5>, (void*)&oblt::searches<3, 2, 41, 9>, (void*)&oblt::searches<3, 2, 2, 5>, (void*)&oblt::searches<3, 2, 2, 9>,
    (void*)&oblt::searches<3, 2, 18, 5>, (void*)&oblt::searches<3, 2, 18, 9>, (void*)&oblt::searches<3, 2, 34, 5>, (void*)&oblt::searches<3, 2, 34, 9>, (void*)&oblt::searches<3, 2, 6, 5>, (void*)&oblt::searches<3, 2, 6, 9>, (void*)&oblt::searches<3, 2, 22, 5>, (void*)&oblt::searches<3, 2, 22, 9>,
    (void*)&oblt::searches<3, 2, 38, 5>, (void*)&oblt::searches<3, 2, 38, 9>, (void*)&oblt::searches<3, 2, 10, 5>, (void*)&oblt::searches<3, 2, 10, 9>, (void*)&oblt::searches<3, 2, 26, 5>, (void*)&oblt::searches<3, 2, 26, 9>, (void*)&oblt::searches<3, 2, 42, 5>, (void*)&oblt::searches<3, 2, 42, 9>,
    (void*)&oblt::searches<4, 3, 101, 37>, (void*)&oblt::searches<4, 2, 101, 9>, (void*)&oblt::searches<4, 1, 101, 2>, (void*)&oblt::searches<4, 4, 101, 85>, (void*)&oblt::searches<4, 0, 101, 0>, (void*)&oblt::searches<4, 3, 153, 37>, (void*)&oblt::searches<4, 2, 153, 9>, (void*)&oblt::searches<4, 1, 153, 2>,
    (void*)&oblt::searches<4, 4, 153, 85>, (void*)&oblt::searches<4, 0, 153, 0>, (void*)&oblt::searches<4, 3, 148, 37>, (void*)&oblt::searches<4, 2, 148, 9>, (void*)&oblt::searches<4, 1, 148, 2>, (void*)&oblt::searches<4, 4, 148, 85>, (void*)&oblt::searches<4, 0, 148, 0>, (void*)&oblt::searches<4, 3, 85, 37>,
    (void*)&oblt::searches<4, 2, 85, 9>, (void*)&oblt::searches<4, 1, 85, 2>, (void*)&oblt::searches<4, 4, 85, 85>, (void*)&oblt::searches<4, 0, 85, 0>, (void*)&oblt::searches<4, 3, 64, 37>, (void*)&oblt::searches<4, 2, 64, 9>, (void*)&oblt::searches<4, 1, 64, 2>, (void*)&oblt::searches<4, 4, 64, 85>,
    (void*)&oblt::searches<4, 0, 64, 0>, (void*)&oblt::searches<4, 3, 69, 37>, (void*)&oblt::searches<4, 2, 69, 9>, (void*)&oblt::searches<4, 1, 69, 2>, (void*)&oblt::searches<4, 4, 69, 85>, (void*)&oblt::searches<4, 0, 69, 0>, (void*)&oblt::searches<4, 3, 2, 37>, (void*)&oblt::searches<4, 2, 2, 9>,
    (void*)&oblt::searches<4, 1, 2, 2>, (void*)&oblt::searches<4, 4, 2, 85>, (void*)&oblt::searches<4, 0, 2, 0>)
// a partial match overlaps the full one
OBL_INSTANCES(overlaps,
    (void*)&oblt::searches<4, 2, 85, 9>, (void*)&oblt::searches<4, 2, 149, 9>, (void*)&oblt::searches<4, 2, 101, 9>, (void*)&oblt::searches<4, 2, 165, 9>, (void*)&oblt::searches<4, 2, 89, 9>, (void*)&oblt::searches<4, 2, 153, 9>,
    (void*)&oblt::searches<4, 2, 105, 9>, (void*)&oblt::searches<4, 2, 169, 9>, (void*)&oblt::searches<4, 2, 86, 9>, (void*)&oblt::searches<4, 2, 150, 9>, (void*)&oblt::searches<4, 2, 102, 9>, (void*)&oblt::searches<4, 2, 166, 9>,
    (void*)&oblt::searches<4, 2, 90, 9>, (void*)&oblt::searches<4, 2, 154, 9>, (void*)&oblt::searches<4, 2, 106, 9>, (void*)&oblt::searches<4, 2, 170, 9>, (void*)&oblt::searches<4, 3, 85, 37>, (void*)&oblt::searches<4, 3, 149, 37>,
    (void*)&oblt::searches<4, 3, 101, 37>, (void*)&oblt::searches<4, 3, 165, 37>, (void*)&oblt::searches<4, 3, 89, 37>, (void*)&oblt::searches<4, 3, 153, 37>, (void*)&oblt::searches<4, 3, 105, 37>, (void*)&oblt::searches<4, 3, 169, 37>,
    (void*)&oblt::searches<4, 3, 86, 37>, (void*)&oblt::searches<4, 3, 150, 37>, (void*)&oblt::searches<4, 3, 102, 37>, (void*)&oblt::searches<4, 3, 166, 37>, (void*)&oblt::searches<4, 3, 90, 37>, (void*)&oblt::searches<4, 3, 154, 37>,
    (void*)&oblt::searches<4, 3, 106, 37>, (void*)&oblt::searches<4, 3, 170, 37>, (void*)&oblt::searches<4, 3, 85, 25>, (void*)&oblt::searches<4, 3, 149, 25>, (void*)&oblt::searches<4, 3, 101, 25>, (void*)&oblt::searches<4, 3, 165, 25>,
    (void*)&oblt::searches<4, 3, 89, 25>, (void*)&oblt::searches<4, 3, 153, 25>, (void*)&oblt::searches<4, 3, 105, 25>, (void*)&oblt::searches<4, 3, 169, 25>, (void*)&oblt::searches<4, 3, 86, 25>, (void*)&oblt::searches<4, 3, 150, 25>,
    (void*)&oblt::searches<4, 3, 102, 25>, (void*)&oblt::searches<4, 3, 166, 25>, (void*)&oblt::searches<4, 3, 90, 25>, (void*)&oblt::searches<4, 3, 154, 25>, (void*)&oblt::searches<4, 3, 106, 25>, (void*)&oblt::searches<4, 3, 170, 25>,
    (void*)&oblt::searches<4, 3, 85, 41>, (void*)&oblt::searches<4, 3, 149, 41>, (void*)&oblt::searches<4, 3, 101, 41>, (void*)&oblt::searches<4, 3, 165, 41>, (void*)&oblt::searches<4, 3, 89, 41>, (void*)&oblt::searches<4, 3, 153, 41>,
    (void*)&oblt::searches<4, 3, 105, 41>, (void*)&oblt::searches<4, 3, 169, 41>, (void*)&oblt::searches<4, 3, 86, 41>, (void*)&oblt::searches<4, 3, 150, 41>, (void*)&oblt::searches<4, 3, 102, 41>, (void*)&oblt::searches<4, 3, 166, 41>,
    (void*)&oblt::searches<4, 3, 90, 41>, (void*)&oblt::searches<4, 3, 154, 41>, (void*)&oblt::searches<4, 3, 106, 41>, (void*)&oblt::searches<4, 3, 170, 41>, (void*)&oblt::searches<5, 2, 597, 9>, (void*)&oblt::searches<5, 2, 405, 9>,
    (void*)&oblt::searches<5, 2, 661, 9>, (void*)&oblt::searches<5, 2, 357, 9>, (void*)&oblt::searches<5, 2, 613, 9>, (void*)&oblt::searches<5, 2, 421, 9>, (void*)&oblt::searches<5, 2, 677, 9>, (void*)&oblt::searches<5, 2, 598, 9>,
    (void*)&oblt::searches<5, 2, 406, 9>, (void*)&oblt::searches<5, 2, 662, 9>, (void*)&oblt::searches<5, 2, 358, 9>, (void*)&oblt::searches<5, 2, 614, 9>, (void*)&oblt::searches<5, 2, 422, 9>, (void*)&oblt::searches<5, 2, 678, 9>,
    (void*)&oblt::searches<5, 2, 602, 9>, (void*)&oblt::searches<5, 2, 410, 9>, (void*)&oblt::searches<5, 2, 666, 9>, (void*)&oblt::searches<5, 2, 618, 9>, (void*)&oblt::searches<5, 3, 597, 37>, (void*)&oblt::searches<5, 3, 405, 37>,
    (void*)&oblt::searches<5, 3, 661, 37>, (void*)&oblt::searches<5, 3, 601, 37>, (void*)&oblt::searches<5, 3, 598, 37>, (void*)&oblt::searches<5, 3, 406, 37>, (void*)&oblt::searches<5, 3, 662, 37>, (void*)&oblt::searches<5, 3, 602, 37>,
    (void*)&oblt::searches<5, 3, 405, 25>, (void*)&oblt::searches<5, 3, 357, 25>, (void*)&oblt::searches<5, 3, 613, 25>, (void*)&oblt::searches<5, 3, 406, 25>, (void*)&oblt::searches<5, 3, 358, 25>, (void*)&oblt::searches<5, 3, 614, 25>,
    (void*)&oblt::searches<5, 3, 410, 25>, (void*)&oblt::searches<5, 3, 661, 41>, (void*)&oblt::searches<5, 3, 421, 41>, (void*)&oblt::searches<5, 3, 677, 41>, (void*)&oblt::searches<5, 3, 665, 41>, (void*)&oblt::searches<5, 3, 662, 41>,
    (void*)&oblt::searches<5, 3, 422, 41>, (void*)&oblt::searches<5, 3, 678, 41>, (void*)&oblt::searches<5, 3, 666, 41>, (void*)&oblt::searches<5, 4, 597, 149>, (void*)&oblt::searches<5, 4, 598, 149>, (void*)&oblt::searches<5, 4, 405, 101>,
    (void*)&oblt::searches<5, 4, 406, 101>, (void*)&oblt::searches<5, 4, 661, 165>, (void*)&oblt::searches<5, 4, 662, 165>, (void*)&oblt::searches<5, 4, 357, 89>, (void*)&oblt::searches<5, 4, 358, 89>, (void*)&oblt::searches<5, 4, 613, 153>,
    (void*)&oblt::searches<5, 4, 614, 153>, (void*)&oblt::searches<5, 4, 421, 105>, (void*)&oblt::searches<5, 4, 422, 105>, (void*)&oblt::searches<5, 4, 677, 169>, (void*)&oblt::searches<5, 4, 678, 169>)
OBL_INSTANCES(compares,
    (void*)&oblt::compares<0, 0, 0>, (void*)&oblt::compares<1, 1, 0>, (void*)&oblt::compares<1, 1, 1>, (void*)&oblt::compares<2, 5, 0>, (void*)&oblt::compares<2, 5, 4>, (void*)&oblt::compares<2, 5, 1>, (void*)&oblt::compares<2, 5, 5>, (void*)&oblt::compares<3, 21, 0>,
    (void*)&oblt::compares<3, 21, 16>, (void*)&oblt::compares<3, 21, 4>, (void*)&oblt::compares<3, 21, 20>, (void*)&oblt::compares<3, 21, 1>, (void*)&oblt::compares<3, 21, 17>, (void*)&oblt::compares<3, 21, 5>, (void*)&oblt::compares<3, 21, 21>, (void*)&oblt::compares<4, 85, 0>,
    (void*)&oblt::compares<4, 85, 64>, (void*)&oblt::compares<4, 85, 16>, (void*)&oblt::compares<4, 85, 80>, (void*)&oblt::compares<4, 85, 4>, (void*)&oblt::compares<4, 85, 68>, (void*)&oblt::compares<4, 85, 20>, (void*)&oblt::compares<4, 85, 84>, (void*)&oblt::compares<4, 85, 1>,
    (void*)&oblt::compares<4, 85, 65>, (void*)&oblt::compares<4, 85, 17>, (void*)&oblt::compares<4, 85, 81>, (void*)&oblt::compares<4, 85, 5>, (void*)&oblt::compares<4, 85, 69>, (void*)&oblt::compares<4, 85, 21>, (void*)&oblt::compares<4, 85, 85>)
}
