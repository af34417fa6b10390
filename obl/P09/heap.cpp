// std: 17
// thorough: 14 20
// min: 60
// shards: 1 2 3 4 5 6 7
// thorough-shards: 11 12 13 14 15 16
// peel: 4
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/algorithm.h>
#include <estd/queue.h>
#include "obl.h"

// Elements: an ordering key, which one it is, and contents unknown to the analysis. A heap sees only the
// outcome of comparisons, so every assignment of n key ranks to n elements covers all key values.
struct E
{
    int key, id; long long p;
    E() {}
    E(int key, int id, long long p) : key(key), id(id), p(p) {}
    // member by member: easier on the passes than a block copy
    E(const E& o) : key(o.key), id(o.id), p(o.p) {}
    E& operator=(const E& o) { key = o.key; id = o.id; p = o.p; return *this; }
};
static inline bool operator<(const E& a, const E& b) { return a.key < b.key; }
static inline bool operator>(const E& a, const E& b) { return a.key > b.key; }
typedef long long T;
#define ARG T a, T b, T c, T d, T e

template <int n> static inline void mk(E* x, const T* S, int pattern)
{
    for(int i = 0; i < n; i++) { x[i].key = pattern % n; x[i].id = i; x[i].p = S[i]; pattern /= n; }
}
constexpr int pw(int n, int k) { return k ? n * pw(n, k - 1) : 1; }
// the n elements x[0..n) are those made from the pattern, each once, contents intact
template <int n> static inline void same(const E* x, const T* S, int pattern)
{
    int seen = 0;
    for(int i = 0; i < n; i++)
    {
        OBL_REQUIRE(x[i].id >= 0 && x[i].id < n && x[i].key == pattern / pw(n, x[i].id) % n && x[i].p == S[x[i].id]);
        seen |= 1 << x[i].id;
    }
    OBL_REQUIRE(seen == (1 << n) - 1);
}
template <bool min> static inline bool beats(const E& a, const E& b) { return min ? a.key < b.key : a.key > b.key; }
template <bool min> static inline void is_heap(const E* x, int n, int k = 2) { for(int i = 1; i < n; i++) OBL_REQUIRE(!beats<min>(x[i], x[(i - 1) / k])); }
template <bool min> struct cmp : estd::less<E> {};
template <> struct cmp<true> : estd::greater<E> {};

template <bool min, class I> static inline void make(I f, I l) { if(min) estd::make_heap(f, l, estd::greater<E>()); else estd::make_heap(f, l); }
template <bool min, class I> static inline void push(I f, I l) { if(min) estd::push_heap(f, l, estd::greater<E>()); else estd::push_heap(f, l); }
template <bool min, class I> static inline void pop(I f, I l) { if(min) estd::pop_heap(f, l, estd::greater<E>()); else estd::pop_heap(f, l); }
template <bool min, int n> static inline void algorithms(const T* S, int pattern)
{
    E x[n];
    mk<n>(x, S, pattern);
    make<min>(x, x + n);
    is_heap<min>(x, n); same<n>(x, S, pattern);
    for(int m = n; m > 0; m--)
    {
        const int top = x[0].id;
        pop<min>(x, x + m);
        OBL_REQUIRE(x[m - 1].id == top);
        is_heap<min>(x, m - 1);
    }
    same<n>(x, S, pattern);
    for(int i = 1; i < n; i++) OBL_REQUIRE(!beats<min>(x[i - 1], x[i]));     // taken out best first
    mk<n>(x, S, pattern);
    for(int m = 1; m <= n; m++)
    {
        push<min>(x, x + m);
        is_heap<min>(x, m);
    }
    same<n>(x, S, pattern);
}
template <int n, int k> static inline void kary(const T* S, int pattern)
{
    E x[n + 1];
    mk<n>(x, S, pattern);
    estd::make_heap(x, x + n, estd::less<E>(), k);
    is_heap<false>(x, n, k); same<n>(x, S, pattern);
    estd::internal::heap<E*, estd::less<E>> h(x, x + n, k);
    for(int m = n; m > 1; m--)
    {
        const int top = x[0].id;
        OBL_REQUIRE(h.front().id == top && (int)h.size() == m);
        h.pop();
        OBL_REQUIRE(x[m - 1].id == top);
        is_heap<false>(x, m - 1, k);
    }
    same<n>(x, S, pattern);
    for(int m = 1; m < n; m++) { E t = x[m]; h.push(t); is_heap<false>(x, m + 1, k); }
    same<n>(x, S, pattern);
}
template <int n, class Q> static inline void drains(Q& q, const T* S, int pattern, int out = -1)
{
    int last = n, seen = 0, left = n - (out >= 0);
    for(int m = left; m > 0; m--)
    {
        OBL_REQUIRE((int)q.size() == m && !q.empty());
        const E& t = q.top();
        OBL_REQUIRE(t.id >= 0 && t.id < n && t.key == pattern / pw(n, t.id) % n && t.p == S[t.id]);
        OBL_REQUIRE(t.key <= last);
        last = t.key; seen |= 1 << t.id;
        q.pop();
    }
    OBL_REQUIRE(q.empty() && seen == ((1 << n) - 1 & ~(out >= 0 ? 1 << out : 0)));
}
template <int n> static inline void queue(const T* S, int pattern)
{
    E x[n]; mk<n>(x, S, pattern);
    { estd::layer1::priority_queue<E, n> q; for(int i = 0; i < n; i++) q.push(x[i]); drains<n>(q, S, pattern); }
    { estd::layer1::priority_queue<E, n> q; for(int i = 0; i < n; i++) if(i % 2) q.push(static_cast<E&&>(x[i])); else q.emplace(x[i]); drains<n>(q, S, pattern); }
    { estd::layer1::priority_queue<E, n> q; for(int i = 0; i < n; i++) q.push(x[i]);
      q.pop(); int k = -1; for(int i = 0; i < n; i++) if(k < 0 || x[i].key > x[k].key) k = i;
      if(n > 1) OBL_REQUIRE(((const E&)q.top()).key <= x[k].key); OBL_REQUIRE((int)q.size() == n - 1); }
}
template <int n> static inline void removal(const T* S, int pattern)
{
    E x[n]; mk<n>(x, S, pattern);
    for(int out = 0; out < n; out++)
    {
        estd::layer1::priority_queue<E, n> q; for(int i = 0; i < n; i++) q.push(x[i]);
        OBL_REQUIRE(!q.erase_if([](const E& e) { return e.id == 77; }));
        OBL_REQUIRE(q.erase_if([&](const E& e) { return e.id == out; }));
        drains<n>(q, S, pattern, out);
    }
}
namespace oblt {
template <bool min, int n, int p> void heap(ARG) { const T S[5] = {a, b, c, d, e}; algorithms<min, n>(S, p); OBL_END; }
template <int n, int k, int p> void kheap(ARG) { const T S[5] = {a, b, c, d, e}; kary<n, k>(S, p); OBL_END; }
template <int n, int p> void pqueue(ARG) { const T S[5] = {a, b, c, d, e}; queue<n>(S, p); OBL_END; }
template <int n, int p> void perase(ARG) { const T S[5] = {a, b, c, d, e}; removal<n>(S, p); OBL_END; }
}
namespace oblt {
// numbers, which swap in ways of their own
template <class N, bool min, int n, int pattern> void numbers()
{
    N x[n + 1]; int count[n] = {}, q = pattern;
    for(int i = 0; i < n; i++) { x[i] = N(3 + 7 * (q % n)); count[q % n]++; q /= n; }
    x[n] = 99;
    if(min) estd::make_heap(x, x + n, estd::greater<N>()); else estd::make_heap(x, x + n);
    for(int i = 1; i < n; i++) OBL_REQUIRE(min ? x[(i - 1) / 2] <= x[i] : x[(i - 1) / 2] >= x[i]);
    for(int m = n; m > 0; m--) { const N top = x[0]; if(min) estd::pop_heap(x, x + m, estd::greater<N>()); else estd::pop_heap(x, x + m); OBL_REQUIRE(x[m - 1] == top); }
    for(int i = 1; i < n; i++) OBL_REQUIRE(min ? x[i - 1] >= x[i] : x[i - 1] <= x[i]);
    for(int i = 0; i < n; i++) for(int k = 0; k < n; k++) if(x[i] == N(3 + 7 * k)) count[k]--;
    for(int k = 0; k < n; k++) OBL_REQUIRE(count[k] == 0);
    estd::layer1::priority_queue<N, n> pq;
    for(int i = 0; i < n; i++) pq.push(x[i]);
    N last = 127;
    for(int m = n; m > 0; m--) { OBL_REQUIRE((int)pq.size() == m && pq.top() <= last); last = pq.top(); pq.pop(); }
    OBL_REQUIRE(x[n] == 99);
    OBL_END;
}
}
// one obligation per rank pattern: R4/R16/R64 give consecutive ones, S16 every so many
#define A(...) (void*)&oblt::__VA_ARGS__
#define R4(f, p, ...) A(f<__VA_ARGS__, (p)>), A(f<__VA_ARGS__, (p) + 1>), A(f<__VA_ARGS__, (p) + 2>), A(f<__VA_ARGS__, (p) + 3>),
#define R16(f, p, ...) R4(f, p, __VA_ARGS__) R4(f, p + 4, __VA_ARGS__) R4(f, p + 8, __VA_ARGS__) R4(f, p + 12, __VA_ARGS__)
#define R64(f, p, ...) R16(f, p, __VA_ARGS__) R16(f, p + 16, __VA_ARGS__) R16(f, p + 32, __VA_ARGS__) R16(f, p + 48, __VA_ARGS__)
#define R256(f, ...) R64(f, 0, __VA_ARGS__) R64(f, 64, __VA_ARGS__) R64(f, 128, __VA_ARGS__) R64(f, 192, __VA_ARGS__)
#define S4(f, p, s, ...) A(f<__VA_ARGS__, (p)>), A(f<__VA_ARGS__, (p) + s>), A(f<__VA_ARGS__, (p) + 2 * s>), A(f<__VA_ARGS__, (p) + 3 * s>),
#define S16(f, p, s, ...) S4(f, p, s, __VA_ARGS__) S4(f, p + 4 * s, s, __VA_ARGS__) S4(f, p + 8 * s, s, __VA_ARGS__) S4(f, p + 12 * s, s, __VA_ARGS__)
#define S64(f, p, s, ...) S16(f, p, s, __VA_ARGS__) S16(f, p + 16 * s, s, __VA_ARGS__) S16(f, p + 32 * s, s, __VA_ARGS__) S16(f, p + 48 * s, s, __VA_ARGS__)
OBL_INSTANCES(all,
#if SHARD == 1
    A(heap<false, 1, 0>), R4(heap, 0, false, 2) R16(heap, 0, false, 3) R4(heap, 16, false, 3) R4(heap, 20, false, 3) S64(heap, 1, 4, false, 4)
#elif SHARD == 2
    A(heap<true, 1, 0>), R4(heap, 0, true, 2) R16(heap, 0, true, 3) R4(heap, 16, true, 3) R4(heap, 20, true, 3) S64(heap, 3, 4, true, 4)
#elif SHARD == 3
    A(pqueue<1, 0>), R4(pqueue, 0, 2) R16(pqueue, 0, 3) R4(pqueue, 16, 3) R4(pqueue, 20, 3) S16(pqueue, 0, 17, 4)
#elif SHARD == 4
    S64(kheap, 2, 4, 4, 3) S16(kheap, 101, 189, 5, 4)
#elif SHARD == 5
    A(perase<1, 0>), R4(perase, 0, 2) R16(perase, 0, 3) R4(perase, 16, 3) R4(perase, 20, 3)
#elif SHARD == 6
    S64(heap, 32, 49, false, 5)
#elif SHARD == 7
    S16(pqueue, 7, 15, 4) S16(perase, 5, 15, 4)
#elif SHARD == 11
    R256(heap, true, 4)
#elif SHARD == 12
    R256(heap, false, 4)
#elif SHARD == 13
    R256(perase, 4)
#elif SHARD == 14
    S64(kheap, 11, 49, 5, 3)
#elif SHARD == 15
    S64(heap, 13, 49, false, 5) S64(heap, 21, 49, true, 5)
#elif SHARD == 16
    R256(pqueue, 4)
#endif
    nullptr)
#if SHARD == 1
#define N5(N, m) A(numbers<N, m, 1, 0>), A(numbers<N, m, 2, 1>), A(numbers<N, m, 2, 2>), A(numbers<N, m, 2, 3>), A(numbers<N, m, 3, 11>), A(numbers<N, m, 3, 5>), A(numbers<N, m, 3, 13>), A(numbers<N, m, 4, 114>), A(numbers<N, m, 4, 27>)
OBL_INSTANCES(numbers, N5(char, false), N5(signed char, true), N5(unsigned char, false), N5(short, true), N5(unsigned short, false), N5(int, false), N5(int, true), N5(unsigned, false), N5(long, false), N5(unsigned long, true), N5(long long, false), N5(unsigned long long, true), N5(float, false))
OBL(heap_empty_range, E* p) { estd::make_heap(p, p); estd::make_heap(p, p, estd::less<E>(), 3); OBL_END; }
OBL(heap_one, int k, T p) { E g[3] = {{1, 1, 1}, {k, 2, p}, {3, 3, 3}}; estd::make_heap(g + 1, g + 2); estd::push_heap(g + 1, g + 2); OBL_REQUIRE(g[1].key == k && g[1].id == 2 && g[1].p == p && g[0].id == 1 && g[2].id == 3); OBL_END; }
#endif
