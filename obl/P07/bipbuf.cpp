// std: 17
// thorough: 11 20
// min: 100
// shards: 1 2 3
// thorough-shards: 5 6 7
// flags: -fno-builtin-strlen -fno-builtin-memcmp
// link: estd/ext/willemt/bipbuffer/bipbuffer.c
#include "cstr.h"
#include <estd/internal/bip/buffer.h>
#include "obl.h"

// Histories of offers and polls on a buffer of N bytes, followed by a queue of bytes.
typedef unsigned char B;
enum { N = 5 };
struct M { B c[64]; int at = 0, n = 0; bool broken = false; };   // broken: polled since last empty, may have wrapped

struct by_c
{
    struct { bipbuf_t b; B d[N]; B guard; } s;
    by_c() { s.guard = 77; bipbuf_init(&s.b, N); }
    int offer(const B* d, int k) { return bipbuf_offer(&s.b, d, k); }
    const B* peek(int k) { return bipbuf_peek(&s.b, k); }
    const B* poll(int k) { return bipbuf_poll(&s.b, k); }
    int used() { return bipbuf_used(&s.b); }
    int unused() { return bipbuf_unused(&s.b); }
    bool extra() { return s.guard == 77 && bipbuf_size(&s.b) == N && bool(bipbuf_is_empty(&s.b)) == (used() == 0); }
};
struct by_layer1
{
    struct { B g0[8] = {1}; estd::layer1::bipbuf<N> b; B guard = 77; } s;
    int offer(const B* d, int k) { return s.b.offer(d, k); }
    const B* peek(int k) { return s.b.peek(k); }
    const B* poll(int k) { return s.b.poll(k); }
    int used() { return s.b.used(); }
    int unused() { return s.b.unused(); }
    bool extra() { return s.guard == 77; }
};
// the same through offer_begin/offer_end, which the caller guards with unused()
struct by_steps
{
    struct { bipbuf_t b; B d[N]; B guard; } s;
    by_steps() { s.guard = 77; estd::layer3::bipbuf(&s.b, N); }
    estd::layer3::bipbuf w() { return estd::layer3::bipbuf(&s.b); }
    int offer(const B* d, int k)
    {
        auto b = w();
        if((int)b.unused() < k) return 0;
        B* p = b.offer_begin();
        for(int i = 0; i < k; i++) p[i] = d[i];
        b.offer_end(k);
        return k;
    }
    const B* peek(int k) { return w().peek(k); }
    const B* poll(int k) { return w().poll(k); }
    int used() { return w().used(); }
    int unused() { return w().unused(); }
    bool extra() { return s.guard == 77; }
};

template <class X> static inline void agree(X& x, const M& m)
{
    OBL_REQUIRE(x.used() == m.n);
    OBL_REQUIRE(x.unused() >= 0 && x.used() + x.unused() <= N);
    OBL_REQUIRE(m.n || x.unused() == N);                     // drained: all of it is available again
    OBL_REQUIRE(x.extra());
    OBL_REQUIRE((x.peek(1) != nullptr) == (m.n > 0));
    OBL_REQUIRE(x.peek(m.n + 1) == nullptr);
    if(m.n && !m.broken) OBL_REQUIRE(x.peek(m.n) != nullptr);
}
// positive: offer so many bytes; negative: poll so many
template <int op, class X> static inline void step(X& x, M& m, const B* in)
{
    if(op > 0)
    {
        const int room = x.unused(), r = x.offer(in, op);
        OBL_REQUIRE(r == (op <= room ? op : 0));
        if(r) { for(int i = 0; i < op; i++) m.c[m.at + m.n + i] = in[i]; m.n += op; }
        else OBL_REQUIRE(x.unused() == room);
    }
    else
    {
        const int k = -op, room = x.unused();
        const B* q = x.peek(k); const B* p = x.poll(k);
        OBL_REQUIRE(p == q);
        if(p)
        {
            OBL_REQUIRE(k <= m.n);
            for(int i = 0; i < k && i < m.n; i++) OBL_REQUIRE(p[i] == m.c[m.at + i]);
            m.at += k; m.n -= k; m.broken = m.n > 0;
            OBL_REQUIRE(x.unused() >= room && (room || x.unused() >= k));
        }
        else OBL_REQUIRE((k > 1 || m.n == 0) && x.unused() == room);
    }
    agree(x, m);
}
template <class X> static inline void run(X& x, M& m, const B*, obl::seq<>)
{
    // whatever is left comes out one byte at a time
    for(int i = 0; i < N; i++) if(m.n) { step<-1>(x, m, nullptr); }
    OBL_REQUIRE(x.used() == 0);
}
template <class X, int o, int... ops> static inline void run(X& x, M& m, const B* in, obl::seq<o, ops...>)
{
    step<o>(x, m, in);
    run(x, m, in + (o > 0 ? o : 0), obl::seq<ops...>());
}
#define ARG B a, B b, B c, B d, B e, B f, B g, B h
namespace oblt {
template <class X, int... ops> void history(ARG)
{
    const B in[32] = {a, b, c, d, e, f, g, h, a, b, c, d, e, f, g, h, 17};
    X x; M m; agree(x, m);
    run(x, m, in, obl::seq<ops...>());
    OBL_END;
}
}
#define F(...) (void*)&oblt::history<X, __VA_ARGS__>,
#define L1(...) F(__VA_ARGS__, 1) F(__VA_ARGS__, 2) F(__VA_ARGS__, 3) F(__VA_ARGS__, 5) F(__VA_ARGS__, -1) F(__VA_ARGS__, -2) F(__VA_ARGS__, -4)
#define L2(...) L1(__VA_ARGS__, 1) L1(__VA_ARGS__, 2) L1(__VA_ARGS__, 3) L1(__VA_ARGS__, -1) L1(__VA_ARGS__, -2) L1(__VA_ARGS__, -3)
#define L3(...) L2(__VA_ARGS__, 1) L2(__VA_ARGS__, 2) L2(__VA_ARGS__, 4) L2(__VA_ARGS__, -1) L2(__VA_ARGS__, -2)
#if SHARD % 4 == 1
typedef by_c X;
#elif SHARD % 4 == 2
typedef by_layer1 X;
#else
typedef by_steps X;
#endif
// buffers filled and drained in turns, up to and past the wrap
OBL_INSTANCES(all,
#if SHARD / 4 == 0
    L1(1) L1(3) L1(5) L2(2) L2(4) L2(5, -1) L2(5, -2) L2(5, -4) L2(3, -2) L2(4, -1) L1(5, -3, 2, -1) L1(4, -3, 1, 2) L1(3, -2, 2, 1, -1) L1(5, -3, 3, -2)
#else
    L3(5) L3(4) L3(3) L3(5, -3) L3(3, -1)
#endif
    nullptr)
// refusals, whatever the size
OBL(bipbuf_poll_beyond, ARG, int k)
{
    const B in[8] = {a, b, c, d, e, f, g, h};
    X x; M m; step<3>(x, m, in);
    OBL_ASSUME(k > 3 || k < 0);
    OBL_REQUIRE(x.peek(k) == nullptr && x.poll(k) == nullptr);
    agree(x, m); step<-1>(x, m, in); step<-2>(x, m, in);
    OBL_END;
}
OBL(bipbuf_offer_beyond, ARG, int k)
{
    const B in[8] = {a, b, c, d, e, f, g, h};
    X x; M m; step<3>(x, m, in);
    OBL_ASSUME(k > 2);
    OBL_REQUIRE(x.offer(in, k) == 0);
    agree(x, m); step<-3>(x, m, in);
    OBL_END;
}
OBL(bipbuf_offer_beyond_wrapped, ARG, int k)
{
    const B in[8] = {a, b, c, d, e, f, g, h};
    X x; M m; step<5>(x, m, in); step<-3>(x, m, in); step<1>(x, m, in + 5);
    OBL_ASSUME(k > 2);
    OBL_REQUIRE(x.offer(in, k) == 0);
    agree(x, m); step<-2>(x, m, in); step<-1>(x, m, in);
    OBL_END;
}
extern "C" size_t bipbuf_sizeof(const unsigned int size);
OBL(bipbuf_sizeof, unsigned n) { OBL_ASSUME(n < 1000000); OBL_REQUIRE(bipbuf_sizeof(n) >= offsetof(bipbuf_t, data) + n); OBL_END; }
OBL_STATIC(layer1_bipbuf_aligned, alignof(estd::layer1::bipbuf<3>) >= alignof(bipbuf_t));
OBL_STATIC(layer1_bipbuf_room, sizeof(estd::layer1::bipbuf<32>) >= offsetof(bipbuf_t, data) + 32);
