// std: 17
// thorough: 20
// min: 41
// peel: 4
// rounds: 6
#include <estd/cstdint.h>
#include <estd/utility.h>
#include <estd/internal/memory/pool.h>
#include <new>
#include "obl.h"

typedef int64_t I;
namespace m = estd::internal::memory;

namespace oblt {
template <class P> bool within(const P& p, void* at, size_t size)
{
    const char* b = reinterpret_cast<const char*>(&p), *c = static_cast<const char*>(at);
    return c >= b && c + size <= b + sizeof(P);
}
template <size_t size> bool apart(void* a, void* b)
{
    const char* x = static_cast<const char*>(a), *y = static_cast<const char*>(b);
    return x + size <= y || y + size <= x;
}
// ---- a fresh pool has all its blocks: as many as it says, apart from each other, then none
template <unsigned size, unsigned blocks> void all_taken()
{
    m::pool<size, blocks> p;
    OBL_REQUIRE(!p.full() && p.available_blocks() == blocks && p.max_blocks() == blocks && p.block_size() == size);
    void* b[blocks];
    for(unsigned i = 0; i < blocks; i++)
    {
        b[i] = p.alloc();
        OBL_REQUIRE(b[i] != nullptr && within(p, b[i], size));
        for(unsigned j = 0; j < i; j++) OBL_REQUIRE(apart<size>(b[i], b[j]));
        OBL_REQUIRE(p.available_blocks() == blocks - 1 - i && p.full() == (i + 1 == blocks));
    }
    OBL_REQUIRE(p.alloc() == nullptr && p.alloc() == nullptr && p.full() && p.available_blocks() == 0);
    OBL_END;
}
// what a block holds is its user's alone: nothing the pool does for others changes it
template <unsigned size, unsigned blocks, unsigned kept> void contents_kept(I v, char c)
{
    m::pool<size, blocks> p;
    void* b[blocks];
    for(unsigned i = 0; i < blocks; i++) b[i] = p.alloc();
    char* k = static_cast<char*>(b[kept]);
    k[0] = c; k[size - 1] = char(v);
    for(unsigned i = 0; i < blocks; i++) if(i != kept) p.free(b[i]);
    OBL_REQUIRE(k[0] == (size == 1 ? char(v) : c) && k[size - 1] == char(v) && p.available_blocks() == blocks - 1);
    for(unsigned i = 0; i + 1 < blocks; i++)
    {
        char* again = static_cast<char*>(p.alloc());
        OBL_REQUIRE(again != nullptr && apart<size>(again, k) && within(p, again, size));
        again[0] = char(i); again[size - 1] = char(~c);
    }
    OBL_REQUIRE(p.full() && p.alloc() == nullptr && k[0] == (size == 1 ? char(v) : c) && k[size - 1] == char(v));
    p.free(k);
    OBL_REQUIRE(!p.full() && p.available_blocks() == 1 && p.alloc() == k);
    OBL_END;
}
// blocks given back, in whatever order, are there again, whatever was written to them
template <unsigned size, unsigned i, unsigned j, unsigned k> void given_back(char c)
{
    m::pool<size, 3> p;
    void* b[3];
    for(void*& x : b) { x = p.alloc(); for(unsigned n = 0; n < size; n++) static_cast<char*>(x)[n] = c; }
    p.free(b[i]);
    OBL_REQUIRE(p.available_blocks() == 1 && !p.full());
    p.free(b[j]);
    OBL_REQUIRE(p.available_blocks() == 2);
    void* x = p.alloc();
    OBL_REQUIRE((x == b[i] || x == b[j]) && p.available_blocks() == 1);
    p.free(b[k]);
    OBL_REQUIRE(p.available_blocks() == 2);
    p.free(x);
    OBL_REQUIRE(p.available_blocks() == 3);
    void* y[3];
    for(void*& z : y) z = p.alloc();
    for(void* z : y) OBL_REQUIRE(z == b[0] || z == b[1] || z == b[2]);
    OBL_REQUIRE(y[0] != y[1] && y[0] != y[2] && y[1] != y[2] && p.full() && p.alloc() == nullptr);
    OBL_END;
}
// handles: distinct, small, and lead back
template <unsigned size, unsigned blocks> void handles()
{
    m::pool<size, blocks> p;
    void* b[blocks];
    for(void*& x : b) x = p.alloc();
    for(unsigned i = 0; i < blocks; i++)
    {
        const int8_t h = p.to_handle(b[i]);
        OBL_REQUIRE(h >= 0 && unsigned(h) < blocks && p.from_handle(h) == b[i]);
        for(unsigned j = 0; j < i; j++) OBL_REQUIRE(p.to_handle(b[j]) != h);
    }
    OBL_END;
}
// pools are separate
template <unsigned size> void separate(char c)
{
    m::pool<size, 2> p, q;
    char* a = static_cast<char*>(p.alloc());
    char* b = static_cast<char*>(q.alloc());
    OBL_REQUIRE(within(p, a, size) && within(q, b, size) && p.available_blocks() == 1 && q.available_blocks() == 1);
    for(unsigned n = 0; n < size; n++) a[n] = c;
    q.free(b);
    OBL_REQUIRE(q.available_blocks() == 2 && p.available_blocks() == 1 && a[0] == c && a[size - 1] == c);
    OBL_END;
}
}
OBL_INSTANCES(all_taken, (void*)&oblt::all_taken<8, 1>, (void*)&oblt::all_taken<8, 3>, (void*)&oblt::all_taken<64, 4>, (void*)&oblt::all_taken<9, 2>, (void*)&oblt::all_taken<3, 3>, (void*)&oblt::all_taken<1, 2>, (void*)&oblt::all_taken<2, 5>, (void*)&oblt::all_taken<7, 4>, (void*)&oblt::all_taken<15, 3>)
OBL_INSTANCES(contents_kept, (void*)&oblt::contents_kept<8, 3, 0>, (void*)&oblt::contents_kept<8, 3, 1>, (void*)&oblt::contents_kept<8, 3, 2>, (void*)&oblt::contents_kept<64, 2, 0>, (void*)&oblt::contents_kept<64, 2, 1>,
    (void*)&oblt::contents_kept<9, 3, 1>, (void*)&oblt::contents_kept<1, 2, 0>, (void*)&oblt::contents_kept<20, 4, 2>)
#define ORDERS(s) (void*)&oblt::given_back<s, 0, 1, 2>, (void*)&oblt::given_back<s, 0, 2, 1>, (void*)&oblt::given_back<s, 1, 0, 2>, (void*)&oblt::given_back<s, 1, 2, 0>, (void*)&oblt::given_back<s, 2, 0, 1>, (void*)&oblt::given_back<s, 2, 1, 0>
OBL_INSTANCES(given_back, ORDERS(8), ORDERS(24), ORDERS(5), ORDERS(1))
OBL_INSTANCES(handles, (void*)&oblt::handles<8, 4>, (void*)&oblt::handles<13, 3>, (void*)&oblt::handles<64, 2>, (void*)&oblt::handles<1, 1>, (void*)&oblt::handles<1, 4>, (void*)&oblt::handles<3, 3>, (void*)&oblt::handles<7, 2>, (void*)&oblt::handles<12, 4>)
OBL_INSTANCES(separate, (void*)&oblt::separate<8>, (void*)&oblt::separate<30>, (void*)&oblt::separate<1>)

// ---- pools of objects: made in place from the arguments, ended once
typedef obl::tracked<0> T;
OBL(typed_pool, int a, int b, int c)
{
    T::live = T::copies = T::moves = 0;
    m::typed_pool<T, 2> p;
    OBL_REQUIRE(T::live == 0 && p.available_blocks() == 2);
    T* x = p.emplace(a);
    T* y = p.emplace(b);
    OBL_REQUIRE(x && y && x != y && x->v == a && y->v == b && T::live == 2 && T::copies == 0 && T::moves == 0);
    OBL_REQUIRE(p.emplace(c) == nullptr && T::live == 2 && p.full());
    p.erase(x);
    OBL_REQUIRE(T::live == 1 && p.available_blocks() == 1 && y->v == b);
    T* z = p.emplace(c);
    OBL_REQUIRE(z == x && z->v == c && y->v == b && T::live == 2 && p.full());
    p.erase(y);
    p.erase(z);
    OBL_REQUIRE(T::live == 0 && p.available_blocks() == 2);
    OBL_END;
}
OBL(typed_pool_handles, int a, int b)
{
    m::typed_pool<T, 2> p;
    T* x = p.emplace(a);
    T* y = p.emplace(b);
    OBL_REQUIRE(p.from_handle(p.to_handle(x)) == x && p.from_handle(p.to_handle(y)) == y && p.to_handle(x) != p.to_handle(y));
    OBL_REQUIRE(p.from_handle(p.to_handle(y))->v == b);
    p.erase(x);
    p.erase(y);
    OBL_END;
}
struct three { int a; const int& r; I b; three(int a, int& r, I&& b) : a(a), r(r), b(b) { b = 0; } };
OBL(typed_pool_arguments, int a, int r, I b)
{
    m::typed_pool<three, 3> p;
    const I was = b;
    three* t = p.emplace(a, r, std::move(b));
    OBL_REQUIRE(t && t->a == a && &t->r == &r && t->b == was && b == 0);
    OBL_END;
}
