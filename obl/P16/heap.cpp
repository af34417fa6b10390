// std: 17
// thorough: 20
// min: 3
// peel: 2
// rounds: 4
// allow: new delete
#include <estd/functional.h>
#include "obl.h"

typedef obl::tracked<0> T;
#define START() const int t0 = T::live; T::copies = T::moves = 0; OBL_ASSUME(t0 >= 0 && t0 < 1000)
#define ENDED() OBL_REQUIRE(T::live == t0)
// ---- functions which own their callable on the heap: it lives from construction to the end of the last owner
typedef estd::experimental::function<int(int)> H;
OBL(heap_function, int a, int b)
{
    START();
    {
        T t(a);
        H f([t](int x) { return t.v ^ x; });
        OBL_REQUIRE(bool(f) && T::live == t0 + 2);
        OBL_REQUIRE(f(b) == (a ^ b) && T::live == t0 + 2);
    }
    ENDED();
    OBL_END;
}
OBL(heap_function_moved, int a, int b)
{
    START();
    {
        T t(a);
        H f([t](int x) { return t.v ^ x; });
        H g(std::move(f));
        OBL_REQUIRE(!bool(f) && bool(g) && T::live == t0 + 2);
        OBL_REQUIRE(g(b) == (a ^ b));
    }
    ENDED();
    OBL_END;
}
OBL(heap_function_assigned, int a, int b, int c)
{
    START();
    {
        T t(a), u(b);
        H f([t](int x) { return t.v ^ x; });
        OBL_REQUIRE(T::live == t0 + 3);
        f = [u](int x) { return u.v ^ ~x; };
        OBL_REQUIRE(bool(f) && T::live == t0 + 3);
        OBL_REQUIRE(f(c) == (b ^ ~c));
        H g([t](int x) { return t.v ^ x; });
        OBL_REQUIRE(T::live == t0 + 4);
        g = std::move(f);
        OBL_REQUIRE(T::live == t0 + 3 && !bool(f) && g(c) == (b ^ ~c));
    }
    ENDED();
    OBL_END;
}
