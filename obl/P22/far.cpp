// std: 17
// min: 3
// peel: 300
// More than 256 blocks, and blocks of more than 256 octets.
#include <estd/cstdint.h>
#include <estd/utility.h>
#include <estd/internal/memory/pool.h>
#include <new>
#include "obl.h"
namespace m = estd::internal::memory;
typedef m::pool<8, 270> Many;
OBL_STATIC(many, Many::max_blocks() == 270 && m::pool<300, 2>::block_size() == 300 && m::pool<70000, 2>::block_size() == 70000 && m::pool<1, 70000>::max_blocks() == 70000);
OBL_STATIC(room, sizeof(m::pool<300, 3>) >= 900 && sizeof(Many) >= 270 * 8);
namespace oblt {
template <int op> void far_pool(int v)
{
    Many p;
    OBL_REQUIRE(!p.full());
    if(op == 0) OBL_REQUIRE(p.available_blocks() == 270);
    if(op == 1)
    {
        char* last = nullptr;
        for(int i = 0; i < 270; ++i)
        {
            char* b = static_cast<char*>(p.alloc());
            OBL_REQUIRE(b != nullptr && b >= reinterpret_cast<char*>(&p) && b + 8 <= reinterpret_cast<char*>(&p + 1));
            if(last) OBL_REQUIRE(b >= last + 8 || b + 8 <= last);
            last = b;
        }
        OBL_REQUIRE(p.full() && p.alloc() == nullptr && p.available_blocks() == 0);
        p.free(last);
        OBL_REQUIRE(p.alloc() == last && p.full());
    }
    if(op == 2)
    {
        m::pool<300, 3> q;
        char* a = static_cast<char*>(q.alloc()), *b = static_cast<char*>(q.alloc()), *c = static_cast<char*>(q.alloc());
        OBL_REQUIRE(a && b && c && (a + 300 <= b || b + 300 <= a) && (a + 300 <= c || c + 300 <= a) && (b + 300 <= c || c + 300 <= b) && !q.alloc());
    }
    OBL_END;
}
}
#define F(n) (void*)&oblt::far_pool<n>
OBL_INSTANCES(far_pool, F(0), F(1), F(2))
