// std: 17
// thorough: 20
// min: 2
#include <estd/chrono.h>
#include "obl.h"
namespace oblt {
void whole(int n)
{
    typedef estd::chrono::duration<int, estd::milli> ms;
    const estd::chrono::hh_mm_ss<ms> h{ms{n}};
    OBL_REQUIRE(h.to_duration().count() == n && h.operator ms().count() == n && h.is_negative() == (n < 0));
    OBL_END;
}
void size_of(unsigned n)
{
    typedef estd::chrono::duration<unsigned, estd::milli> ms;
    OBL_REQUIRE(estd::chrono::abs(ms{n}).count() == n);
    OBL_REQUIRE(!estd::chrono::hh_mm_ss<ms>{ms{n}}.is_negative());
    OBL_END;
}
}
OBL_INSTANCES(t, (void*)&oblt::whole, (void*)&oblt::size_of)
