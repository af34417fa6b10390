// std: 17
// thorough: 20
// min: 2
// Optionals out of other optionals.
#include <estd/optional.h>
#include "obl.h"
namespace oblt {
void from_other(int v, bool some)
{
    estd::optional<int> a;
    if(some) a = v;
    estd::optional<long> b(static_cast<estd::optional<int>&&>(a));
    OBL_REQUIRE(b.has_value() == some && (!some || *b == v));
    OBL_END;
}
void from_other_value(int v, bool some)
{
    estd::optional<int> a;
    if(some) a = v;
    const auto& k = a;
    estd::optional<long> b(k);
    OBL_REQUIRE(b.has_value() == some && (!some || *b == v) && a.has_value() == some);
    OBL_END;
}
}
OBL_INSTANCES(t, (void*)&oblt::from_other, (void*)&oblt::from_other_value)
