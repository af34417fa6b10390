// std: 17
// thorough: 20
// min: 2
// Enumerations as classes, exchanged octets of signed values, limits of bool.
#include <estd/cstdint.h>
#include <estd/bit.h>
#include <estd/limits.h>
#include <estd/internal/enum.h>
#include "obl.h"
struct colours { enum values { red = 1, green = 5, blue = 200 }; };
typedef estd::internal::enum_class<colours> Colour;
namespace oblt {
void enums(int n)
{
    const Colour g(colours::green), m(n);
    Colour c(n);
    OBL_REQUIRE(g == colours::green && !(g == colours::red) && g != colours::red && !(g != colours::green));
    OBL_REQUIRE(static_cast<int>(g) == 5);
    c = colours::blue;
    OBL_REQUIRE(c == colours::blue && static_cast<int>(c) == 200 && g == 5);
    OBL_END;
}
void octets(short s, int i)
{
    const short t = estd::byteswap(s);
    const int j = estd::byteswap(i);
    OBL_REQUIRE((unsigned short)t == (unsigned short)(((unsigned short)s << 8) | ((unsigned short)s >> 8)));
    OBL_REQUIRE((unsigned)j == (((unsigned)i >> 24) | (((unsigned)i >> 8) & 0xFF00u) | (((unsigned)i << 8) & 0xFF0000u) | ((unsigned)i << 24)));
    OBL_REQUIRE(estd::byteswap(t) == s && estd::byteswap(j) == i);
    OBL_END;
}
}
OBL_STATIC(bool_limits, estd::numeric_limits<bool>::min() == false && estd::numeric_limits<bool>::max() == true);
OBL_INSTANCES(t, (void*)&oblt::enums, (void*)&oblt::octets)
