// std: 17
// thorough: 20
// min: 1
// flags: -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr.h"
#include <estd/locale.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/ios.h>
#include "obl.h"
namespace oblt {
typedef estd::numpunct<wchar_t, estd::internal::classic_locale_type> W;
typedef estd::ctype<wchar_t, estd::internal::classic_locale_type> CW;
void wide(char c)
{
    OBL_ASSUME(c >= 0);
    OBL_REQUIRE(CW::widen(c) == (wchar_t)c);
    OBL_REQUIRE(W::thousands_sep() == L',' && W::decimal_point() == L'.');
    OBL_END;
}
}
OBL_INSTANCES(t, (void*)&oblt::wide)
