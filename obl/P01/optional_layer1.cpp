// std: 17
// thorough: 14 20
// min: 8
// allow: throw
#include <estd/optional.h>
#include "obl.h"

typedef estd::layer1::optional<int, -1> L;      // -1 stands for "no value"
typedef estd::layer1::optional<int> L0;
typedef estd::layer1::optional<bool> B;

// no storage beyond the value itself
OBL_STATIC(layer1_size, sizeof(L) == sizeof(int) && sizeof(L0) == sizeof(int) && sizeof(B) == sizeof(bool));

OBL(l1_default, int) { L l; L0 m; B b; OBL_REQUIRE(!l.has_value() && !l); OBL_REQUIRE(!m.has_value() && !m); OBL_REQUIRE(!b.has_value() && !b); OBL_END; }
OBL(l1_nullopt, int) { L l(estd::nullopt); B b(estd::nullopt); OBL_REQUIRE(!l.has_value()); OBL_REQUIRE(!b.has_value()); OBL_END; }
OBL(l1_value, int a, int b)
{
    OBL_ASSUME(a != -1 && b != -1);
    { L l(a); OBL_REQUIRE(l.has_value() && bool(l) && *l == a && l.value() == a && l.value_or(b) == a); }
    { L l; l = a; OBL_REQUIRE(l.has_value() && *l == a); l = b; OBL_REQUIRE(l.has_value() && *l == b); }
    { L l(a); l.reset(); OBL_REQUIRE(!l.has_value()); OBL_REQUIRE(l.value_or(b) == b); }
    { L l(a); l = estd::nullopt; OBL_REQUIRE(!l.has_value()); l = b; OBL_REQUIRE(l.has_value() && *l == b); }
    { L x(a), y(x); OBL_REQUIRE(y.has_value() && *y == a); L z; z = x; OBL_REQUIRE(z.has_value() && *z == a && *x == a); L n; x = n; OBL_REQUIRE(!x.has_value()); }
    { L x; L y(x); OBL_REQUIRE(!y.has_value()); L z(a); z = x; OBL_REQUIRE(!z.has_value()); L w(std::move(y)); OBL_REQUIRE(!w.has_value()); }
    { L x(a); L z; z = std::move(x); OBL_REQUIRE(z.has_value() && *z == a); }
    OBL_END;
}
OBL(l1_from_optional, int a)
{
    OBL_ASSUME(a != -1);
    { estd::optional<int> o; L l(o); OBL_REQUIRE(!l.has_value()); estd::optional<int> p(l); OBL_REQUIRE(!p.has_value()); }
    { estd::optional<int> o(a); L l(o); OBL_REQUIRE(l.has_value() && *l == a); estd::optional<int> p(l); OBL_REQUIRE(p.has_value() && *p == a); }
    { estd::optional<int> o(a); L l; l = o; OBL_REQUIRE(l.has_value() && *l == a); o = l; OBL_REQUIRE(o.has_value() && *o == a); l = estd::nullopt; o = l; OBL_REQUIRE(!o.has_value()); }
    { L l; l = L0(); OBL_REQUIRE(!l.has_value()); if(a != 0) { l = L0(a); OBL_REQUIRE(l.has_value() && *l == a); } }
    OBL_END;
}
OBL(l1_any_value, int a) { L l(a); OBL_REQUIRE(l.has_value() == (a != -1)); L0 m(a); OBL_REQUIRE(m.has_value() == (a != 0)); OBL_END; }
OBL(l1_bool, bool a, bool b)
{
    { B x(a); OBL_REQUIRE(x.has_value() && *x == a && x.value() == a && x.value_or(b) == a); }
    { B x; x = a; OBL_REQUIRE(x.has_value() && *x == a); x = b; OBL_REQUIRE(x.has_value() && *x == b); x.reset(); OBL_REQUIRE(!x.has_value() && x.value_or(b) == b); }
    { B x(a); x = estd::nullopt; OBL_REQUIRE(!x); x = b; OBL_REQUIRE(x.has_value() && *x == b); }
    { B x(a), y(x), z; OBL_REQUIRE(y.has_value() && *y == a); z = x; OBL_REQUIRE(z.has_value() && *z == a); B n; z = n; OBL_REQUIRE(!z.has_value()); }
    OBL_END;
}
OBL(l1_empty_value_throws, int)
{
    L x; B b;
    try { (void)x.value(); OBL_NEVER(); } catch(const estd::bad_optional_access&) { }
    try { (void)b.value(); OBL_NEVER(); } catch(const estd::bad_optional_access&) { }
    OBL_END;
}
OBL(l1_compare, int a, int b)
{
    OBL_ASSUME(a != -1 && b != -1);
    L x(a), y(b), e;
    OBL_REQUIRE((x == y) == (a == b)); OBL_REQUIRE((x == b) == (a == b)); OBL_REQUIRE((x != b) == (a != b));
    OBL_REQUIRE(!(x == e) && !(e == x) && e == L()); OBL_REQUIRE(!(e == b) && e != b);
    OBL_END;
}
