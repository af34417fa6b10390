// Vectors made of a list of elements or over given memory, and their elements by position.
// std: 17
// thorough: 20
// min: 13
// peel: 4
// rounds: 8
// allow: abort
#include <stdlib.h>
#include <estd/vector.h>
#include "obl.h"
typedef long long T;
#define ARG T a, T b, T c, T d
namespace oblt {
template <class V> static inline void shows(V& v, const T* x, int n)
{
    const V& k = v;
    OBL_REQUIRE((int)k.size() == n && k.empty() == (n == 0));
    for(int i = 0; i < n; i++) OBL_REQUIRE(k.data()[i] == x[i] && v.data()[i] == x[i] && k[i] == x[i] && (T)v[i] == x[i]);
    int i = 0;
    for(auto e : k) { OBL_REQUIRE(i < n && e == x[i]); i++; }
    OBL_REQUIRE(i == n);
    if(n) OBL_REQUIRE(k.front() == x[0] && k.back() == x[n - 1]);
}
// listed elements, in order; room beside and behind stays as it is
void listed(ARG, T g)
{
    const T x[] = {a, b, c, d};
    struct { T before; estd::layer1::vector<T, 6> v; T behind; } m{g, {a, b, c}, ~g};
    shows(m.v, x, 3);
    OBL_REQUIRE(m.v.capacity() == 6 && m.before == g && m.behind == ~g);
    const auto& k = m.v;
    OBL_REQUIRE(&k.at(0) == k.data() && &k.at(2) == k.data() + 2 && &m.v.at(1) == k.data() + 1);
    m.v.push_back(d);
    shows(m.v, x, 4);
    m.v.at(1) = d;
    OBL_REQUIRE(k[1] == d && k[0] == a && k[2] == c);
    OBL_END;
}
template <int n> void exactly(ARG)
{
    const T x[] = {a, b, c, d};
    estd::layer1::vector<T, 1> one{a};
    estd::layer1::vector<T, 4> four{a, b, c, d};
    estd::layer1::vector<T, 4> none(std::initializer_list<T>{});
    shows(one, x, 1); shows(four, x, 4); shows(none, x, 0);
    OBL_END;
}
// more of them than there is room for
template <int n> void too_many(ARG, bool go)
{
    if(go)
    {
        if(n == 1) { estd::layer1::vector<T, 1> v{a, b}; OBL_REQUIRE(v.size() == 99); }
        else if(n == 2) { estd::layer1::vector<T, 2> v{a, b, c}; OBL_REQUIRE(v.size() == 99); }
        else { estd::layer1::vector<T, 3> v{a, b, c, d}; OBL_REQUIRE(v.size() == 99); }
        OBL_NEVER();
    }
    OBL_END;
}
// over memory which holds elements already, or is to
template <int n> void over_known(ARG, T g)
{
    const T x[] = {a, b, c, d};
    struct { T before; T at[4]; T behind; } m{g, {a, b, c, d}, ~g};
    estd::layer2::vector<T, 4> v(m.at, n);
    OBL_REQUIRE(v.data() == m.at && v.capacity() == 4);
    shows(v, x, n);
    if(n < 4) { v.push_back(g); OBL_REQUIRE(m.at[n] == g && (int)v.size() == n + 1); }
    for(int i = 0; i < n; i++) OBL_REQUIRE(m.at[i] == x[i]);
    OBL_REQUIRE(m.before == g && m.behind == ~g);
    OBL_END;
}
template <int n> void over_counted(ARG, T g)
{
    const T x[] = {a, b, c, d};
    struct { T before; T at[4]; T behind; } m{g, {g, g, g, g}, ~g};
    estd::layer3::vector<T> v(m.at, 4), w(m.at);
    OBL_REQUIRE(v.data() == m.at && v.capacity() == 4 && w.data() == m.at && w.capacity() == 4);
    shows(v, x, 0); shows(w, x, 0);
    for(int i = 0; i < n; i++) v.push_back(x[i]);
    shows(v, x, n);
    for(int i = 0; i < 4; i++) OBL_REQUIRE(m.at[i] == (i < n ? x[i] : g));
    OBL_REQUIRE(m.before == g && m.behind == ~g && w.size() == 0);
    OBL_END;
}
}
OBL_INSTANCES(listed, (void*)&oblt::listed, (void*)&oblt::exactly<0>)
OBL_INSTANCES(too_many, (void*)&oblt::too_many<1>, (void*)&oblt::too_many<2>, (void*)&oblt::too_many<3>)
OBL_INSTANCES(over_known, (void*)&oblt::over_known<0>, (void*)&oblt::over_known<1>, (void*)&oblt::over_known<3>, (void*)&oblt::over_known<4>)
OBL_INSTANCES(over_counted, (void*)&oblt::over_counted<0>, (void*)&oblt::over_counted<1>, (void*)&oblt::over_counted<3>, (void*)&oblt::over_counted<4>)
