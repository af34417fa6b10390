// Obligation vocabulary. An obligation is an `extern "C" void obl_<name>(...)` whose parameters are
// unknown to the compiler. It drives the library and states facts with OBL_REQUIRE. The file is
// compiled (never run); the analysis decides each fact from the optimised IR: a fact is discharged
// when the data-flow passes prove its failure branch dead for all parameter values.
#pragma once

// One external symbol per stated fact, so that calls are never merged and a surviving call names the
// fact by its line (violated: obligation file, hviolated: this header, never: code not to be reached,
// which is declared as returning because the inliner skips calls whose continuation is unreachable).
namespace obl {
template <int line> __attribute__((noreturn, cold, nothrow)) void violated();
template <int line> __attribute__((noreturn, cold, nothrow)) void hviolated();
template <int line> __attribute__((cold, nothrow)) void never();
template <int line> __attribute__((nothrow)) void reached();
}

#define OBL_REQUIRE(...) do { if(!(__VA_ARGS__)) ::obl::violated<__LINE__>(); } while(0)
#define OBL_NEVER() ::obl::never<__LINE__>()
#define OBL_HREQUIRE(...) do { if(!(__VA_ARGS__)) ::obl::hviolated<__LINE__>(); } while(0)

// Restriction of the quantified inputs
#define OBL_ASSUME(...) do { if(!(__VA_ARGS__)) return; } while(0)

// An obligation: unknown parameters, ends in OBL_END.
#define OBL(name, ...) extern "C" void obl_##name(__VA_ARGS__)
// Function templates of namespace oblt are obligations too, one per instance. OBL_INSTANCES(id, f<1>, f<2>...) makes them.
#define OBL_INSTANCES(id, ...) extern "C" { __attribute__((used)) void* const instances_##id[] = {__VA_ARGS__}; }
// Non-vacuity marker: must survive, i.e. the end of the obligation must stay reachable.
#define OBL_END ::obl::reached<__LINE__>()

// type-level fact: fails to build, with the tag the checker looks for
#define OBL_STATIC(name, ...) static_assert((__VA_ARGS__), "OBL_STATIC " #name ": " #__VA_ARGS__)

#include <stddef.h>
#include <stdint.h>

namespace obl {

// operations of a history
template <int...> struct seq {};

// Object whose lifetime operations are checked as a typestate (raw -> alive -> dead).
// `live` is the number of objects of this tag alive now.
enum : unsigned { ALIVE = 0x51A71E5Du, DEAD = 0xDEADBEA7u };

template <int tag = 0>
struct tracked
{
    unsigned state;
    int v;
    static int live;
    static int copies, moves;

    tracked() noexcept : state(ALIVE), v(0) { ++live; }
    tracked(int v) noexcept : state(ALIVE), v(v) { ++live; }
    tracked(int a, int b) noexcept : state(ALIVE), v(a ^ b) { ++live; }
    // evaluated before this object's own state is written: source may be this very storage
    unsigned from_copy(const tracked& o) noexcept
    {
        OBL_HREQUIRE(o.state == ALIVE);   // copy-constructed from an object that is not alive
        return ALIVE;
    }
    unsigned from_move(const tracked& o) noexcept
    {
        OBL_HREQUIRE(o.state == ALIVE);   // move-constructed from an object that is not alive
        return ALIVE;
    }
    tracked(const tracked& o) noexcept : state(from_copy(o)), v(o.v)
    {
        ++live; ++copies;
    }
    tracked(tracked&& o) noexcept : state(from_move(o)), v(o.v)
    {
        o.v = -1;
        ++live; ++moves;
    }
    tracked& operator=(const tracked& o) noexcept
    {
        OBL_HREQUIRE(state == ALIVE);     // assigned to an object that is not alive
        OBL_HREQUIRE(o.state == ALIVE);   // assigned from an object that is not alive
        v = o.v; ++copies;
        return *this;
    }
    tracked& operator=(tracked&& o) noexcept
    {
        OBL_HREQUIRE(state == ALIVE);     // move-assigned to an object that is not alive
        OBL_HREQUIRE(o.state == ALIVE);   // move-assigned from an object that is not alive
        v = o.v; if(&o != this) o.v = -1; ++moves;
        return *this;
    }
    ~tracked()
    {
        OBL_HREQUIRE(state == ALIVE);     // destroyed an object that is not alive (double or missing construction)
        state = DEAD;
        --live;
    }
    bool operator==(const tracked& o) const { return v == o.v; }
    bool operator!=(const tracked& o) const { return v != o.v; }
    bool operator<(const tracked& o) const { return v < o.v; }
};
template <int tag> int tracked<tag>::live;
template <int tag> int tracked<tag>::copies;
template <int tag> int tracked<tag>::moves;

}
