#pragma once
// An allocator whose blocks relocate whenever they grow, and which may only be looked at while locked.
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/vector.h>

struct count { int depth = 0, moves = 0, freed = 0; bool broken = false; };
// strict: an unlock of what is not locked counts as well, and what moves has another handle then;
// not strict: the handle stays, and accessors (which iterators are made of) lock just while they look, so that iterators which
//   unlock when they go do not count
// sized: the allocator can be asked how much a handle stands for
template <bool> struct sized_tag { };
template <> struct sized_tag<true> { typedef void has_size_tag; };
template <class T, size_t N, bool strict = true, bool sized = true> struct moving : sized_tag<sized>
{
    typedef T value_type;
    typedef T& reference;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef const void* const_void_pointer;
    typedef uint16_t size_type;
    typedef int16_t difference_type;
    typedef uint8_t handle_type;
    typedef estd::internal::handle_with_offset<handle_type, size_type> handle_with_offset;
    typedef void is_locking_tag;
    typedef void is_stateful_tag;
    struct accessor : estd::internal::accessor<moving>
    {
        typedef estd::internal::accessor<moving> base;
        using estd::internal::accessor<moving>::accessor;
        accessor(const accessor&) = default;
        accessor& operator=(const T& v) { base::operator=(v); return *this; }
        accessor& operator=(const accessor& o) { base::operator=(static_cast<const base&>(o)); return *this; }
        typedef T& locked_type;
        typedef const T& const_locked_type;
        T& lock() { T& r = base::lock(); if(!strict) base::unlock(); return r; }
        const T& clock() const { const T& r = base::clock(); if(!strict) base::cunlock(); return r; }
        void unlock() { if(strict) base::unlock(); }
        void cunlock() const { if(strict) base::cunlock(); }
    };
    using iterator = estd::internal::locking_iterator<moving, accessor>;

    T block[2][N] = {};
    size_type extent = 0;
    handle_type live = 2;
    uint8_t at = 0;     // the block in use
    mutable count n;

    static constexpr handle_type invalid() { return 2; }
    // an access which a real store would not survive
    void used(handle_type h, size_t pos) const { if(h != live || pos >= extent) n.broken = true; }
    T& lock(handle_type h, size_type pos = 0, size_type = 0) { used(h, pos); n.depth++; return block[at][pos]; }
    T& lock(const handle_with_offset& h, size_type pos = 0, size_type = 0) { return lock(h.handle(), size_type(h.offset() + pos)); }
    const T& clock(handle_type h, size_type pos = 0, size_type = 0) const { used(h, pos); n.depth++; return block[at][pos]; }
    const T& clock(const handle_with_offset& h, size_type pos = 0, size_type = 0) const { return clock(h.handle(), size_type(h.offset() + pos)); }
    void unlock(handle_type) { if(n.depth > 0) n.depth--; else n.broken = true; }
    void cunlock(handle_type) const { if(n.depth > 0) n.depth--; else n.broken = true; }
    handle_with_offset offset(handle_type h, size_type pos) const { return handle_with_offset(h, pos); }
    size_type size(handle_type h) const { return h == live && h < 2 ? extent : size_type(0); }
    size_type max_size() const { return N; }
    handle_type allocate(size_type size)
    {
        if(live != 2) n.broken = true;
        if(size > N) return 2;
        extent = size; at = 0;
        return live = 0;
    }
    handle_type reallocate(handle_type h, size_type size)
    {
        if(h != live || h >= 2 || n.depth > 0) { n.broken = true; return h; }
        if(size > N) return 2;      // there is no such room: all stays as it is
        const uint8_t to = at ^ 1;
        for(size_type i = 0; i < N; i++) { if(i < extent && i < size) block[to][i] = block[at][i]; block[at][i] = T(); }
        extent = size; n.moves++; at = to;
        // the strict one gives out another handle, the other one keeps it
        return strict ? live = to : h;
    }
    void deallocate(handle_type h, size_type) { free(h); }
    void free(handle_type h) { if(h != live || n.depth > 0) n.broken = true; n.freed++; live = 2; extent = 0; }
};

