// Real garbage collection (libgc): must come before any other header.  All
// memory of the harness is made a root, so that whatever immer keeps reachable
// only through memory that it declared free of references gets collected.
#pragma once
#ifndef VT_GC
#define VT_GC 0
#endif
#if VT_GC
#define GC_THREADS
#include <gc/gc.h>
#define IMMER_HAS_LIBGC 1
#include <cstdlib>
#include <cstring>
#include <immer/heap/gc_heap.hpp>
#include <immer/memory_policy.hpp>
#include <new>
void* operator new(std::size_t n)
{
    auto p = GC_malloc_uncollectable(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void operator delete(void* p) noexcept { GC_free(p); }
void operator delete(void* p, std::size_t) noexcept { GC_free(p); }

namespace vt {
// collects now and then, in the middle of operations too
struct pulsed_gc_heap : immer::gc_heap
{
    static unsigned& every()
    {
        static unsigned e = 40; // mean allocations between collections
        return e;
    }
    static void pulse()
    {
        static unsigned long long s = 88172645463325252ull;
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        if (s % every() == 0)
            GC_gcollect();
    }
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags... t)
    {
        pulse();
        return immer::gc_heap::allocate(n, t...);
    }
    template <typename... Tags>
    static void deallocate(std::size_t n, void* p, Tags... t)
    {
        std::memset(p, 0xdd, n);
        immer::gc_heap::deallocate(n, p, t...);
    }
};
using mp_libgc = immer::memory_policy<immer::heap_policy<pulsed_gc_heap>, immer::no_refcount_policy, immer::default_lock_policy,
                                      immer::gc_transience_policy, false>;
using mp_libgc_emb = immer::memory_policy<immer::heap_policy<pulsed_gc_heap>, immer::no_refcount_policy, immer::default_lock_policy,
                                          immer::gc_transience_policy, true>;
} // namespace vt
#define VT_GC_INIT() do { GC_INIT(); GC_allow_register_threads(); } while (0)
#else
#define VT_GC_INIT() ((void) 0)
#endif
