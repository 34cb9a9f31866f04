// Monitored heaps and memory policies.
#pragma once
#include "core.hpp"
#include "tracked.hpp"
#include <immer/config.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/tags.hpp>
#include <immer/memory_policy.hpp>
#if VT_VALGRIND
#include <valgrind/memcheck.h>
#define VT_UNDEFINED(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#else
#define VT_UNDEFINED(p, n) (void) 0
#endif

#if defined(__SANITIZE_ADDRESS__)
#define VT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#endif
#endif
#if VT_ASAN
#include <sanitizer/asan_interface.h>
#define VT_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define VT_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define VT_POISON(p, n) (void) 0
#define VT_UNPOISON(p, n) (void) 0
#endif

namespace vt {

struct heap_stats
{
    std::atomic<i64> live_blocks{0}, live_bytes{0};
    std::atomic<u64> allocs{0}, frees{0}, bytes{0};
};

// Tag distinguishes independent heaps.  Header before every block: size,
// magic; a canary after it.
template <int Tag = 0>
struct mon_heap
{
    struct alignas(16) header
    {
        u64 magic;
        u64 size;
    };
    static constexpr u64 LIVE = 0x11fe11fe00110011ull, GONE = 0x90e90e90e90e90e9ull, CANARY = 0xca9a9ca9a9ca9a11ull;
    static heap_stats& st()
    {
        static heap_stats s;
        return s;
    }
    template <typename... Tags>
    static void* allocate(std::size_t size, Tags...)
    {
        fault().point_alloc();
        chaos();
        auto raw = static_cast<char*>(std::malloc(sizeof(header) + size + 8));
        auto h   = reinterpret_cast<header*>(raw);
        h->magic = LIVE + Tag;
        h->size  = size;
        auto p   = raw + sizeof(header);
        std::memset(p, 0xcd, size);
        VT_UNDEFINED(p, size);
        std::memcpy(p + size, &CANARY, 8);
        VT_POISON(raw, sizeof(header));
        VT_POISON(p + size, 8);
        auto& s = st();
        s.live_blocks.fetch_add(1, std::memory_order_relaxed);
        s.live_bytes.fetch_add(size, std::memory_order_relaxed);
        s.allocs.fetch_add(1, std::memory_order_relaxed);
        s.bytes.fetch_add(size, std::memory_order_relaxed);
        return p;
    }
    template <typename... Tags>
    static void deallocate(std::size_t size, void* data, Tags...)
    {
        chaos();
        auto p   = static_cast<char*>(data);
        auto raw = p - sizeof(header);
        VT_UNPOISON(raw, sizeof(header));
        auto h = reinterpret_cast<header*>(raw);
        if (h->magic == GONE + Tag)
            fail("double-free", "block %p released twice", data);
        if (h->magic != LIVE + Tag)
            fail("foreign-free", "block %p was not allocated by this heap", data);
        if (h->size != size)
            fail("size-mismatch", "block of %zu bytes released as %zu bytes", (std::size_t) h->size, size);
        VT_UNPOISON(p + h->size, 8);
        if (std::memcmp(p + h->size, &CANARY, 8) != 0)
            fail("overrun", "bytes after a block of %zu bytes were overwritten", size);
        h->magic = GONE + Tag;
        std::memset(p, 0xdd, size);
        auto& s = st();
        s.live_blocks.fetch_sub(1, std::memory_order_relaxed);
        s.live_bytes.fetch_sub(size, std::memory_order_relaxed);
        s.frees.fetch_add(1, std::memory_order_relaxed);
        std::free(raw);
    }
};

// A heap for the uncounted policies: it never gets blocks back, so every
// released block can be poisoned for good, and everything is dropped at once
// between cases.
template <int Tag = 0>
struct arena_heap
{
    static std::vector<std::pair<char*, std::size_t>>& blocks()
    {
        thread_local std::vector<std::pair<char*, std::size_t>> b;
        return b;
    }
    // bytes that the case holds by now
    static std::size_t& held()
    {
        thread_local std::size_t n = 0;
        return n;
    }
    static heap_stats& st()
    {
        static heap_stats s;
        return s;
    }
    template <typename... Tags>
    static void* allocate(std::size_t size, Tags...)
    {
        fault().point_alloc();
        auto raw = static_cast<char*>(std::malloc(size));
        held() += size + 32;
        std::memset(raw, 0xcd, size);
        VT_UNDEFINED(raw, size);
        blocks().push_back({raw, size});
        st().allocs.fetch_add(1, std::memory_order_relaxed);
        st().bytes.fetch_add(size, std::memory_order_relaxed);
        chaos();
        return raw;
    }
    template <typename... Tags>
    static void deallocate(std::size_t, void*, Tags...)
    {}
    // what was allocated so far stays (shared empty nodes)
    static void pin() { blocks().clear(); }
    static void drop_all()
    {
        for (auto& b : blocks())
            std::free(b.first);
        blocks().clear();
        held() = 0;
    }
    // a case that is not released until it ends should end
    static bool much() { return held() > (std::size_t{400} << 20); }
};

// -------------------------------------------------------------- policies

template <int Tag = 0>
using mon_heap_policy = immer::heap_policy<mon_heap<Tag>>;

// size tables in separate blocks
using mp_mon = immer::memory_policy<mon_heap_policy<>, immer::refcount_policy, immer::spinlock_policy,
                                    immer::no_transience_policy, false, true>;
// size tables embedded
using mp_emb = immer::memory_policy<mon_heap_policy<>, immer::refcount_policy, immer::spinlock_policy,
                                    immer::no_transience_policy, true, true>;
// free lists over the monitored heap
using mp_fl = immer::memory_policy<immer::free_list_heap_policy<mon_heap<>>, immer::refcount_policy, immer::spinlock_policy>;
using mp_ufl = immer::memory_policy<immer::unsafe_free_list_heap_policy<mon_heap<>>, immer::unsafe_refcount_policy, immer::no_lock_policy>;
// atomic counts with delays around every change
struct chaos_refcount : immer::refcount_policy
{
    using base = immer::refcount_policy;
    chaos_refcount() {}
    chaos_refcount(immer::disowned d)
        : base{d}
    {}
    void inc()
    {
        chaos();
        base::inc();
        chaos();
    }
    bool dec()
    {
        chaos();
        auto r = base::dec();
        chaos();
        return r;
    }
    bool unique()
    {
        auto r = base::unique();
        chaos();
        return r;
    }
};
using mp_chaos = immer::memory_policy<mon_heap_policy<>, chaos_refcount, immer::spinlock_policy,
                                      immer::no_transience_policy, false, true>;
using mp_chaos_emb = immer::memory_policy<mon_heap_policy<>, chaos_refcount, immer::spinlock_policy,
                                          immer::no_transience_policy, true, true>;
using mp_chaos_fl = immer::memory_policy<immer::free_list_heap_policy<mon_heap<>, 8>, chaos_refcount, immer::spinlock_policy>;
// plain counts, no in-place operations on r-values
using mp_norv = immer::memory_policy<mon_heap_policy<>, immer::unsafe_refcount_policy, immer::no_lock_policy,
                                     immer::no_transience_policy, false, false>;
// no counts, ownership tokens
using mp_gc = immer::memory_policy<immer::heap_policy<arena_heap<>>, immer::no_refcount_policy, immer::default_lock_policy,
                                   immer::gc_transience_policy, false>;
using mp_gc_emb = immer::memory_policy<immer::heap_policy<arena_heap<>>, immer::no_refcount_policy, immer::default_lock_policy,
                                       immer::gc_transience_policy, true>;
// no counts, no ownership
using mp_leak = immer::memory_policy<immer::heap_policy<arena_heap<>>, immer::no_refcount_policy, immer::default_lock_policy,
                                     immer::no_transience_policy, false>;
using mp_def = immer::default_memory_policy;

template <typename MP>
struct is_counted : std::integral_constant<bool, !std::is_same<typename MP::refcount, immer::no_refcount_policy>::value>
{};

template <typename MP>
struct uses_mon_heap_directly : std::is_same<typename MP::heap, mon_heap_policy<>>
{};

inline i64& block_baseline()
{
    static i64 b = 0;
    return b;
}

// After a warm up that touched every container type: the shared empty nodes
// and other statics are the base line.
template <typename MP>
inline void warmed_up()
{
    arena_heap<>::pin();
    block_baseline() = mon_heap<>::st().live_blocks;
    life().live      = 0;
}

// everything released?
template <typename MP>
inline void expect_quiescent(const char* when)
{
    if (is_counted<MP>::value) {
        auto l = life().live.load();
        if (l != 0)
            fail("element-leak", "%lld elements alive %s", (long long) l, when);
        if (uses_mon_heap_directly<MP>::value) {
            auto b = mon_heap<>::st().live_blocks.load() - block_baseline();
            if (b != 0)
                fail("block-leak", "%lld blocks live %s", (long long) b, when);
        }
        stats().add("quiescent_points");
    }
    arena_heap<>::drop_all();
    if (!is_counted<MP>::value)
        life().live = 0;
}

} // namespace vt
