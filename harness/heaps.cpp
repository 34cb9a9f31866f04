// Heaps and heap adaptors.   mode=single (P23), mode=threads (P24)
#include "../engine/core.hpp"
#include "../engine/heaps.hpp"
#include <cstddef>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/with_data.hpp>
#include <thread>
#if VT_GC
#define IMMER_HAS_LIBGC 1
#include <immer/heap/gc_heap.hpp>
#endif

using namespace vt;
static u64 g_eval = 0;

// ------------------------------------------------------- one thread (P23)

struct block
{
    char* p;
    std::size_t size;
    u64 seed;
};

static void fill(const block& b)
{
    for (std::size_t i = 0; i < b.size; ++i)
        b.p[i] = char(mix(b.seed + i / 7) >> 8);
}
static void check(const block& b, const char* when)
{
    for (std::size_t i = 0; i < b.size; ++i)
        if (b.p[i] != char(mix(b.seed + i / 7) >> 8))
            fail("heap-contents", "byte %zu of a live block of %zu bytes changed (%s)", i, b.size, when);
}

// Heap: the heap under test.  Parent: the monitored heap below, or void.
// [lo, hi]: sizes that may be asked for.  Limit: blocks that may be kept in
// every one of `Lists` lists.
template <typename Heap, typename Parent, std::size_t Lo, std::size_t Hi, std::size_t Limit, int Lists, bool Frees = true>
struct subject
{
    static i64 parent_live()
    {
        if constexpr (std::is_void<Parent>::value)
            return 0;
        else
            return Parent::st().live_blocks.load();
    }
    static u64 parent_allocs()
    {
        if constexpr (std::is_void<Parent>::value)
            return 0;
        else
            return Parent::st().allocs.load();
    }

    static void run(const char* name, rng& r)
    {
        std::map<char*, block> live;
        std::vector<char*> keys;
        auto base  = parent_live(); // cached by what ran before
        auto steps = 60 + r.below(200);
        auto bias  = 0u;
        u64 n_live_max = 0;
        if (base > i64(Limit * Lists))
            fail("heap-limit", "%s: %lld blocks are kept with none allocated, the limit is %zu", name, (long long) base, Limit * Lists);
        for (u64 s = 0; s < steps; ++s) {
            if (s % 25 == 0)
                bias = unsigned(r.below(5));
            note("%s live=%zu", name, live.size());
            ++status().op;
            bool alloc = live.empty() || r.below(5) < bias + (live.size() < 3);
            if (alloc) {
                auto span = Hi - Lo;
                auto size = Lo + (r.chance(1, 3) ? span : r.size(span));
                auto free0 = parent_live() - i64(live.size());
                auto al0   = parent_allocs();
                if (!std::is_void<Parent>::value && Frees && r.chance(1, 10)) {
                    // the parent fails
                    fault().arm(1);
                    void* p = nullptr;
                    try {
                        p = Heap::allocate(size);
                    } catch (const std::bad_alloc&) {
                    }
                    bool fired = fault().fired;
                    fault().disarm();
                    if (fired && p)
                        fail("heap-fault", "%s: allocation succeeds though its parent failed", name);
                    if (!p) {
                        if (parent_live() - i64(live.size()) != free0)
                            fail("heap-fault", "%s: a failed allocation lost a block", name);
                        stats().add("failed_allocations");
                        continue;
                    }
                    Heap::deallocate(size, p);
                    free0 = parent_live() - i64(live.size());
                    al0   = parent_allocs();
                }
                auto p = static_cast<char*>(Heap::allocate(size));
                if (!p)
                    fail("heap-null", "%s: allocate(%zu) gives null", name, size);
                if (reinterpret_cast<std::uintptr_t>(p) % alignof(std::max_align_t))
                    fail("heap-alignment", "%s: allocate(%zu) gives %p", name, size, (void*) p);
                auto after = live.upper_bound(p);
                if (after != live.end() && p + size > after->first)
                    fail("heap-overlap", "%s: a new block of %zu bytes overlaps a live one", name, size);
                if (after != live.begin()) {
                    auto before = std::prev(after);
                    if (before->first + before->second.size > p)
                        fail("heap-overlap", "%s: a new block of %zu bytes lies in a live one", name, size);
                }
                // one from the parent, or one of those kept
                if (!std::is_void<Parent>::value && Frees) {
                    auto got = parent_allocs() - al0;
                    if (got > 1)
                        fail("heap-parent", "%s: one allocation asked the parent for %llu blocks", name, (unsigned long long) got);
                    if (got == 0)
                        stats().add("served_from_cache");
                }
                block b{p, size, r.next()};
                fill(b);
                live[p] = b;
                keys.push_back(p);
                stats().see(mix(size * 31 + live.size()) ^ hash_bytes(name, std::strlen(name)));
            } else {
                auto i = r.below(keys.size());
                auto k = r.chance(1, 2) ? keys.size() - 1 : i;
                auto b = live[keys[k]];
                check(b, "before its release");
                live.erase(b.p);
                keys[k] = keys.back();
                keys.pop_back();
                Heap::deallocate(b.size, b.p);
            }
            n_live_max = std::max<u64>(n_live_max, live.size());
            if (!std::is_void<Parent>::value && Frees) {
                auto kept = parent_live() - i64(live.size());
                if (kept < 0 || kept > i64(Limit * Lists))
                    fail("heap-limit", "%s: %lld blocks are kept, the limit is %zu", name, (long long) kept, Limit * Lists);
                stats().max("blocks_kept", u64(kept));
            }
            if (r.chance(1, 20))
                for (auto& x : live)
                    check(x.second, "while others came and went");
            ++g_eval;
        }
        stats().max("live_blocks", n_live_max);
        // everything goes back
        for (auto k : keys) {
            auto b = live[k];
            check(b, "at the end");
            Heap::deallocate(b.size, b.p);
            live.erase(k);
            ++g_eval;
        }
        if (!std::is_void<Parent>::value && Frees) {
            auto kept = parent_live();
            if (kept > i64(Limit * Lists))
                fail("heap-limit", "%s: %lld blocks are kept at the end, the limit is %zu", name, (long long) kept, Limit * Lists);
            // what is kept is used again before the parent is asked
            if (Lo + 16 <= Hi || Lists > 0) {
                std::vector<char*> ps;
                for (i64 i = 0; i < kept; ++i) {
                    auto a0 = parent_allocs();
                    ps.push_back(static_cast<char*>(Heap::allocate(Lo)));
                    if (parent_allocs() != a0)
                        fail("heap-lost", "%s: of %lld blocks kept only %lld can be had again", name, (long long) kept, (long long) i);
                }
                for (auto p : ps)
                    Heap::deallocate(Lo, p);
            }
        }
        stats().sample(status().text);
    }
};

using imm_node = immer::free_list_node;
template <std::size_t S, std::size_t L, int Tag>
using ufl = immer::with_free_list_node<immer::unsafe_free_list_heap<S, L, mon_heap<Tag>>>;
template <std::size_t S, std::size_t L, int Tag>
using gfl = immer::with_free_list_node<immer::free_list_heap<S, L, mon_heap<Tag>>>;
template <std::size_t S, std::size_t L, int Tag>
using tfl = immer::with_free_list_node<immer::thread_local_free_list_heap<S, L, mon_heap<Tag>>>;

struct odd // three bytes of data in front would misalign; 16 are fine
{
    alignas(16) char x[16] = {1, 2, 3};
};

// user code allocating through the policy
template <typename HP>
struct node_t : immer::enable_optimized_heap_policy<node_t<HP>, HP>
{
    char bytes[40];
};
template <typename HP>
struct new_heap
{
    static void* allocate(std::size_t) { return node_t<HP>::operator new(sizeof(node_t<HP>)); }
    static void deallocate(std::size_t, void* p) { node_t<HP>::operator delete(p, sizeof(node_t<HP>)); }
};

static void single(rng& r, u64 i)
{
    using namespace immer;
    switch (i % 22) {
    case 0: subject<cpp_heap, void, 1, 5000, 0, 0>::run("cpp_heap", r); break;
    case 1: subject<malloc_heap, void, 1, 5000, 0, 0>::run("malloc_heap", r); break;
    case 2: subject<identity_heap<mon_heap<1>>, mon_heap<1>, 1, 300, 0, 0>::run("identity_heap", r); break;
    case 3: subject<debug_size_heap<mon_heap<2>>, mon_heap<2>, 1, 300, 0, 0>::run("debug_size_heap", r); break;
    case 4: subject<with_data<odd, mon_heap<3>>, mon_heap<3>, 1, 300, 0, 0>::run("with_data", r); break;
    case 5: subject<ufl<64, 5, 4>, mon_heap<4>, 1, 64, 5, 1>::run("unsafe_free_list_heap<64,5>", r); break;
    case 6: subject<ufl<24, 1, 5>, mon_heap<5>, 1, 24, 1, 1>::run("unsafe_free_list_heap<24,1>", r); break;
    case 7: subject<ufl<200, 40, 6>, mon_heap<6>, 1, 200, 40, 1>::run("unsafe_free_list_heap<200,40>", r); break;
    case 8: subject<gfl<64, 5, 7>, mon_heap<7>, 1, 64, 5, 1>::run("free_list_heap<64,5>", r); break;
    case 9: subject<gfl<48, 30, 8>, mon_heap<8>, 1, 48, 30, 1>::run("free_list_heap<48,30>", r); break;
    case 10: subject<tfl<64, 5, 9>, mon_heap<9>, 1, 64, 5, 1>::run("thread_local_free_list_heap<64,5>", r); break;
    case 11:
        subject<split_heap<64, ufl<64, 4, 10>, mon_heap<10>>, mon_heap<10>, 1, 200, 4, 1>::run("split_heap<64, unsafe free list, parent>", r);
        break;
    case 12:
        subject<split_heap<64, gfl<64, 6, 11>, debug_size_heap<mon_heap<11>>>, mon_heap<11>, 1, 200, 6, 1>::run("split_heap<64, free list, debug size>", r);
        break;
    case 13:
        subject<free_list_heap_policy<mon_heap<12>, 7>::optimized<72>::type, mon_heap<12>, 1, 300, 7, 2>::run("free_list_heap_policy<7>::optimized<72>", r);
        break;
    case 14:
        subject<free_list_heap_policy<mon_heap<13>, 3>::optimized<40>::type, mon_heap<13>, 1, 100, 3, 2>::run("free_list_heap_policy<3>::optimized<40>", r);
        break;
    case 15:
        subject<unsafe_free_list_heap_policy<mon_heap<14>, 6>::optimized<96>::type, mon_heap<14>, 1, 300, 6, 1>::run("unsafe_free_list_heap_policy<6>::optimized<96>", r);
        break;
    case 16: subject<free_list_heap_policy<mon_heap<15>>::type, mon_heap<15>, 1, 300, 0, 0>::run("free_list_heap_policy::type", r); break;
    case 17:
        // another size, another list
        subject<free_list_heap_policy<mon_heap<16>, 2>::optimized<33>::type, mon_heap<16>, 1, 33, 2, 2>::run("free_list_heap_policy<2>::optimized<33>", r);
        break;
    case 18: {
        // one list on top of another
        using inner = free_list_heap<32, 3, mon_heap<17>>;
        subject<with_free_list_node<unsafe_free_list_heap<32, 2, inner>>, mon_heap<17>, 1, 32, 5, 1>::run("unsafe free list over free list", r);
        break;
    }
    case 19:
        subject<new_heap<free_list_heap_policy<mon_heap<18>, 4>>, mon_heap<18>, 40, 40, 4, 2>::run("enable_optimized_heap_policy", r);
        break;
    case 20:
        subject<heap_policy<debug_size_heap<identity_heap<mon_heap<19>>>>::optimized<64>::type, mon_heap<19>, 1, 300, 0, 0>::run("heap_policy::optimized", r);
        break;
    case 21: {
#if VT_GC
        if (r.chance(1, 2))
            subject<gc_heap, void, 1, 2000, 0, 0>::run("gc_heap", r);
        else
#endif
        {
            // clear() returns all that is kept
            using H = unsafe_free_list_heap<64, 9, mon_heap<20>>;
            subject<with_free_list_node<H>, mon_heap<20>, 1, 64, 9, 1>::run("unsafe_free_list_heap::clear", r);
            H::clear();
            if (mon_heap<20>::st().live_blocks != 0)
                fail("heap-limit", "clear() leaves %lld blocks", (long long) mon_heap<20>::st().live_blocks.load());
            ++g_eval;
        }
        break;
    }
    }
}

// ---------------------------------------------------------- threads (P24)

constexpr int BOXES = 24;
struct parcel
{
    std::size_t size;
    u64 stamp;
};
static std::atomic<char*> g_box[BOXES];
static std::atomic<u64> g_ops{0}, g_hand{0}, g_ticket{0};

static void stamp(char* p, std::size_t size, u64 id)
{
    std::memcpy(p, &size, 8);
    std::memcpy(p + 8, &id, 8);
    for (std::size_t i = 16; i < size; ++i)
        p[i] = char(mix(id + i));
}
static std::size_t unstamp(char* p, u64 want, const char* when)
{
    std::size_t size;
    u64 id;
    std::memcpy(&size, p, 8);
    std::memcpy(&id, p + 8, 8);
    if (want && id != want)
        fail("two-owners", "a block owned as %llx holds the stamp %llx (%s)", (unsigned long long) want, (unsigned long long) id, when);
    if (size < 16 || size > 4096)
        fail("two-owners", "a block's stamp was overwritten (%s)", when);
    for (std::size_t i = 16; i < size; ++i)
        if (p[i] != char(mix(id + i)))
            fail("two-owners", "byte %zu of an owned block changed (%s)", i, when);
    return size;
}

template <typename Heap, std::size_t Lo, std::size_t Hi>
static void worker(u64 seed, int me, u64 steps, std::vector<u64>& log)
{
    status_t st{};
    stats_t local;
    thread_status()  = &st;
    thread_stats()   = &local;
    chaos_state().s  = mix(seed ^ 0xc4a05) | 1;
    chaos_state().mask = (unsigned[]){7, 31, 127, 1023}[seed % 4];
    rng r{seed};
    std::vector<std::pair<char*, u64>> mine;
    u64 n = 0;
    u64 keep = 1 + r.below(12);
    for (u64 s = 0; s < steps; ++s) {
        if (s % 8 == 0)
            log.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed) << 8 | u64(me));
        switch (r.below(6)) {
        case 0:
        case 1: {
            if (mine.size() > keep)
                goto release;
        take:
            auto size = Lo + r.below(Hi - Lo + 1);
            auto p    = static_cast<char*>(Heap::allocate(size));
            auto id   = (u64(me) << 40 | (seed << 20 & 0xffffffffff) | ++n) | u64{1} << 60;
            stamp(p, size, id);
            mine.push_back({p, id});
            break;
        }
        case 2:
        release:
            if (mine.empty())
                goto take;
            {
                auto i    = r.chance(1, 2) ? mine.size() - 1 : r.below(mine.size());
                auto size = unstamp(mine[i].first, mine[i].second, "before its release");
                Heap::deallocate(size, mine[i].first);
                mine[i] = mine.back();
                mine.pop_back();
            }
            break;
        case 3:
        case 4: {
            // hand one over, get another
            char* out = nullptr;
            if (!mine.empty() && r.chance(2, 3)) {
                auto i = r.below(mine.size());
                unstamp(mine[i].first, mine[i].second, "before it is handed over");
                out     = mine[i].first;
                mine[i] = mine.back();
                mine.pop_back();
            }
            auto in = g_box[r.below(BOXES)].exchange(out, std::memory_order_acq_rel);
            if (in) {
                u64 id;
                auto size = unstamp(in, 0, "after it was handed over");
                std::memcpy(&id, in + 8, 8);
                if (r.chance(1, 2))
                    Heap::deallocate(size, in);
                else
                    mine.push_back({in, id});
                local.add("handed_over");
            }
            break;
        }
        default:
            if (!mine.empty()) {
                auto& b = mine[r.below(mine.size())];
                unstamp(b.first, b.second, "while it is owned");
            }
        }
        chaos();
    }
    for (auto& b : mine) {
        auto size = unstamp(b.first, b.second, "at the end of the thread");
        Heap::deallocate(size, b.first);
    }
    local.add("evaluations", steps);
    local.add("delays", chaos_state().hits);
    thread_status() = nullptr;
    thread_stats()  = nullptr;
    static std::mutex m;
    std::lock_guard<std::mutex> l{m};
    stats().merge(local);
}

static void interleavings(std::vector<std::vector<u64>>& logs)
{
    std::vector<u64> all;
    for (auto& l : logs)
        all.insert(all.end(), l.begin(), l.end());
    std::sort(all.begin(), all.end());
    // orders of six consecutive scheduling points
    for (std::size_t i = 0; i + 6 <= all.size(); i += 3) {
        u64 h = 0;
        bool mixed = false;
        for (int k = 0; k < 6; ++k) {
            h = h * 31 + (all[i + k] & 255);
            mixed |= (all[i + k] & 255) != (all[i] & 255);
        }
        if (mixed)
            stats().see(mix(h));
        if (mixed)
            stats().add("interleaved_windows");
    }
}

template <typename Heap, int Tag, std::size_t Lo, std::size_t Hi, std::size_t Limit, bool Local>
static void round(const char* name, rng& r)
{
    using Parent = mon_heap<Tag>;
    auto nt    = 2 + r.below(5);
    auto steps = 100 + r.below(400);
    note("%s threads=%llu steps=%llu", name, (unsigned long long) nt, (unsigned long long) steps);
    auto start = Parent::st().live_blocks.load();
    std::vector<std::vector<u64>> logs(nt + 1);
    std::vector<std::thread> ts;
    auto spawn = [&](int i) {
        auto seed = r.next();
        ts.emplace_back([&, i, seed] { worker<Heap, Lo, Hi>(seed, i, steps, logs[i]); });
    };
    for (u64 i = 0; i < nt; ++i)
        spawn(int(i));
    // one thread that ends while the others go on
    ts[0].join();
    ts.erase(ts.begin());
    spawn(int(nt));
    for (auto& t : ts)
        t.join();
    i64 left = 0;
    for (auto& b : g_box)
        if (auto p = b.exchange(nullptr)) {
            auto size = unstamp(p, 0, "in the end");
            // given back by a thread of its own, which ends
            std::thread{[&] { Heap::deallocate(size, p); }}.join();
            ++left;
        }
    // all threads that allocated have ended: what is kept is in the global list
    auto kept = Parent::st().live_blocks.load();
    auto cap  = i64(Limit) + i64(nt); // the limit is checked without a lock
    if (kept > cap)
        fail("heap-limit", "%s: %lld blocks are kept after all threads ended (%lld before), the limit is %zu", name, (long long) kept, (long long) start, Limit);
    stats().max("blocks_kept", u64(kept));
    // none of them is lost
    std::thread{[&] {
        std::vector<char*> ps;
        for (i64 i = 0; i < kept; ++i) {
            auto a0 = Parent::st().allocs.load();
            ps.push_back(static_cast<char*>(Heap::allocate(Hi)));
            stamp(ps.back(), Hi, i + 1);
            if (Parent::st().allocs.load() != a0)
                fail("heap-lost", "%s: of %lld blocks kept only %lld can be had again", name, (long long) kept, (long long) i);
        }
        for (i64 i = 0; i < kept; ++i) {
            unstamp(ps[i], u64(i + 1), "when all were taken");
            Heap::deallocate(Hi, ps[i]);
        }
    }}.join();
    if (r.chance(1, 3)) {
        // Limit + 1 released at once by one thread
        std::thread{[&] {
            std::vector<char*> ps;
            for (std::size_t i = 0; i < Limit * 2 + 5; ++i) {
                ps.push_back(static_cast<char*>(Heap::allocate(Hi)));
                stamp(ps.back(), Hi, i + 1);
            }
            for (std::size_t i = 0; i < ps.size(); ++i) {
                unstamp(ps[i], u64(i + 1), "when many were taken");
                Heap::deallocate(Hi, ps[i]);
            }
        }}.join();
        auto k = Parent::st().live_blocks.load();
        if (k > cap)
            fail("heap-limit", "%s: %lld blocks are kept after a thread released many, the limit is %zu", name, (long long) k, Limit);
    }
    interleavings(logs);
    stats().sample(status().text);
}

static void threads(rng& r, u64 i)
{
    using namespace immer;
    switch (i % 6) {
    case 0: round<gfl<64, 8, 30>, 30, 16, 64, 8, false>("free_list_heap<64,8>", r); break;
    case 1: round<gfl<32, 2, 31>, 31, 16, 32, 2, false>("free_list_heap<32,2>", r); break;
    case 2: round<free_list_heap_policy<mon_heap<32>, 6>::optimized<64>::type, 32, 16, 64, 6, true>("free_list_heap_policy<6>::optimized<64>", r); break;
    case 3: round<free_list_heap_policy<mon_heap<33>, 1>::optimized<48>::type, 33, 16, 48, 1, true>("free_list_heap_policy<1>::optimized<48>", r); break;
    case 4: round<gfl<40, 64, 34>, 34, 16, 40, 64, false>("free_list_heap<40,64>", r); break;
    default: {
        // no global list: everything goes back to the parent
        round<tfl<64, 4, 35>, 35, 16, 64, 0, true>("thread_local_free_list_heap<64,4>", r);
    }
    }
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
#if VT_GC
    GC_INIT();
#endif
    if (args.mode == "threads")
        args.run([](rng& r, u64 i) { threads(r, i); });
    else {
        args.run([](rng& r, u64 i) { single(r, i); });
        stats().add("evaluations", g_eval);
    }
    stats().dump();
}
