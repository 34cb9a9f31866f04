// Histories of associative containers.
//   VT_K, VT_T key and mapped types, VT_MP policy, VT_B branching,
//   VT_SET / VT_MAP / VT_TABLE which kinds take part
#include "../engine/gc.hpp"
#include "assoc_world.hpp"
#ifndef VT_K
#define VT_K vt::tracked<>
#endif
#ifndef VT_T
#define VT_T vt::tracked<>
#endif
#ifndef VT_MP
#define VT_MP vt::mp_mon
#endif
#ifndef VT_B
#define VT_B 5
#endif
#ifndef VT_SET
#define VT_SET 1
#endif
#ifndef VT_MAP
#define VT_MAP 1
#endif
#ifndef VT_TABLE
#define VT_TABLE 1
#endif
using namespace vt;
using MP = VT_MP;
using S  = set_kind<VT_K, MP, VT_B>;
using M  = map_kind<VT_K, VT_T, MP, VT_B>;
using TB = table_kind<VT_K, VT_T, MP, VT_B>;

static assoc_opts options(const std::string& mode)
{
    assoc_opts o;
    if (mode == "persist") {
        o.w_persist = 10; o.w_move = 1; o.w_trans = 1; o.w_misc = 1; o.w_build = 2;
    } else if (mode == "move") {
        o.w_persist = 2; o.w_move = 10; o.w_trans = 1; o.w_misc = 1;
    } else if (mode == "trans") {
        o.w_persist = 1; o.w_move = 1; o.w_trans = 10; o.w_misc = 1;
        o.verify_all_den = 3;
    } else if (mode == "iso") {
        o.verify_all_den = 1;
    } else if (mode == "id") {
        o.identity = true; o.w_persist = 8; o.w_move = 6; o.w_trans = 6; o.w_misc = 1;
    } else if (mode == "calls") {
        o.lookups = true;
    } else if (mode == "eq") {
        o.w_misc = 10; o.eq_all = true;
    } else if (mode == "diff") {
        o.w_misc = 10; o.diff_all = true;
    }
    return o;
}

template <typename KD>
void go(rng& r, const assoc_opts& o, u64 domain, u64 ops)
{
    apool<KD> p{r, o, domain};
    for (u64 i = 0; i < ops; ++i)
        p.step();
    p.everything();
    p.teardown();
}

int main(int argc, char** argv)
{
    VT_GC_INIT();
    args_t args{argc, argv};
    auto o   = options(args.mode);
    auto ops = args.ops ? args.ops : 60;
    {
        typename S::C s; typename M::C m; typename TB::C t;
        auto st = typename S::C{}.transient();
        auto mt = typename M::C{}.transient();
        auto tt = typename TB::C{}.transient();
#if VT_MAP
        (void) m[M::mkkey(1)];
#endif
#if VT_TABLE
        (void) t[TB::mkkey(1)];
#endif
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        hash_mode().mode = o.force_hash >= 0 ? o.force_hash : int(r.below(HASH_MODES));
        hash_mode().salt = r.next();
        auto domain      = r.pick(o.domains);
        if (hash_mode().mode == 2 || hash_mode().mode == 3 || hash_mode().mode == 5)
            domain = std::min<u64>(domain, 60);
        stats().add((std::string("hash_") + hash_name(hash_mode().mode)).c_str());
        (void) i;
        switch (i % (VT_SET + VT_MAP + VT_TABLE)) {
#if VT_SET
        case 0: go<S>(r, o, domain, ops); break;
#endif
#if VT_MAP
        case VT_SET: go<M>(r, o, domain, ops); break;
#endif
#if VT_TABLE
        case VT_SET + VT_MAP: go<TB>(r, o, domain, ops); break;
#endif
        }
        expect_quiescent<MP>("after all values are gone");
    });
    u64 n = 0;
#if VT_SET
    n += apool<S>::ops_done;
#endif
#if VT_MAP
    n += apool<M>::ops_done;
#endif
#if VT_TABLE
    n += apool<TB>::ops_done;
#endif
    stats().add("operations", n);
    stats().add("hash_calls", hash_mode().hashes);
    stats().add("equal_calls", hash_mode().equals);
    stats().add("element_copies", life().copies);
    stats().add("element_moves", life().moves);
    stats().add("heap_allocations", mon_heap<>::st().allocs + arena_heap<>::st().allocs);
    stats().dump();
}
