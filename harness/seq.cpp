// Sequence histories.  The configuration is chosen at compile time:
//   VT_T  element type   VT_MP memory policy   VT_B, VT_BL branching
//   VT_V / VT_F / VT_A: which containers take part
#include "../engine/gc.hpp"
#include "seq_world.hpp"

#ifndef VT_T
#define VT_T int
#endif
#ifndef VT_MP
#define VT_MP vt::mp_def
#endif
#ifndef VT_B
#define VT_B 2
#endif
#ifndef VT_BL
#define VT_BL 2
#endif
#ifndef VT_V
#define VT_V 1
#endif
#ifndef VT_F
#define VT_F 1
#endif
#ifndef VT_A
#define VT_A 1
#endif

using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using V  = immer::vector<T, MP, VT_B, VT_BL>;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;
using A  = immer::array<T, MP>;

static seq_opts options(const std::string& mode)
{
    seq_opts o;
    if (mode == "persist") {
        o.w_persist = 8; o.w_move = 1; o.w_trans = 1; o.w_build = 2; o.w_misc = 1;
    } else if (mode == "move") {
        o.w_persist = 3; o.w_move = 10; o.w_trans = 1; o.w_build = 2; o.w_misc = 1;
    } else if (mode == "trans") {
        o.w_persist = 1; o.w_move = 1; o.w_trans = 10; o.w_build = 2; o.w_misc = 1;
        o.verify_all_num = 1; o.verify_all_den = 3;
    } else if (mode == "iso") {
        o.verify_all_num = 1; o.verify_all_den = 1;
    } else if (mode == "id") {
        o.identity = true; o.w_persist = 8; o.w_move = 6; o.w_trans = 6; o.w_misc = 1;
    } else if (mode == "eq") {
        o.w_misc = 10; o.eq_all = true;
    }
    if (VT_B >= 4)
        o.maxes.push_back(6000);
    return o;
}

int main(int argc, char** argv)
{
    VT_GC_INIT();
    args_t args{argc, argv};
    auto o   = options(args.mode);
    auto ops = args.ops ? args.ops : 60;
    {
        // touch the statics
        V v; F f; A a;
        auto vt = V{}.transient();
        auto ft = F{}.transient();
        auto at = A{}.transient();
        (void) (v == V{}), (void) (f == F{}), (void) (a == A{});
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64) {
        value_source vs;
        auto maxn = r.pick(o.maxes);
        if (r.chance(1, 120)) // deep trees with wide nodes too
            maxn = 3000 << r.below(5);
        auto n    = maxn > 2000 ? ops / 4 : maxn > 500 ? ops / 2 : ops;
        {
#if VT_V
            pool<V> v{r, vs, o, maxn};
#endif
#if VT_F
            pool<F> f{r, vs, o, maxn};
#endif
#if VT_A
            // they are copied whole, and without counting never released
            constexpr bool counted = !std::is_same<MP::refcount, immer::no_refcount_policy>::value;
            pool<A> a{r, vs, o, std::min<std::size_t>(maxn, counted ? 4000 : 1000)};
#endif
            for (u64 i = 0; i < n; ++i) {
                if (arena_heap<>::much()) {
                    stats().add("cut_short");
                    break;
                }
                auto k = r.below(10);
                (void) k;
#if VT_V
                if (k < (VT_F ? 3 : 8))
                    v.step();
#endif
#if VT_F
                if (k >= 3 && k < 8)
                    f.step();
#endif
#if VT_A
                if (k == 8 || !(VT_V || VT_F))
                    a.step();
#endif
#if VT_V && VT_F
                if (k == 9) {
                    auto& x = r.pick(v.s);
                    if (r.chance(1, 2)) {
                        auto& y = r.pick(f.s);
                        f.ev("from vector", x.m.size());
                        y.c = F(x.c);
                        y.m = x.m;
                        f.touched(y);
                    } else {
                        auto& y = r.pick(f.t);
                        f.ev("transient from vector_transient", x.m.size());
                        if (r.chance(1, 2)) {
                            auto& z = *v.some_transient();
                            y.t     = typename F::transient_type{z.t};
                            y.m     = z.m;
                        } else {
                            y.t = typename F::transient_type{x.c.transient()};
                            y.m = x.m;
                        }
                        y.live = true;
                        f.ttouched(y);
                    }
                }
#endif
            }
#if VT_V
            v.verify_others();
            if (o.eq_all) v.eq_everything();
            v.teardown();
#endif
#if VT_F
            f.verify_others();
            if (o.eq_all) f.eq_everything();
            f.teardown();
#endif
#if VT_A
            a.verify_others();
            if (o.eq_all) a.eq_everything();
            a.teardown();
#endif
        }
        expect_quiescent<MP>("after all values are gone");
    });
    u64 n = 0;
#if VT_V
    n += pool<V>::ops_done;
#endif
#if VT_F
    n += pool<F>::ops_done;
#endif
#if VT_A
    n += pool<A>::ops_done;
#endif
    stats().add("operations", n);
    stats().add("element_copies", life().copies);
    stats().add("element_moves", life().moves);
    stats().add("elements_constructed", life().constructed);
    stats().add("heap_allocations", mon_heap<>::st().allocs + arena_heap<>::st().allocs);
    stats().dump();
}
