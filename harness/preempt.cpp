// Interleavings at the boundaries of reference count operations, simulated in
// one thread: while one pool of values is in the middle of an operation, at a
// chosen reference count operation or allocation, a second pool, which shares
// structure with it, runs whole operations (or drops all that it holds).
// That is what another thread could do at that point.  Both pools check every
// result against their models; at the end nothing may be left.
//   VT_T, VT_MP (a chaos policy), VT_B, VT_BL, VT_K, VT_HB, VT_SEQ, VT_ASSOC
#include "assoc_world.hpp"
#include "seq_world.hpp"
#include <immer/box.hpp>

using namespace vt;
using T  = VT_T;
using MP = VT_MP;

static u64 g_points, g_switches, g_ops, g_hit_ops;

// Calls `act` at chosen points of `fn`.
template <typename Fn, typename Act>
void preempted(rng& r, Fn&& fn, Act&& act)
{
    struct ctx_t
    {
        rng& r;
        Act& act;
        u64 countdown;
        unsigned left;
        u64 seen;
        bool busy;
    } ctx{r, act, 0, 0, 0, false};
    // few switches at any point, the early ones more often
    static const u64 reach[] = {2, 4, 8, 16, 40, 120};
    ctx.countdown = r.below(reach[r.below(6)]) + 1;
    ctx.left      = 1 + unsigned(r.below(3));
    auto& c       = chaos_state();
    c.ctx         = &ctx;
    c.hook        = [](void* p) {
        auto& x = *static_cast<ctx_t*>(p);
        if (x.busy)
            return;
        ++g_points;
        ++x.seen;
        if (!x.left || --x.countdown)
            return;
        x.busy = true;
        char keep[sizeof(status().text)];
        std::memcpy(keep, status().text, sizeof keep);
        x.act();
        std::memcpy(status().text, keep, sizeof keep);
        ++g_switches;
        stats().see(mix(hash_bytes(keep, std::strlen(keep)) * 131 + x.seen));
        --x.left;
        x.countdown = 1 + x.r.below(12);
        x.busy      = false;
    };
    auto before = g_switches;
    fn();
    c.hook = nullptr;
    ++g_ops;
    g_hit_ops += g_switches != before;
}

template <typename P, typename Opts>
void tune(Opts& o, rng& r)
{
    o.verify_all_den = 20;
    o.w_build        = 0;
    if (r.chance(2, 3)) {
        o.w_persist = 1; o.w_move = 10; o.w_trans = 4; o.w_misc = 1;
    } else {
        o.w_persist = 6; o.w_move = 3; o.w_trans = 2; o.w_misc = 2;
    }
}

// gives copies of some values of one pool to the other
template <typename P>
void give(rng& r, P& from, P& to, int n)
{
    for (int i = 0; i < n; ++i) {
        auto& x = r.pick(from.s);
        auto& y = r.pick(to.s);
        y.unsnap();
        y.c = x.c;
        y.m = x.m;
    }
}

template <typename P>
void drop_all(P& p)
{
    for (auto& x : p.s) {
        x.unsnap();
        x.c = {};
        x.m.clear();
    }
    for (auto& x : p.t) {
        x.t    = typename P::Tr{};
        x.live = false;
    }
}

template <typename P, typename Make>
void interleave(rng& r, Make&& make, u64 ops)
{
    P p = make();
    P q = make();
    for (int i = 0; i < 3; ++i)
        p.op_build();
    q.op_build();
    for (u64 i = 0; i < ops; ++i) {
        // share, then leave p with single values
        if (r.chance(1, 3)) {
            give(r, p, q, 1 + int(r.below(6)));
            if (r.chance(1, 3))
                q.op_move();
        }
        if (r.chance(1, 6))
            give(r, q, p, 1 + int(r.below(3)));
        if (r.chance(1, 3)) {
            // values that only q shares with one of p
            auto& x = r.pick(p.s);
            for (auto& y : p.s)
                if (&y != &x && r.chance(1, 2)) {
                    y.unsnap();
                    y.c = p.build(y.m);
                }
        }
        preempted(
            r,
            [&] { p.step(); },
            [&] {
                if (r.chance(1, 2))
                    drop_all(q);
                else if (r.chance(1, 3))
                    give(r, q, q, 2);
                else
                    q.step();
            });
        if (r.chance(1, 12))
            q.op_build();
        if (r.chance(1, 12))
            p.op_build();
    }
    p.verify_others();
    q.verify_others();
    p.teardown();
    q.verify_others();
    q.teardown();
}

template <typename C>
void seq_case(rng& r, u64 ops)
{
    static const std::size_t ms[] = {6, 12, 24, 40, 90, 150, 300};
    auto maxn = ms[r.below(7)];
    value_source vs;
    seq_opts o;
    using P = pool<C>;
    tune<P>(o, r);
    interleave<P>(r, [&] { return P{r, vs, o, maxn}; }, ops);
}

template <typename KD>
void assoc_case(rng& r, u64 ops)
{
    static const u64 ds[] = {4, 10, 24, 60, 150, 400};
    hash_mode().mode = int(r.below(HASH_MODES));
    hash_mode().salt = r.next();
    auto domain      = ds[r.below(6)];
    if (hash_mode().mode == 2 || hash_mode().mode == 3 || hash_mode().mode == 5)
        domain = std::min<u64>(domain, 40);
    assoc_opts o;
    using P = apool<KD>;
    tune<P>(o, r);
    interleave<P>(r, [&] { return P{r, o, domain}; }, ops);
}

void box_case(rng& r, u64 ops)
{
    using B = immer::box<T, MP>;
    using E = elem<T>;
    struct given { B b; u64 v; };
    std::vector<given> p(3), q(3);
    for (auto* z : {&p, &q})
        for (auto& x : *z)
            x = {B{E::make(1)}, E::norm(1)};
    for (u64 i = 0; i < ops; ++i) {
        for (auto& y : q)
            if (r.chance(1, 2))
                y = r.pick(p);
        auto& x = r.pick(p);
        auto v  = E::norm(r.below(100000));
        note("box step");
        ++status().op;
        auto op = r.below(5);
        preempted(
            r,
            [&] {
                switch (op) {
                case 0: x = given{r.pick(p)}; break;
                case 1: x.b = B{E::make(v)}; x.v = v; break;
                case 2: x.b = x.b.update([&](const T& t) { VT_CHECK(E::get(t) == x.v, "box", "update"); return E::make(v); }); x.v = v; break;
                case 3: x.b = std::move(x.b).update([&](T t) { VT_CHECK(E::get(t) == x.v, "box", "update"); return E::make(v); }); x.v = v; break;
                default: {
                    auto w = x.b;
                    x.b    = std::move(w).update([&](T t) { return E::make(v); });
                    x.v    = v;
                }
                }
            },
            [&] {
                if (r.chance(1, 2))
                    for (auto& y : q)
                        y = {B{E::make(2)}, E::norm(2)};
                else {
                    auto& y = r.pick(q);
                    auto w  = E::norm(r.below(1000));
                    y.b     = std::move(y.b).update([&](T) { return E::make(w); });
                    y.v     = w;
                }
            });
        for (auto* z : {&p, &q})
            for (auto& y : *z)
                VT_CHECK(E::get(*y.b) == y.v, "model", "a box presents %llu, expected %llu", (unsigned long long) E::get(*y.b), (unsigned long long) y.v);
    }
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    auto ops = args.ops ? args.ops : 60;
#if VT_SEQ
    using V = immer::vector<T, MP, VT_B, VT_BL>;
    using F = immer::flex_vector<T, MP, VT_B, VT_BL>;
    using A = immer::array<T, MP>;
    {
        V v; F f; A a;
        auto vt = V{}.transient();
        auto ft = F{}.transient();
        auto at = A{}.transient();
    }
#endif
#if VT_ASSOC
    using S  = set_kind<VT_K, MP, VT_HB>;
    using M  = map_kind<VT_K, T, MP, VT_HB>;
    using TB = table_kind<VT_K, T, MP, VT_HB>;
    {
        typename S::C s; typename M::C m; typename TB::C t;
        auto st = typename S::C{}.transient();
        auto mt = typename M::C{}.transient();
        auto tt = typename TB::C{}.transient();
        (void) m[M::mkkey(1)];
        (void) t[TB::mkkey(1)];
    }
#endif
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        switch (i % (VT_SEQ * 5 + VT_ASSOC * 3)) {
#if VT_SEQ
        case 0: seq_case<V>(r, ops); break;
        case 1:
        case 2: seq_case<F>(r, ops); break;
        case 3: seq_case<A>(r, ops); break;
        case 4: box_case(r, ops * 3); break;
#endif
#if VT_ASSOC
        case VT_SEQ * 5 + 0: assoc_case<S>(r, ops); break;
        case VT_SEQ * 5 + 1: assoc_case<M>(r, ops); break;
        case VT_SEQ * 5 + 2: assoc_case<TB>(r, ops); break;
#endif
        }
        expect_quiescent<MP>("after all values are gone");
    });
    stats().add("evaluations", g_ops);
    stats().add("boundaries", g_points);
    stats().add("switches", g_switches);
    stats().add("operations_interrupted", g_hit_ops);
    stats().add("element_copies", life().copies);
    stats().add("element_moves", life().moves);
    stats().add("heap_allocations", mon_heap<>::st().allocs);
    stats().dump();
}
