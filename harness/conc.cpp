// Containers shared between threads.
//   mode=read    (P19) const values read and derived from by all threads
//   mode=mutate  (P20) every thread mutates its own values in place, whose
//                structure is shared with those of the others
// Every thread runs the single threaded histories with their models; what it
// observes must be what it would observe alone.
#include "assoc_world.hpp"
#include "seq_world.hpp"
#include <condition_variable>
#include <immer/box.hpp>
#include <thread>

using namespace vt;
using T  = VT_T;
using MP = VT_MP;

static bool g_mutate = false;
static std::atomic<u64> g_ticket{0};
constexpr int MAXT = 6;

struct barrier
{
    std::mutex m;
    std::condition_variable cv;
    int n, waiting = 0;
    u64 gen = 0;
    explicit barrier(int n_)
        : n{n_}
    {}
    void wait()
    {
        std::unique_lock<std::mutex> l{m};
        auto g = gen;
        if (++waiting == n) {
            waiting = 0;
            ++gen;
            cv.notify_all();
        } else
            cv.wait(l, [&] { return g != gen; });
    }
};

struct thread_env
{
    status_t st{};
    stats_t local;
    std::vector<u64> log;
    u64 ops = 0;
};

// A place to hand values over between threads.
template <typename S>
struct mailbox
{
    std::mutex m;
    std::vector<S> box;
    explicit mailbox(std::size_t n)
        : box(n)
    {}
    void exchange(std::size_t i, S& x)
    {
        std::lock_guard<std::mutex> l{m};
        std::swap(box[i % box.size()], x);
    }
};

static void tick(thread_env& e, int me)
{
    e.log.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed) << 8 | u64(me));
}

// -------------------------------------------------------------- sequences

template <typename C>
struct seq_round
{
    using P    = pool<C>;
    using slot_t = slot<C>;
    struct given
    {
        C c;
        model_t m;
    };
    // in half of the read rounds no one but the threads refers to the values,
    // which are released by whichever thread is the last to be done with them
    bool spread = false;
    std::vector<slot_t> shared;                    // const during the round
    std::vector<std::vector<given>> start{MAXT};   // what every thread starts with
    mailbox<given> mail{4};
    std::size_t maxn;
    const char* name = traits<C>::name;

    seq_round(rng& r)
    {
        static const std::size_t ms[] = {6, 12, 24, 40, 90, 150, 300};
        maxn = ms[r.below(7)];
        value_source vs;
        seq_opts o;
        P p{r, vs, o, maxn};
        for (int i = 0; i < 3; ++i)
            p.op_build();
        for (int i = 0; i < 10; ++i)
            r.chance(1, 2) ? p.op_persist() : p.op_move();
        spread = !g_mutate && r.chance(1, 2);
        for (auto& x : p.s) {
            if (!g_mutate && !spread)
                shared.push_back(x);
            for (int t = 0; t < MAXT; ++t)
                start[t].push_back({x.c, x.m});
        }
        p.teardown();
        // from here on only the threads refer to the structure (mutate)
    }
    void run(int me, u64 seed, u64 steps, thread_env& e)
    {
        rng r{seed};
        value_source vs;
        vs.n = u64(me + 1) * 100000;
        seq_opts o;
        o.verify_all_den = 12;
        if (g_mutate) {
            o.w_persist = 2; o.w_move = 8; o.w_trans = 7; o.w_misc = 2; o.w_build = 0;
        } else {
            o.w_persist = 10; o.w_move = 0; o.w_trans = 0; o.w_misc = 3; o.w_build = 0;
        }
        {
            P p{r, vs, o, maxn};
            if (g_mutate)
                for (std::size_t i = 0; i < P::NS; ++i) {
                    p.s[i].c = std::move(start[me][i].c);
                    p.s[i].m = std::move(start[me][i].m);
                }
            std::vector<slot_t> mine;
            if (spread)
                for (auto& g : start[me]) {
                    mine.emplace_back();
                    mine.back().c = std::move(g.c);
                    mine.back().m = std::move(g.m);
                }
            auto& shared = spread ? mine : this->shared;
            for (u64 i = 0; i < steps; ++i) {
                tick(e, me);
                if (spread && r.chance(1, 12)) {
                    auto& x = r.pick(mine);
                    note("%s release of a shared value size=%zu", name, x.m.size());
                    x.c = C{};
                    x.m.clear();
                    stats().add("releases_of_shared");
                }
                if (g_mutate) {
                    if (r.chance(1, 9)) {
                        // hand one over, get another
                        auto& x = r.pick(p.s);
                        note("%s exchange size=%zu", name, x.m.size());
                        given g{std::move(x.c), std::move(x.m)};
                        x.c = C{};
                        x.m.clear();
                        x.unsnap();
                        mail.exchange(r.below(4), g);
                        x.c = std::move(g.c);
                        x.m = std::move(g.m);
                        p.cur = "exchange";
                        p.touched(x);
                    }
                    p.step();
                } else {
                    auto& x       = shared[r.below(shared.size())];
                    const auto& c = x.c;
                    auto& d       = r.pick(p.s);
                    switch (r.below(6)) {
                    case 0:
                        note("%s read of a shared value size=%zu", name, x.m.size());
                        verify_const(c, x.m, unsigned(r.next()), "shared-read", "a value shared between threads");
                        verify_ends(c, x.m, "shared-read", "a value shared between threads");
                        break;
                    case 1:
                    case 2: {
                        note("%s copy of a shared value size=%zu", name, x.m.size());
                        d.unsnap();
                        d.c   = c;
                        d.m   = x.m;
                        p.cur = "copy of a shared value";
                        p.touched(d);
                        break;
                    }
                    case 3: {
                        auto& y = shared[r.below(shared.size())];
                        note("%s comparison of shared values sizes=%zu,%zu", name, x.m.size(), y.m.size());
                        bool want = x.m == y.m;
                        VT_CHECK((c == y.c) == want && (y.c != c) == !want, "shared-read", "comparison of values shared between threads");
                        VT_CHECK((d.c == c) == (d.m == x.m), "shared-read", "comparison with a value shared between threads");
                        break;
                    }
                    default:
                        p.step();
                    }
                }
                chaos();
            }
            p.verify_others();
            p.teardown();
        }
        start[me].clear();
        e.ops += steps;
    }
    void finish(rng& r)
    {
        for (auto& x : shared)
            x.verify(unsigned(r.next()), "shared-read", "a value shared between threads");
        for (auto& x : mail.box)
            verify_const(x.c, x.m, unsigned(r.next()), "exchanged", "a value left in the mailbox");
    }
};

// ------------------------------------------------------------ associative

template <typename KD>
struct assoc_round
{
    using P = apool<KD>;
    using C = typename KD::C;
    struct given
    {
        C c;
        amodel m;
    };
    bool spread = false;
    std::vector<aslot<KD>> shared;
    std::vector<std::vector<given>> start{MAXT};
    mailbox<given> mail{4};
    u64 domain;
    hash_mode_t hm;
    const char* name = KD::name;

    assoc_round(rng& r)
    {
        static const u64 ds[] = {4, 10, 24, 60, 150, 400};
        hash_mode().mode = int(r.below(HASH_MODES));
        hash_mode().salt = r.next();
        domain           = ds[r.below(6)];
        if (hash_mode().mode == 2 || hash_mode().mode == 3 || hash_mode().mode == 5)
            domain = std::min<u64>(domain, 40);
        hm = hash_mode();
        assoc_opts o;
        P p{r, o, domain};
        for (int i = 0; i < 4; ++i)
            p.op_build();
        for (int i = 0; i < 10; ++i)
            r.chance(1, 2) ? p.op_persist() : p.op_move();
        spread = !g_mutate && r.chance(1, 2);
        for (auto& x : p.s) {
            if (!g_mutate && !spread)
                shared.push_back(x);
            for (int t = 0; t < MAXT; ++t)
                start[t].push_back({x.c, x.m});
        }
        p.teardown();
    }
    void run(int me, u64 seed, u64 steps, thread_env& e)
    {
        hash_mode() = hm;
        rng r{seed};
        assoc_opts o;
        o.verify_all_den = 12;
        if (g_mutate) {
            o.w_persist = 2; o.w_move = 8; o.w_trans = 7; o.w_misc = 2; o.w_build = 0;
        } else {
            o.w_persist = 10; o.w_move = 0; o.w_trans = 0; o.w_misc = 3; o.w_build = 0;
        }
        {
            P p{r, o, domain};
            p.vals = u64(me + 1) * 100000;
            if (g_mutate)
                for (std::size_t i = 0; i < P::NS; ++i) {
                    p.s[i].c = std::move(start[me][i].c);
                    p.s[i].m = std::move(start[me][i].m);
                }
            std::vector<aslot<KD>> mine;
            if (spread)
                for (auto& g : start[me]) {
                    mine.emplace_back();
                    mine.back().c = std::move(g.c);
                    mine.back().m = std::move(g.m);
                }
            auto& shared = spread ? mine : this->shared;
            for (u64 i = 0; i < steps; ++i) {
                tick(e, me);
                if (spread && r.chance(1, 12)) {
                    auto& x = r.pick(mine);
                    note("%s release of a shared value size=%zu", name, x.m.size());
                    x.c = C{};
                    x.m.clear();
                    stats().add("releases_of_shared");
                }
                if (g_mutate) {
                    if (r.chance(1, 9)) {
                        auto& x = r.pick(p.s);
                        note("%s exchange size=%zu", name, x.m.size());
                        given g{std::move(x.c), std::move(x.m)};
                        x.c = C{};
                        x.m.clear();
                        x.unsnap();
                        mail.exchange(r.below(4), g);
                        x.c   = std::move(g.c);
                        x.m   = std::move(g.m);
                        p.cur = "exchange";
                        p.touched(x);
                    }
                    p.step();
                } else {
                    auto& x       = shared[r.below(shared.size())];
                    const auto& c = x.c;
                    auto& d       = r.pick(p.s);
                    switch (r.below(7)) {
                    case 0:
                        note("%s read of a shared value size=%zu", name, x.m.size());
                        averify<KD>(c, x.m, domain, r.next(), "shared-read", "a value shared between threads");
                        break;
                    case 1:
                    case 2:
                        note("%s copy of a shared value size=%zu", name, x.m.size());
                        d.unsnap();
                        d.c   = c;
                        d.m   = x.m;
                        p.cur = "copy of a shared value";
                        p.touched(d);
                        break;
                    case 3: {
                        auto& y = shared[r.below(shared.size())];
                        note("%s comparison of shared values sizes=%zu,%zu", name, x.m.size(), y.m.size());
                        bool want = x.m == y.m;
                        VT_CHECK((c == y.c) == want && (y.c != c) == !want, "shared-read", "comparison of values shared between threads");
                        break;
                    }
                    case 4: {
                        auto& y = shared[r.below(shared.size())];
                        p.diff(x, y);
                        p.diff(x, d);
                        break;
                    }
                    default:
                        p.step();
                    }
                }
                chaos();
            }
            p.verify_others();
            p.teardown();
        }
        start[me].clear();
        e.ops += steps;
    }
    void finish(rng& r)
    {
        for (auto& x : shared)
            x.verify(domain, r.next(), "shared-read", "a value shared between threads");
        for (auto& x : mail.box)
            averify<KD>(x.c, x.m, domain, r.next(), "exchanged", "a value left in the mailbox");
    }
};

// ------------------------------------------------------------------ boxes

struct box_round
{
    using B = immer::box<T, MP>;
    using E = elem<T>;
    struct given
    {
        B b;
        u64 v;
    };
    std::vector<given> shared;
    std::vector<std::vector<given>> start{MAXT};
    mailbox<given> mail{3};
    const char* name = "box";
    box_round(rng& r)
    {
        bool spread = r.chance(1, 2);
        for (int i = 0; i < 6; ++i) {
            auto v = E::norm(r.below(1000));
            B b{E::make(v)};
            if (!g_mutate && !spread)
                shared.push_back({b, v});
            for (int t = 0; t < MAXT; ++t)
                start[t].push_back({b, v});
        }
        for (auto& x : mail.box)
            x = {B{E::make(3)}, 3};
    }
    void run(int me, u64 seed, u64 steps, thread_env& e)
    {
        rng r{seed};
        auto mine = std::move(start[me]);
        start[me].clear();
        for (u64 i = 0; i < steps; ++i) {
            tick(e, me);
            auto& x = r.pick(mine);
            auto& y = r.pick(mine);
            auto v  = E::norm(r.below(100000));
            ++status().op;
            note("box step");
            switch (r.below(7)) {
            case 0: x = given{y}; break;
            case 1: x.b = B{E::make(v)}; x.v = v; break;
            case 2:
                x.b = y.b.update([&](const T& t) {
                    VT_CHECK(E::get(t) == y.v, "shared-read", "box");
                    return E::make(v);
                });
                x.v = v;
                break;
            case 3:
                x.b = std::move(x.b).update([&](T t) {
                    VT_CHECK(E::get(t) == x.v, "shared-read", "box");
                    return E::make(v);
                });
                x.v = v;
                break;
            case 4:
                if (g_mutate)
                    mail.exchange(r.below(3), x);
                else if (!shared.empty())
                    x = r.pick(shared);
                break;
            case 5: VT_CHECK((x.b == y.b) == (x.v == y.v), "shared-read", "box comparison"); break;
            default:
                if (!g_mutate && !shared.empty()) {
                    auto& s = r.pick(shared);
                    VT_CHECK(E::get(*s.b) == s.v, "shared-read", "a box shared between threads");
                }
            }
            VT_CHECK(E::get(*x.b) == x.v, "shared-read", "a box presents %llu, expected %llu", (unsigned long long) E::get(*x.b), (unsigned long long) x.v);
            chaos();
        }
        for (auto& x : mine)
            VT_CHECK(E::get(*x.b) == x.v, "shared-read", "a box presents %llu, expected %llu", (unsigned long long) E::get(*x.b), (unsigned long long) x.v);
        e.ops += steps;
    }
    void finish(rng&) {}
};

// ------------------------------------------------------------------- main

template <typename R>
static void round(rng& r, u64 steps)
{
    {
        R rd{r};
        auto nt = 2 + int(r.below(MAXT - 1));
        note("%s round, %d threads", rd.name, nt);
        barrier bar{nt};
        std::vector<thread_env> env(nt);
        std::vector<std::thread> ts;
        auto mask = (unsigned[]){3, 15, 63, 1023}[r.below(4)];
        for (int i = 0; i < nt; ++i) {
            auto seed = r.next();
            ts.emplace_back([&, i, seed, mask] {
                auto& e            = env[i];
                thread_status()    = &e.st;
                thread_stats()     = &e.local;
                e.st.iter          = 0;
                chaos_state().s    = mix(seed ^ 0xca05) | 1;
                chaos_state().mask = mask;
                bar.wait();
                rd.run(i, seed, steps, e);
                chaos_state().s = 0;
                e.local.add("delays", chaos_state().hits);
                arena_heap<>::pin(); // not taken back here
                thread_status() = nullptr;
                thread_stats()  = nullptr;
            });
        }
        for (auto& t : ts)
            t.join();
        rd.finish(r);
        std::vector<u64> all;
        for (auto& e : env) {
            stats().merge(e.local);
            stats().add("evaluations", e.ops);
            all.insert(all.end(), e.log.begin(), e.log.end());
        }
        std::sort(all.begin(), all.end());
        for (std::size_t i = 0; i + 6 <= all.size(); i += 3) {
            u64 h = 0;
            bool mixed = false;
            for (int k = 0; k < 6; ++k) {
                h = h * 31 + (all[i + k] & 255);
                mixed |= (all[i + k] & 255) != (all[i] & 255);
            }
            if (mixed) {
                stats().see(mix(h));
                stats().add("interleaved_windows");
            }
        }
        stats().sample(status().text);
    }
    expect_quiescent<MP>("after all threads and values are gone");
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    g_mutate   = args.mode == "mutate";
    auto steps = args.ops ? args.ops : 50;
#if VT_SEQ
    using V = immer::vector<T, MP, VT_B, VT_BL>;
    using F = immer::flex_vector<T, MP, VT_B, VT_BL>;
    using A = immer::array<T, MP>;
    {
        V v; F f; A a;
        auto vt = V{}.transient();
        auto ft = F{}.transient();
        auto at = A{}.transient();
    }
#endif
#if VT_ASSOC
    using S  = set_kind<VT_K, MP, VT_HB>;
    using M  = map_kind<VT_K, T, MP, VT_HB>;
    using TB = table_kind<VT_K, T, MP, VT_HB>;
    {
        typename S::C s; typename M::C m; typename TB::C t;
        auto st = typename S::C{}.transient();
        auto mt = typename M::C{}.transient();
        auto tt = typename TB::C{}.transient();
        (void) m[M::mkkey(1)];
        (void) t[TB::mkkey(1)];
    }
#endif
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        switch (i % (VT_SEQ * 5 + VT_ASSOC * 4)) {
#if VT_SEQ
        case 0: round<seq_round<V>>(r, steps); break;
        case 1:
        case 2: round<seq_round<F>>(r, steps); break;
        case 3: round<seq_round<A>>(r, steps); break;
        case 4: round<box_round>(r, steps * 4); break;
#endif
#if VT_ASSOC
        case VT_SEQ * 5 + 0: round<assoc_round<S>>(r, steps); break;
        case VT_SEQ * 5 + 1:
        case VT_SEQ * 5 + 2: round<assoc_round<M>>(r, steps); break;
        case VT_SEQ * 5 + 3: round<assoc_round<TB>>(r, steps); break;
#endif
        }
    });
    stats().add("element_copies", life().copies);
    stats().add("element_moves", life().moves);
    stats().add("heap_allocations", mon_heap<>::st().allocs + arena_heap<>::st().allocs);
    stats().dump();
}
