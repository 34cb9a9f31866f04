// Exhaustive single faults: every operation is tried once for every point at
// which an allocation, an element copy, a hash, an equality or a callback can
// fail in it, from the same reconstructed state.
//   VT_T element / mapped type, VT_K key type, VT_MP policy, VT_B, VT_BL
//   VT_V / VT_F / VT_A / VT_SET / VT_MAP / VT_TABLE / VT_BOX which kinds
//   modes: persist (P17), inplace (P18)
#include "assoc_world.hpp"
#include "seq_world.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>

#ifndef VT_K
#define VT_K vt::tracked<>
#endif
#ifndef VT_T
#define VT_T vt::tracked<>
#endif
#ifndef VT_MP
#define VT_MP vt::mp_mon
#endif
#ifndef VT_B
#define VT_B 2
#endif
#ifndef VT_BL
#define VT_BL 2
#endif
#ifndef VT_HB
#define VT_HB 3
#endif
#ifndef VT_STRONG
#define VT_STRONG 1 // nothing that moves elements can throw
#endif

using namespace vt;
using MP = VT_MP;
using T  = VT_T;
using V  = immer::vector<T, MP, VT_B, VT_BL>;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;
using A  = immer::array<T, MP>;
using S  = set_kind<VT_K, MP, VT_HB>;
using M  = map_kind<VT_K, T, MP, VT_HB>;
using TB = table_kind<VT_K, T, MP, VT_HB>;

static bool g_persist, g_inplace;
static u64 g_faults, g_cases, g_points_max;

// Runs `fn` with a fault at point k.  True when the fault fired (and
// reached us).
template <typename Fn>
bool faulty(u64 k, Fn&& fn)
{
    bool thrown = false;
    fault().arm(k);
    try {
        fn();
    } catch (const injected&) {
        thrown = true;
    } catch (const std::bad_alloc&) {
        thrown = true;
    }
    auto fired = fault().fired != 0;
    fault().disarm();
    if (fired && !thrown)
        fail("swallowed", "the exception thrown at point %llu (%s) did not reach the caller", (unsigned long long) k, fault().where);
    if (thrown && !fired)
        fail("spurious", "an exception was thrown that nothing injected");
    if (fired)
        ++g_faults;
    return fired;
}

struct census
{
    i64 live, blocks;
    static census now() { return {life().live.load(), mon_heap<>::st().live_blocks.load()}; }
};
static void same_census(const census& a, const char* op)
{
    auto b = census::now();
    if (is_counted<MP>::value && a.live != b.live)
        fail("element-leak", "%s: %lld elements alive after the failed operation, %lld before", op, (long long) b.live, (long long) a.live);
    if (is_counted<MP>::value && uses_mon_heap_directly<MP>::value && a.blocks != b.blocks)
        fail("block-leak", "%s: %lld blocks live after the failed operation, %lld before", op, (long long) b.blocks, (long long) a.blocks);
}

// did the callback of an update in place fail?  It was given the element to
// consume, so the element itself may be in a moved-from state.
static bool callback_failed() { return !std::strncmp(fault().where, "callback", 8); }

static void sample(const char* op, std::size_t n, u64 points)
{
    ++g_cases;
    g_points_max = std::max(g_points_max, points);
    if (n)
        stats().see(mix(hash_bytes(op, std::strlen(op)) ^ mix(n * 1000003 + points)));
    if (points > 3 && n > 4 && (g_cases % 97) == 0)
        stats().sample(std::string(op) + " of " + std::to_string(n) + " elements failed at each of " + std::to_string(points) + " points");
}

// -------------------------------------------------------------- sequences

template <typename C>
struct seq_fault
{
    using E  = elem<T>;
    using Tr = typename C::transient_type;
    using K  = traits<C>;

    // A small history that leaves related values behind; the same every time
    // for the same seed.
    struct world
    {
        rng r;
        value_source vs;
        seq_opts o;
        pool<C> p;
        world(u64 seed, std::size_t maxn)
            : r{seed}
            , p{r, vs, o, maxn}
        {
            o.addresses      = false;
            o.verify_all_num = 0;
            p.op_build();
            for (int i = 0; i < 2; ++i)
                p.op_build();
            for (int i = 0; i < 6; ++i)
                r.chance(2, 3) ? p.op_persist() : p.op_move();
        }
        void verify(const char* kind, const void* except = nullptr)
        {
            for (auto& x : p.s)
                if (&x != except)
                    verify_const(x.c, x.m, unsigned(r.next() % 6 * 7), kind, "another value");
        }
    };

    // 5 is construction from a vector, 17 writes through the data of an array
    static int pick(rng& r)
    {
        for (;;) {
            auto op = int(r.below(19));
            if (op == 17 ? K::arr : K::flex || op < 5 || op > 12)
                return op;
        }
    }
    struct args
    {
        int op;
        std::size_t i, j, a, b;
        u64 v;
    };
    static const char* opname(int op)
    {
        static const char* n[] = {"push_back", "set", "update", "take", "construct", "from vector", "drop", "push_front", "insert", "insert(values)", "erase", "erase range", "concat",
                                  "fill", "through a transient", "compare", "construct from a list", "data_mut", "construct from a range"};
        return n[op];
    }
    struct fn_t
    {
        u64 result;
        T operator()(T x) const
        {
            fault().point(fault().on_fn, "callback");
            auto y = E::make(result);
            fault().point(fault().on_fn, "callback (late)");
            return y;
        }
    };
    static args choose(rng& r, world& w)
    {
        args a;
        a.op   = pick(r);
        a.a    = r.below(w.p.NS);
        a.b    = r.below(w.p.NS);
        auto n = w.p.s[a.a].m.size();
        if (n == 0)
            for (std::size_t i = 0; i < w.p.NS; ++i)
                if (!w.p.s[i].m.empty())
                    a.a = i;
        n   = w.p.s[a.a].m.size();
        a.i = n ? r.size(n - 1) : 0;
        a.j = r.size(n);
        a.v = r.below(1000) * 3 + 1;
        if (n == 0 && (a.op == 1 || a.op == 2 || a.op == 10 || a.op == 17))
            a.op = 0;
        return a;
    }
    static model_t result(const args& a, const model_t& m, const model_t& y)
    {
        auto z = m;
        switch (a.op) {
        case 0: z.push_back(E::norm(a.v)); break;
        case 1:
        case 2:
        case 17: z[a.i] = E::norm(a.v); break;
        case 13: z.assign(z.size(), E::norm(a.v)); break;
        case 14:
            z.push_back(E::norm(a.v));
            z[a.i] = E::norm(a.v + 1);
            z.resize(std::min(z.size(), a.j + 1));
            z.push_back(E::norm(a.v + 2));
            break;
        case 16: z = {E::norm(a.v), E::norm(a.v + 1), E::norm(a.v + 2)}; break;
        case 3: z.resize(std::min(z.size(), a.j)); break;
        case 6: z = sub(m, a.j, m.size()); break;
        case 7: z.insert(z.begin(), E::norm(a.v)); break;
        case 8: z.insert(z.begin() + a.j, E::norm(a.v)); break;
        case 9: z.insert(z.begin() + a.j, y.begin(), y.end()); break;
        case 10: z.erase(z.begin() + a.i); break;
        case 11:
            if (a.j > a.i)
                z.erase(z.begin() + a.i, z.begin() + a.j);
            break;
        case 12: z.insert(z.end(), y.begin(), y.end()); break;
        }
        return z;
    }
    static C persistent_op(const args& a, const C& c, const C& y, const model_t& m, const std::vector<T>& src)
    {
        switch (a.op) {
        case 0: return c.push_back(E::make(a.v));
        case 1: return c.set(a.i, E::make(a.v));
        case 2: return c.update(a.i, fn_t{a.v});
        case 3: return c.take(a.j);
        case 4: return C(src.begin(), src.end());
        case 13: return C(m.size(), E::make(a.v));
        case 14: {
            auto t = c.transient();
            t.push_back(E::make(a.v));
            t.set(a.i, E::make(a.v + 1));
            t.take(a.j + 1);
            auto half = t.persistent();
            t.push_back(E::make(a.v + 2));
            return t.persistent();
        }
        case 15: {
            bool e1 = c == y, e2 = c != y;
            if (e1 == e2)
                fail("equality", "== and != agree");
            C other(src.begin(), src.end());
            if (!(other == c))
                fail("equality", "equal contents compare unequal");
            return c;
        }
        case 16: return C{E::make(a.v), E::make(a.v + 1), E::make(a.v + 2)};
        case 18:
            return from_range<C, K::arr>(m.size(), [&](std::size_t i) {
                fault().point(fault().on_fn, "reading of a range");
                return src[i];
            }, unsigned(a.v));
        case 17:
            if constexpr (K::arr) {
                auto t            = c.transient();
                t.data_mut()[a.i] = E::make(a.v);
                return t.persistent();
            }
        }
        if constexpr (K::flex) {
            switch (a.op) {
            case 5: {
                V v(src.begin(), src.end());
                return C{v};
            }
            case 6: return c.drop(a.j);
            case 7: return c.push_front(E::make(a.v));
            case 8: return c.insert(a.j, E::make(a.v));
            case 9: return c.insert(a.j, y);
            case 10: return c.erase(a.i);
            case 11: return c.erase(a.i, a.j);
            case 12: return c + y;
            }
        }
        return c;
    }

    static void persist_case(u64 seed, std::size_t maxn)
    {
        world w{seed, maxn};
        rng r{seed ^ 0x55};
        for (int rep = 0; rep < 4; ++rep) {
            auto a   = choose(r, w);
            auto& x  = w.p.s[a.a];
            auto& y  = w.p.s[a.b];
            auto m   = result(a, x.m, y.m);
            auto src = w.p.materialise(x.m);
            auto c0  = census::now();
            u64 k    = 1;
            note("%s %s persistent size=%zu i=%zu j=%zu other=%zu", K::name, opname(a.op), x.m.size(), a.i, a.j, y.m.size());
            for (;; ++k) {
                VT_CHECK(k < 5000, "endless", "%s never succeeds", opname(a.op));
                status().op = k;
                bool f = faulty(k, [&] {
                    auto res = persistent_op(a, x.c, y.c, x.m, src);
                    no_faults nf;
                    verify_const(res, m, unsigned(k * 7), "retry", "the operation tried again");
                });
                same_census(c0, opname(a.op));
                if (!f)
                    break;
                if (k % 3 == 0)
                    w.verify("failed-persistent");
            }
            w.verify("failed-persistent");
            sample(opname(a.op), x.m.size(), k - 1);
        }
    }

    // in place: r-value and transient forms
    static bool composite(int op) { return op >= 8 && op <= 11; }
    static void inplace_case(u64 seed, std::size_t maxn)
    {
        rng r0{seed ^ 0x77};
        auto share = r0.below(3); // who else holds what is operated on
        auto form  = r0.below(3);
        args a;
        u64 k = 1;
        std::size_t n = 0;
        for (;; ++k) {
            VT_CHECK(k < 5000, "endless", "%s never succeeds", opname(a.op));
            rng r = r0;
            world w{seed, maxn};
            do
                a = choose(r, w);
            while (a.op == 4 || a.op == 5 || (a.op >= 13 && a.op != 17));
            auto& x = w.p.s[a.a];
            auto& y = w.p.s[a.b];
            n       = x.m.size();
            C keep;
            if (share == 1)
                keep = x.c; // shared as a whole
            if (share == 2 && n)
                keep = x.c.set(n / 2, E::make(5)); // partly shared
            auto keepm = share == 1 ? x.m : share == 2 ? x.m : model_t{};
            if (share == 2 && n)
                keepm[n / 2] = 5;
            auto m = result(a, x.m, y.m);
            C z    = r.chance(1, 2) ? y.c : w.p.build(y.m); // the right operand, maybe owned
            auto zm = y.m;
            status().op = k;
            note("%s %s in place (form %d) size=%zu i=%zu j=%zu other=%zu share=%d", K::name, opname(a.op), int(form), n, a.i, a.j, y.m.size(), int(share));
            bool f;
            bool z_used = false;
            C target = std::move(x.c);
            x.c      = C{};
            auto old = x.m;
            x.m.clear();
            x.unsnap();
            if (a.op != 17 && (form == 0 || (a.op > 6 && a.op != 12))) {
                C res;
                f = faulty(k, [&] {
                    switch (a.op) {
                    case 0: res = std::move(target).push_back(E::make(a.v)); break;
                    case 1: res = std::move(target).set(a.i, E::make(a.v)); break;
                    case 2: res = std::move(target).update(a.i, fn_t{a.v}); break;
                    case 3: res = std::move(target).take(a.j); break;
                    default:
                        if constexpr (K::flex) {
                            z_used = true;
                            switch (a.op) {
                            case 6: res = std::move(target).drop(a.j); break;
                            case 7: res = std::move(target).push_front(E::make(a.v)); break;
                            case 8: res = std::move(target).insert(a.j, E::make(a.v)); break;
                            case 9: res = std::move(target).insert(a.j, z); break;
                            case 10: res = std::move(target).erase(a.i); break;
                            case 11: res = std::move(target).erase(a.i, a.j); break;
                            case 12:
                                if (share == 0)
                                    res = std::move(target) + std::move(z);
                                else
                                    res = std::move(target) + z;
                                break;
                            }
                        }
                    }
                });
                if (!f) {
                    target = C{};
                    verify_const(res, m, unsigned(r.next()), "retry", "the operation without a fault");
                    break;
                }
                after_failure(w, a, target, old, m, share == 0 && a.op == 12 ? nullptr : &z, zm, r);
                if (share)
                    verify_const(keep, keepm, unsigned(r.next()), "failed-inplace", "a value sharing structure");
            } else {
                Tr t = std::move(target).transient();
                target = C{};
                if (share == 2) // owned in parts
                    for (int q = 0; q < 2 && n; ++q) {
                        auto i = (a.i + q * 5) % n;
                        t.set(i, E::make(old[i]));
                    }
                auto tz = z.transient();
                bool moved_z = false;
                f = faulty(k, [&] {
                    switch (a.op) {
                    case 0: t.push_back(E::make(a.v)); break;
                    case 1: t.set(a.i, E::make(a.v)); break;
                    case 2: t.update(a.i, fn_t{a.v}); break;
                    case 3: t.take(a.j); break;
                    case 17:
                        if constexpr (K::arr)
                            t.data_mut()[a.i] = E::make(a.v);
                        break;
                    default:
                        if constexpr (K::flex) {
                            if (a.op == 6)
                                t.drop(a.j);
                            else if (form == 1) {
                                moved_z = a.j % 2;
                                if (moved_z)
                                    t.append(std::move(tz));
                                else
                                    t.append(tz);
                            } else {
                                moved_z = a.j % 2;
                                if (moved_z)
                                    t.prepend(std::move(tz));
                                else
                                    t.prepend(tz);
                            }
                        }
                    }
                });
                if (a.op == 12 && form == 2)
                    m = cat(zm, old);
                if (!f) {
                    verify_const(t, m, unsigned(r.next()), "retry", "the operation without a fault");
                    verify_const(z, zm, unsigned(r.next()), "failed-inplace", "the other operand");
                    break;
                }
                if (!moved_z)
                    verify_const(tz, zm, unsigned(r.next()), "failed-inplace", "the other transient");
                after_failure(w, a, t, old, m, &z, zm, r);
                if (share)
                    verify_const(keep, keepm, unsigned(r.next()), "failed-inplace", "a value sharing structure");
            }
            w.verify("failed-inplace");
            keep = C{};
            z    = C{};
            // w goes away: everything but the base line must be gone
            w.p.teardown();
        }
        sample(opname(a.op), n, k - 1);
    }

    template <typename X>
    static void after_failure(world& w, const args& a, X& x, const model_t& old, const model_t& next, const C* z, const model_t& zm, rng& r)
    {
        if (callback_failed()) {
            VT_CHECK(x.size() == old.size(), "failed-inplace-contents", "the object operated on has size %zu", (std::size_t) x.size());
            for (std::size_t i = 0; i < old.size(); ++i)
                if (i != a.i && E::get(x[i]) != old[i])
                    fail("failed-inplace-contents", "element %zu is %llu, expected %llu", i, (unsigned long long) E::get(x[i]), (unsigned long long) old[i]);
            mutate_set(x, a.i, 9);
            auto m = old;
            m[a.i] = E::norm(9);
            verify_const(x, m, unsigned(r.next()), "failed-inplace-use", "assignment after a failed callback");
        } else if (VT_STRONG && !composite(a.op)) {
            verify_const(x, old, unsigned(r.next()), "failed-inplace-contents", "the object operated on");
            if (r.chance(1, 2) && !old.empty()) {
                // still fit for mutation
                auto m = old;
                auto i = r.size(m.size() - 1);
                mutate_set(x, i, 9);
                m[i] = E::norm(9);
                mutate_push(x, 11);
                m.push_back(E::norm(11));
                verify_const(x, m, unsigned(r.next()), "failed-inplace-use", "mutation after a failure");
            }
        } else {
            // valid: a consistent sequence
            std::size_t n = 0;
            for (auto&& e : x) {
                ++n;
#if VT_STRONG
                (void) E::get(e);
#else
                (void) e;
#endif
            }
            VT_CHECK(n == x.size(), "failed-inplace-valid", "the object has size %zu and iterates over %zu elements", (std::size_t) x.size(), n);
            tolerate_moved tm{!VT_STRONG};
            mutate_push(x, 11);
            auto i = x.size() - 1;
            VT_CHECK(E::get(x[i]) == E::norm(11), "failed-inplace-use", "an element added after a failure reads wrong");
        }
        if (z)
            verify_const(*z, zm, unsigned(r.next()), "failed-inplace", "the other operand");
        if (r.chance(1, 2))
            x = X{};
    }
    static void mutate_set(C& c, std::size_t i, u64 v) { c = std::move(c).set(i, E::make(v)); }
    static void mutate_set(Tr& c, std::size_t i, u64 v) { c.set(i, E::make(v)); }
    static void mutate_push(C& c, u64 v) { c = std::move(c).push_back(E::make(v)); }
    static void mutate_push(Tr& c, u64 v) { c.push_back(E::make(v)); }

    static void run(u64 seed, rng& r)
    {
        static const std::size_t sizes[] = {5, 9, 14, 22, 40, 70};
        auto maxn = sizes[r.below(6)];
        if (g_persist)
            persist_case(seed, maxn);
        if (g_inplace)
            inplace_case(seed, maxn);
        expect_quiescent<MP>("after a failed operation and the end of all values");
    }
};

// ------------------------------------------------------------ associative

template <typename KD>
struct assoc_fault
{
    using C  = typename KD::C;
    using Tr = typename C::transient_type;

    struct world
    {
        rng r;
        assoc_opts o;
        u64 domain;
        apool<KD> p;
        world(u64 seed, u64 domain_)
            : r{seed}
            , domain{domain_}
            , p{r, o, domain_}
        {
            o.verify_all_num = 0;
            for (int i = 0; i < 3; ++i)
                p.op_build();
            for (int i = 0; i < 5; ++i)
                r.chance(2, 3) ? p.op_persist() : p.op_move();
        }
        void verify(const char* kind)
        {
            for (auto& x : p.s)
                averify<KD>(x.c, x.m, domain, r.next() & 0xfffffff0, kind, "another value");
        }
    };
    // update forms
    struct fn_t
    {
        u64 k, result;
        template <typename U>
        auto operator()(U&& x) const
        {
            if constexpr (!KD::is_set) {
                fault().point(fault().on_fn, "callback");
                auto y = KD::umake(k, result);
                fault().point(fault().on_fn, "callback (late)");
                return y;
            }
        }
    };
    static int pick(rng& r)
    {
        auto op = int(r.below(13));
        return KD::is_set && op >= 4 && op < 8 ? op - 4 : op;
    }
    static const char* opname(int op)
    {
        static const char* n[] = {"insert", "erase", "insert (present)", "construct", "update", "update_if_exists", "set", "update (present)", "through a transient",
                                  "compare", "diff", "construct from a list", "construct from a range"};
        return n[op];
    }
    struct args
    {
        int op;
        u64 k, v, k1, k2;
        std::size_t a;
    };
    static args choose(rng& r, world& w)
    {
        args a;
        a.op = pick(r);
        a.a  = r.below(w.p.NS);
        for (int i = 0; i < 5 && w.p.s[a.a].m.size() < 3; ++i)
            a.a = (a.a + 1) % w.p.NS;
        auto& m = w.p.s[a.a].m;
        a.k     = r.below(w.domain);
        if (a.op != 0 && a.op != 4 && !m.empty() && r.chance(9, 10)) {
            auto it = m.lower_bound(a.k);
            a.k     = it == m.end() ? m.begin()->first : it->first;
        }
        a.v  = KD::norm(r.below(1000) * 5 + 2);
        a.k1 = (a.k + 1) % w.domain;
        a.k2 = (a.k + 2) % w.domain;
        return a;
    }
    static amodel result(const args& a, const amodel& m)
    {
        auto z = m;
        switch (a.op) {
        case 0:
        case 2:
        case 4:
        case 6:
        case 7: z[a.k] = a.v; break;
        case 1: z.erase(a.k); break;
        case 8:
            z[a.k] = a.v;
            z.erase(a.k1);
            z[a.k2] = a.v;
            break;
        case 11: z = {{a.k, a.v}, {a.k1, a.v}, {a.k2, a.v}}; break;
        case 5:
            if (z.count(a.k))
                z[a.k] = a.v;
            break;
        }
        return z;
    }
    template <typename X>
    static C op(const args& a, X&& x, const std::vector<typename KD::E>& src)
    {
        switch (a.op) {
        case 0:
        case 2: return std::forward<X>(x).insert(KD::make(a.k, a.v));
        case 1: return std::forward<X>(x).erase(KD::mkkey(a.k));
        case 3: return C(src.begin(), src.end());
        case 8: {
            auto t = x.transient();
            t.insert(KD::make(a.k, a.v));
            t.erase(KD::mkkey(a.k1));
            auto half = t.persistent();
            t.insert(KD::make(a.k2, a.v));
            return t.persistent();
        }
        case 9: {
            C other(src.begin(), src.end());
            if (!(other == x) || other != x)
                fail("equality", "equal contents compare unequal");
            return x;
        }
        case 10: {
            C other(src.begin(), src.end());
            int n = 0;
            auto f = [&](auto&&...) {
                fault().point(fault().on_fn, "callback");
                ++n;
            };
            immer::diff(x, other, f, f, f);
            if (n)
                fail("diff", "%d differences between equal values", n);
            immer::diff(C{}, x, f, f, f);
            if (std::size_t(n) != x.size())
                fail("diff", "%d differences of %zu", n, (std::size_t) x.size());
            return x;
        }
        case 11: return C{KD::make(a.k, a.v), KD::make(a.k1, a.v), KD::make(a.k2, a.v)};
        case 12:
            return from_range<C, false>(src.size(), [&](std::size_t i) {
                fault().point(fault().on_fn, "reading of a range");
                return src[i];
            }, unsigned(a.v / 5));
        }
        if constexpr (!KD::is_set) {
            switch (a.op) {
            case 4:
            case 7: return std::forward<X>(x).update(KD::mkkey(a.k), fn_t{a.k, a.v});
            case 5: return std::forward<X>(x).update_if_exists(KD::mkkey(a.k), fn_t{a.k, a.v});
            case 6:
                if constexpr (KD::is_map)
                    return std::forward<X>(x).set(KD::mkkey(a.k), KD::umake(a.k, a.v));
                else
                    return std::forward<X>(x).insert(KD::make(a.k, a.v));
            }
        }
        return x;
    }
    static void top(const args& a, Tr& t)
    {
        switch (a.op) {
        case 0:
        case 2: t.insert(KD::make(a.k, a.v)); return;
        case 1: t.erase(KD::mkkey(a.k)); return;
        }
        if constexpr (!KD::is_set) {
            switch (a.op) {
            case 4:
            case 7: t.update(KD::mkkey(a.k), fn_t{a.k, a.v}); break;
            case 5: t.update_if_exists(KD::mkkey(a.k), fn_t{a.k, a.v}); break;
            case 6:
                if constexpr (KD::is_map)
                    t.set(KD::mkkey(a.k), KD::umake(a.k, a.v));
                else
                    t.insert(KD::make(a.k, a.v));
            }
        }
    }

    static void persist_case(u64 seed, u64 domain)
    {
        world w{seed, domain};
        rng r{seed ^ 0x55};
        for (int rep = 0; rep < 4; ++rep) {
            auto a  = choose(r, w);
            auto& x = w.p.s[a.a];
            auto m  = a.op == 3 ? x.m : result(a, x.m);
            std::vector<typename KD::E> src;
            if (a.op == 3 || a.op == 9 || a.op == 10 || a.op == 12)
                for (auto& e : x.m)
                    src.push_back(KD::make(e.first, e.second));
            auto c0 = census::now();
            note("%s %s persistent size=%zu key=%llu hash=%s domain=%llu", KD::name, opname(a.op), x.m.size(), (unsigned long long) a.k, hash_name(hash_mode().mode), (unsigned long long) domain);
            u64 k = 1;
            for (;; ++k) {
                VT_CHECK(k < 20000, "endless", "%s never succeeds", opname(a.op));
                if (k > 400)
                    k += k / 4;
                status().op = k;
                bool f = faulty(k, [&] {
                    auto res = op(a, (const C&) x.c, src);
                    no_faults nf;
                    averify<KD>(res, m, domain, k * 5, "retry", "the operation tried again");
                });
                same_census(c0, opname(a.op));
                if (!f)
                    break;
                if (k % 4 == 0)
                    averify<KD>(x.c, x.m, domain, r.next(), "failed-persistent", "the operand");
            }
            w.verify("failed-persistent");
            sample(opname(a.op), x.m.size(), k - 1);
        }
    }
    static void inplace_case(u64 seed, u64 domain)
    {
        rng r0{seed ^ 0x77};
        auto share = r0.below(4);
        auto form  = r0.below(2);
        args a;
        u64 k = 1;
        std::size_t n = 0;
        for (;; ++k) {
            VT_CHECK(k < 5000, "endless", "%s never succeeds", opname(a.op));
            rng r = r0;
            world w{seed, domain};
            do
                a = choose(r, w);
            while (a.op == 3 || a.op >= 8);
            auto& x = w.p.s[a.a];
            n       = x.m.size();
            C keep;
            amodel keepm;
            auto m = result(a, x.m);
            status().op = k;
            note("%s %s in place (form %d) size=%zu key=%llu share=%d hash=%s domain=%llu", KD::name, opname(a.op), int(form), n, (unsigned long long) a.k, int(share), hash_name(hash_mode().mode), (unsigned long long) domain);
            C target = std::move(x.c);
            x.c      = C{};
            auto old = x.m;
            x.m.clear();
            x.unsnap();
            if (share == 1) {
                keep  = target;
                keepm = old;
            } else if (share >= 2) {
                // shared in parts: a sibling with one element more or less
                keepm   = old;
                auto kk = share == 2 ? r.below(domain) : a.k;
                if (keepm.count(kk)) {
                    keep = target.erase(KD::mkkey(kk));
                    keepm.erase(kk);
                } else {
                    keep      = target.insert(KD::make(kk, KD::norm(4)));
                    keepm[kk] = KD::norm(4);
                }
            }
            bool f;
            if (form == 0) {
                C res;
                f = faulty(k, [&] { res = op(a, std::move(target), {}); });
                if (!f) {
                    target = C{};
                    averify<KD>(res, m, domain, r.next(), "retry", "the operation without a fault");
                    break;
                }
                after_failure(target, old, a, domain, r);
            } else {
                Tr t   = std::move(target).transient();
                target = C{};
                f      = faulty(k, [&] { top(a, t); });
                if (!f) {
                    averify<KD>(t, m, domain, r.next(), "retry", "the operation without a fault");
                    break;
                }
                after_failure(t, old, a, domain, r);
            }
            if (share)
                averify<KD>(keep, keepm, domain, r.next(), "failed-inplace", "a value sharing structure");
            w.verify("failed-inplace");
            keep = C{};
            w.p.teardown();
        }
        sample(opname(a.op), n, k - 1);
    }
    static void put(C& c, u64 k, u64 v) { c = std::move(c).insert(KD::make(k, v)); }
    static void put(Tr& c, u64 k, u64 v) { c.insert(KD::make(k, v)); }
    static void del(C& c, u64 k) { c = std::move(c).erase(KD::mkkey(k)); }
    static void del(Tr& c, u64 k) { c.erase(KD::mkkey(k)); }
    template <typename X>
    static void after_failure(X& x, amodel old, const args& a, u64 domain, rng& r)
    {
        if (callback_failed() && old.count(a.k)) {
            // its key may be in a moved-from state too, where there is no
            // telling what a lookup finds
            VT_CHECK(x.size() == old.size(), "failed-inplace-contents", "the object operated on has size %zu", (std::size_t) x.size());
            x = X{};
            return;
        }
#if VT_STRONG
        averify<KD>(x, old, domain, r.next(), "failed-inplace-contents", "the object operated on");
        if (r.chance(1, 2)) {
            auto m = old;
            for (int i = 0; i < 3; ++i) {
                auto k = r.below(domain);
                put(x, k, KD::norm(6));
                m[k] = KD::norm(6);
                k    = r.below(domain);
                del(x, k);
                m.erase(k);
            }
            averify<KD>(x, m, domain, r.next(), "failed-inplace-use", "mutation after a failure");
        }
#else
        std::size_t n = 0;
        for (auto&& e : x)
            (void) e, ++n;
        VT_CHECK(n == x.size(), "failed-inplace-valid", "the object has size %zu and iterates over %zu elements", (std::size_t) x.size(), n);
#endif
        if (r.chance(1, 2))
            x = X{};
    }
    static void run(u64 seed, rng& r)
    {
        static const u64 domains[] = {4, 8, 16, 40, 90};
        auto domain = domains[r.below(5)];
        if (hash_mode().mode == 2 || hash_mode().mode == 3 || hash_mode().mode == 5)
            domain = std::min<u64>(domain, 16);
        if (g_persist)
            persist_case(seed, domain);
        if (g_inplace)
            inplace_case(seed, domain);
        expect_quiescent<MP>("after a failed operation and the end of all values");
    }
};

// ------------------------------------------------------------- box, atom

struct box_fault
{
    using B = immer::box<T, MP>;
    using E = elem<T>;
    struct fn_t
    {
        u64 result;
        T operator()(T x) const
        {
            fault().point(fault().on_fn, "callback");
            auto y = E::make(result);
            fault().point(fault().on_fn, "callback (late)");
            return y;
        }
    };
    static void run(rng& r)
    {
        for (int op = 0; op < 5; ++op)
            for (int share = 0; share < 2; ++share)
                for (u64 k = 1;; ++k) {
                    auto v = r.below(1000);
                    T src  = E::make(v);
                    B b{E::make(v)};
                    B other;
                    if (share)
                        other = b;
                    B res;
                    auto c0     = census::now();
                    status().op = k;
                    note("box op=%d share=%d", op, share);
                    auto run = [&] {
                        switch (op) {
                        case 0: res = B{src}; break;
                        case 1: res = B{E::make(v + 1)}; break;
                        case 2: res = b.update(fn_t{v + 1}); break;
                        case 3: res = std::move(b).update(fn_t{v + 1}); break;
                        case 4: res = B{}; break;
                        }
                    };
                    if ((op == 3) ? !g_inplace : !g_persist)
                        break;
                    bool f = faulty(k, run);
                    if (f) {
                        same_census(c0, "box");
                        if (op == 3 && (callback_failed() || !VT_STRONG))
                            b = B{E::make(v)};
                        VT_CHECK(E::get(*b) == E::norm(v), "failed-inplace-contents", "the box operated on has changed");
                        if (share)
                            VT_CHECK(E::get(*other) == E::norm(v), "failed-inplace", "a box sharing the content has changed");
                        run();
                    }
                    auto want = op == 0 ? v : op == 4 ? 0 : v + 1;
                    VT_CHECK(E::get(*res) == E::norm(want), "retry", "box operation gives %llu", (unsigned long long) E::get(*res));
                    if (share)
                        VT_CHECK(E::get(*other) == E::norm(v), "failed-inplace", "a box sharing the content has changed");
                    if (op == 3)
                        b = B{};
                    sample("box", 1, op * 10 + share);
                    if (!f)
                        break;
                }
        // atom
        for (int op = 0; op < 3; ++op)
            for (u64 k = 1;; ++k) {
                if (!g_persist)
                    break;
                auto v = r.below(1000);
                immer::atom<T, MP> a{B{E::make(v)}};
                B b        = a.load();
                auto c0    = census::now();
                note("atom op=%d", op);
                auto run = [&] {
                    switch (op) {
                    case 0: a.store(E::make(v + 1)); break;
                    case 1: a.exchange(E::make(v + 1)); break;
                    case 2: a.update(fn_t{v + 1}); break;
                    }
                };
                bool f = faulty(k, run);
                if (f) {
                    same_census(c0, "atom");
                    VT_CHECK(E::get(*a.load()) == E::norm(v), "failed-inplace-contents", "the atom has changed");
                    run();
                }
                VT_CHECK(E::get(*a.load()) == E::norm(v + 1), "retry", "atom operation has no effect");
                VT_CHECK(E::get(*b) == E::norm(v), "failed-inplace", "a box taken from the atom has changed");
                if (!f)
                    break;
            }
        expect_quiescent<MP>("after a failed box operation and the end of all boxes");
    }
};

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    g_persist = args.mode == "persist";
    g_inplace = args.mode == "inplace";
    fault().on_move = !VT_STRONG;
    {
        V v; F f; A a;
        auto vt = V{}.transient();
        auto ft = F{}.transient();
        auto at = A{}.transient();
        typename S::C s; typename M::C m; typename TB::C t;
        auto st  = typename S::C{}.transient();
        auto mt  = typename M::C{}.transient();
        auto tt  = typename TB::C{}.transient();
        (void) m[M::mkkey(1)];
        (void) t[TB::mkkey(1)];
        immer::box<T, MP> b;
    }
    warmed_up<MP>();
    std::vector<int> kinds;
#if VT_V
    kinds.push_back(0);
#endif
#if VT_F
    kinds.push_back(1), kinds.push_back(1);
#endif
#if VT_A
    kinds.push_back(2);
#endif
#if VT_SET
    kinds.push_back(3);
#endif
#if VT_MAP
    kinds.push_back(4);
#endif
#if VT_TABLE
    kinds.push_back(5);
#endif
#if VT_BOX
    kinds.push_back(6);
#endif
    args.run([&](rng& r, u64 i) {
        hash_mode().mode = int(r.below(HASH_MODES));
        hash_mode().salt = r.next();
        auto seed        = r.next();
        switch (kinds[i % kinds.size()]) {
#if VT_V
        case 0: seq_fault<V>::run(seed, r); break;
#endif
#if VT_F
        case 1: seq_fault<F>::run(seed, r); break;
#endif
#if VT_A
        case 2: seq_fault<A>::run(seed, r); break;
#endif
#if VT_SET
        case 3: assoc_fault<S>::run(seed, r); break;
#endif
#if VT_MAP
        case 4: assoc_fault<M>::run(seed, r); break;
#endif
#if VT_TABLE
        case 5: assoc_fault<TB>::run(seed, r); break;
#endif
#if VT_BOX
        case 6:
            if (i % 64 == 6 || i < 8 || kinds.size() == 1)
                box_fault::run(r);
            break;
#endif
        }
    });
    stats().add("evaluations", g_faults + g_cases);
    stats().add("faults_injected", g_faults);
    stats().add("operations_exhausted", g_cases);
    stats().max("fault_points_in_one_operation", g_points_max);
    stats().dump();
}
