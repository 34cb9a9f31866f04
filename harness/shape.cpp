// Trees stay balanced and compact, and give memory back.
//   VT_T VT_MP VT_B VT_BL (sequences), VT_HB (hashed)
// modes: search (depth, adversarially), churn (memory of one value over a
// long life), hashed
#include "assoc_world.hpp"
#include "seq_world.hpp"
#include <cmath>
#include <immer/algorithm.hpp>

#ifndef VT_T
#define VT_T vt::u64
#endif
#ifndef VT_MP
#define VT_MP vt::mp_mon
#endif
#ifndef VT_B
#define VT_B 3
#endif
#ifndef VT_BL
#define VT_BL 2
#endif
#ifndef VT_HB
#define VT_HB 5
#endif
using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using V  = immer::vector<T, MP, VT_B, VT_BL>;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;

static constexpr double M  = double(u64{1} << VT_B);
static constexpr double ML = double(u64{1} << VT_BL);

static u64 g_eval = 0;
static u64 allocs() { return mon_heap<>::st().allocs; }
static i64 bytes0 = 0;
static u64 live_bytes() { return u64(mon_heap<>::st().live_bytes - bytes0); }
static T mk(u64 v) { return elem<T>::make(v); }

// blocks on the way to an element: those that path copying allocates
template <typename C>
static u64 depth(const C& c)
{
    if (c.empty())
        return 0;
    auto a = allocs();
    auto w = c.set(0, mk(1));
    a      = allocs() - a;
    return a;
}

static double ideal(double n) { return std::log2(std::max(1., n / ML)) / VT_B; }
static double allowed_depth(double n)
{
    // width of nodes that are as empty as the rebalancing may leave them
    return 4 + 1.8 * std::log2(std::max(1., n / ML)) / (VT_B == 2 ? 1.7 : VT_B == 3 ? 2.7 : VT_B);
}
static void check_depth(u64 d, u64 n, const char* what)
{
    ++g_eval;
    if (d > allowed_depth(double(n)))
        fail("depth", "%s: %llu nodes on the way to an element of %llu, %.1f allowed", what, (unsigned long long) d, (unsigned long long) n, allowed_depth(double(n)));
    stats().max("depth", d);
    if (stats().sampling())
        stats().sample(std::string(what) + ": depth " + std::to_string(d) + " of " + std::to_string(n) + " elements");
    stats().max("depth_percent_of_allowed", u64(d * 100 / allowed_depth(double(n))));
    stats().max("depth_over_ideal_times_10", u64(std::max(0., (double(d) - ideal(double(n))) * 10)));
    stats().see(hash_bytes(&d, sizeof d, u64(std::log2(n + 1) * 8)));
}

// ----------------------------------------------------------------- search

// A population that evolves towards deep trees, by joining and cutting.
static void search(rng& r)
{
    struct cand
    {
        F f;
        u64 d;
        double score;
        u64 big; // the largest size in its history
    };
    std::vector<cand> pop;
    double cap = double(u64(1) << (r.chance(1, 2) ? 6 + r.below(12) : 6 + r.below(28)));
    cap        = std::min(cap, double(F::max_size()) / 8);
    auto mkc   = [&](F f, u64 big, const char* what) {
        auto n = f.size();
        auto d = depth(f);
        big    = std::max<u64>(n, big);
        check_depth(d, big, what);
        pop.push_back({std::move(f), d, double(d) - ideal(double(big)), big});
    };
    for (int k = 0; k < 3; ++k) {
        auto t = F{}.transient();
        for (u64 i = 0, e = 1 + r.below(60); i < e; ++i)
            t.push_back(mk(i));
        mkc(std::move(t).persistent(), 0, "start");
    }
    auto style = r.below(4); // which operations prevail
    for (int s = 0; s < 700; ++s) {
        status().op = s;
        auto& cx    = r.pick(pop);
        auto& cy    = r.pick(pop);
        auto& x     = cx.f;
        auto& y     = cy.f;
        auto big    = std::max(cx.big, cy.big);
        F f;
        const char* what = "";
        auto n           = x.size();
        auto k           = r.below(12);
        if (style == 1 && k >= 8)
            k = r.below(2) ? 0 : 5;
        if (style == 2 && k >= 8)
            k = r.below(2) ? 4 : 5;
        note("step %d: %llu, %zu elements and %zu", s, (unsigned long long) k, x.size(), y.size());
        switch (k) {
        case 0: f = x + y; what = "concatenation"; break;
        case 1: {
            auto a = r.below(n + 1), b = r.below(n + 1);
            if (a > b)
                std::swap(a, b);
            f    = x.take(b).drop(a);
            what = "slice";
            break;
        }
        case 2: f = x.insert(r.below(n + 1), y); what = "insert of many"; break;
        case 3: {
            auto a = r.below(n + 1);
            f      = x.erase(a, a + std::min<u64>(n - a, r.below(64)));
            what   = "erase of a range";
            break;
        }
        case 4:
            f = x;
            while (double(f.size()) < cap / 2 && !f.empty())
                f = f + f;
            big  = std::max<u64>(big, f.size());
            what = "doubling";
            break;
        case 5: {
            // a small piece from the middle
            u64 p = n / 2, w = 1 + r.below(4 * u64(ML));
            f    = x.take(p + w).drop(p > w ? p - w : 0);
            what = "cutting out the middle";
            break;
        }
        case 6:
            f = x;
            for (u64 i = 1 + r.below(4); i--;)
                f = r.below(2) ? f.push_front(mk(1)) : f.push_back(mk(2));
            what = "pushing";
            break;
        case 7: f = F{x}.erase(n ? r.below(n) : 0, n ? n : 0); what = "erasing to the end"; break;
        case 8: {
            auto t = x.transient();
            auto u = y.transient();
            if (r.chance(1, 2))
                t.append(u);
            else
                t.prepend(u);
            f    = std::move(t).persistent();
            what = "joining transients";
            break;
        }
        case 9: {
            auto t = x.transient();
            t.drop(r.size(n));
            t.take(r.size(t.size()));
            f    = std::move(t).persistent();
            what = "slicing a transient";
            break;
        }
        case 10: f = n ? x.erase(r.below(n)) : x; what = "erase"; break;
        default: f = x.insert(r.below(n + 1), mk(3)); what = "insert"; break;
        }
        if (f.empty() || double(f.size()) > cap)
            continue;
        mkc(std::move(f), big, what);
        if (pop.size() > 60) {
            std::sort(pop.begin(), pop.end(), [](auto& a, auto& b) { return a.score > b.score; });
            std::vector<cand> q(pop.begin(), pop.begin() + 14);
            for (int i = 0; i < 12; ++i)
                q.push_back(pop[14 + r.below(pop.size() - 14)]);
            pop.swap(q);
        }
    }
}

// Doubling and cutting a small piece out of the middle, always the deepest.
static void ratchet(rng& r)
{
    F a;
    for (u64 i = 0, e = 10 + r.below(60); i < e; ++i)
        a = a.push_back(mk(i));
    auto dbl  = 8 + r.below(r.chance(1, 2) ? 8 : 24);
    while ((u64(1) << dbl) > F::max_size() / 8)
        --dbl;
    auto w    = 1 + r.below(4 * u64(ML));
    auto mode = r.below(4);
    u64 big   = 0;
    for (int k = 0; k < 40; ++k) {
        status().op = k;
        note("ratchet: cycle %d, up to 2^%llu, width %llu, mode %llu", k, (unsigned long long) dbl, (unsigned long long) w, (unsigned long long) mode);
        while (a.size() < (u64(1) << dbl)) {
            a = a + a;
            if (mode == 1)
                a = a.push_front(mk(1));
            if (mode == 2 && r.below(2))
                a = a.erase(r.below(a.size()));
            if (mode == 3) {
                auto t = a.transient();
                t.push_back(mk(3));
                a = std::move(t).persistent();
            }
        }
        big = std::max<u64>(big, a.size());
        check_depth(depth(a), big, "doubled");
        F best;
        u64 bd = 0;
        for (int t = 0; t < 24; ++t) {
            u64 p = t < 12 ? a.size() / 2 - 6 + t : w + r.below(a.size() - 2 * w);
            if (p < w)
                continue;
            F x = a.take(p + w).drop(p - w);
            u64 d;
            if (best.empty() || (d = depth(x)) > bd)
                best = x, bd = depth(x);
        }
        if (best.empty())
            break;
        a = best;
        check_depth(bd, big, "cut");
    }
}

// ------------------------------------------------------------------ churn

// bytes that a value alone may hold
static double allowed_bytes(double n, double big)
{
    // leaves at least half full on the average, inner nodes of all sizes
    double leaf  = ML * sizeof(T) + 48;
    double inner = M * (8 + 8) + 160;
    double leaves = 1.3 * n / ML + 3;
    return leaves * leaf + (leaves / M * 2 + 2 + 1.5 * allowed_depth(big)) * inner;
}
template <typename C>
static void check_bytes(const C& c, u64 big, const char* what)
{
    ++g_eval;
    auto b = live_bytes();
    auto a = allowed_bytes(double(c.size()), std::max(double(c.size()), double(big)));
    if (b > a)
        fail("memory", "%s: %llu bytes are held for %llu elements, %.0f allowed", what, (unsigned long long) b, (unsigned long long) c.size(), a);
    stats().max("bytes_percent_of_allowed", u64(b * 100 / a));
    if (stats().sampling())
        stats().sample(std::string(what) + ": " + std::to_string(b) + " bytes for " + std::to_string(c.size()) + " elements");
    stats().see(hash_bytes(what, std::strlen(what), u64(std::log2(c.size() + 1) * 4) * 64 + u64(b * 32 / a)));
}

template <typename C>
static C filled(rng& r, u64 n)
{
    auto t = C{}.transient();
    for (u64 i = 0; i < n; ++i)
        t.push_back(mk(i));
    return std::move(t).persistent();
}

static void churn_flex(rng& r)
{
    F f;
    u64 big   = 0;
    auto cap  = 20 + r.below(r.chance(1, 2) ? 300 : 6000);
    auto many = r.below(3);
    bool grow = true;
    for (int s = 0; s < 1200; ++s) {
        status().op = s;
        auto n      = f.size();
        if (n > cap)
            grow = false;
        if (n < cap / 16)
            grow = true;
        auto k           = r.below(12);
        const char* what = "";
        auto len         = many == 0 ? 1 + r.below(3) : many == 1 ? 1 + r.below(30) : 1 + r.size(cap / 4);
        note("churn: step %d, %zu elements, operation %llu", s, (std::size_t) n, (unsigned long long) k);
        bool mv = r.chance(1, 2);
        auto x  = [&](auto&& op) {
            if (mv) {
                f = op(std::move(f));
            } else {
                const F& g = f;
                f          = op(g);
            }
        };
        if (grow) {
            switch (k % 6) {
            case 0: x([&](auto&& g) { return std::forward<decltype(g)>(g).push_back(mk(1)); }); what = "push_back"; break;
            case 1: x([&](auto&& g) { return std::forward<decltype(g)>(g).push_front(mk(1)); }); what = "push_front"; break;
            case 2: x([&](auto&& g) { return std::forward<decltype(g)>(g) + filled<F>(r, len); }); what = "append"; break;
            case 3: x([&](auto&& g) { return filled<F>(r, len) + std::forward<decltype(g)>(g); }); what = "prepend"; break;
            case 4: x([&](auto&& g) { return g.insert(r.below(n + 1), filled<F>(r, len)); }); what = "insert of many"; break;
            default: x([&](auto&& g) { return g.insert(r.below(n + 1), mk(2)); }); what = "insert"; break;
            }
        } else {
            switch (k % 5) {
            case 0: x([&](auto&& g) { return std::forward<decltype(g)>(g).take(n - std::min<u64>(n, len)); }); what = "take"; break;
            case 1: x([&](auto&& g) { return std::forward<decltype(g)>(g).drop(std::min<u64>(n, len)); }); what = "drop"; break;
            case 2: {
                auto a = r.below(n + 1);
                x([&](auto&& g) { return g.erase(a, a + std::min<u64>(n - a, len)); });
                what = "erase of a range";
                break;
            }
            case 3:
                if (n)
                    x([&](auto&& g) { return g.erase(r.below(n)); });
                what = "erase";
                break;
            default: {
                auto t = f.transient();
                f      = F{};
                t.take(n - std::min<u64>(n, len));
                t.drop(std::min<u64>(t.size(), len));
                f    = std::move(t).persistent();
                what = "slicing a transient";
                break;
            }
            }
        }
        big = std::max<u64>(big, f.size());
        check_bytes(f, big, what);
        if (s % 8 == 0)
            check_depth(depth(f), big, what);
    }
    // slicing down releases what goes
    switch (r.below(3)) {
    case 0:
        while (!f.empty()) {
            auto n = f.size();
            f      = r.chance(1, 2) ? f.take(n / 3) : f.drop(n - n / 3);
            check_bytes(f, big, "slicing down");
            check_depth(depth(f), big, "slicing down");
        }
        break;
    case 1:
        while (!f.empty()) {
            auto n = f.size();
            f      = r.chance(1, 2) ? std::move(f).take(n / 2) : std::move(f).drop(n - n / 2);
            check_bytes(f, big, "slicing down in place");
        }
        break;
    default:
        while (!f.empty()) {
            auto n = f.size();
            f      = f.erase(0, 1 + r.below(n));
            check_bytes(f, big, "erasing down");
        }
    }
    f = F{};
}

static void churn_vector(rng& r)
{
    auto n = r.size(r.chance(1, 2) ? 400 : 20000);
    V v    = filled<V>(r, n);
    check_bytes(v, 0, "vector: filled");
    for (int s = 0; s < 60; ++s) {
        auto m = v.size();
        auto k = r.size(m);
        note("vector: step %d, %zu elements, %llu", s, (std::size_t) m, (unsigned long long) k);
        switch (r.below(5)) {
        case 0: v = v.take(k); break;
        case 1: v = std::move(v).take(k); break;
        case 2: {
            auto t = v.transient();
            v      = V{};
            t.take(k);
            v = std::move(t).persistent();
            break;
        }
        case 3:
            for (u64 i = 0, e = r.below(200); i < e; ++i)
                v = v.push_back(mk(i));
            break;
        default:
            for (u64 i = 0, e = r.below(m + 20); i < e; ++i)
                v = std::move(v).push_back(mk(i));
        }
        check_bytes(v, 0, "vector");
        // regular trees are as shallow as can be
        auto d = depth(v);
        ++g_eval;
        double least = 1 + std::ceil(std::max(0., std::log2(std::max(1., double(v.size()) / ML)) / VT_B));
        if (!v.empty() && d > least + 1)
            fail("depth", "vector: %llu nodes on the way to an element of %zu", (unsigned long long) d, v.size());
    }
}

// ----------------------------------------------------------------- hashed

template <typename KD>
static typename KD::C put(typename KD::C c, u64 k, u64 v, bool mv)
{
    if constexpr (KD::is_set || KD::is_table) {
        if (mv)
            return std::move(c).insert(KD::make(k, v));
        const auto& cc = c;
        return cc.insert(KD::make(k, v));
    } else {
        if (mv)
            return std::move(c).set(KD::mkkey(k), elem<typename KD::T>::make(v));
        const auto& cc = c;
        return cc.set(KD::mkkey(k), elem<typename KD::T>::make(v));
    }
}

template <typename KD>
static void canonical(rng& r)
{
    using C = typename KD::C;
    // no complete collisions, whose order is up to the history
    std::vector<int> modes{0, 1, 4};
    hash_mode().mode = r.pick(modes);
    hash_mode().salt = r.next();
    u64 span         = hash_mode().mode == 4 ? 60 : 1 + r.size(r.chance(1, 2) ? 100 : 4000);
    u64 stride       = hash_mode().mode == 1 ? u64(1) << r.below(48) : 1;
    if (r.chance(1, 3))
        stride |= 1;
    auto key = [&](u64 i) { return hash_mode().mode == 4 ? i : i * stride; };
    C c;
    std::map<u64, u64> m;
    bool grow = true;
    for (u64 s = 0, e = 2 * span + 60; s < e; ++s) {
        status().op = s;
        note("%s: step %llu of %llu, %zu elements of %llu, hash %s", KD::name, (unsigned long long) s, (unsigned long long) e, m.size(), (unsigned long long) span, hash_name(hash_mode().mode));
        if (m.size() >= span * 3 / 4)
            grow = false;
        if (m.size() <= span / 8)
            grow = true;
        auto i  = r.below(span);
        auto mv = r.chance(1, 2);
        auto v  = r.below(9);
        if (r.chance(grow ? 3 : 1, 4)) {
            if (r.chance(1, 6)) {
                auto t = c.transient();
                c      = C{};
                if constexpr (KD::is_set || KD::is_table)
                    t.insert(KD::make(key(i), v));
                else
                    t.set(KD::mkkey(key(i)), elem<typename KD::T>::make(v));
                c = std::move(t).persistent();
            } else
                c = put<KD>(std::move(c), key(i), v, mv);
            m[i] = v;
        } else {
            if (r.chance(1, 6)) {
                auto t = c.transient();
                c      = C{};
                t.erase(KD::mkkey(key(i)));
                c = std::move(t).persistent();
            } else if (mv)
                c = std::move(c).erase(KD::mkkey(key(i)));
            else {
                const C& cc = c;
                c           = cc.erase(KD::mkkey(key(i)));
            }
            m.erase(i);
        }
        if (s + 1 == e || r.chance(1, 40)) {
            // the same contents, put there at once
            auto held   = live_bytes();
            auto blocks = mon_heap<>::st().live_blocks.load();
            std::vector<u64> order;
            for (auto& x : m)
                order.push_back(x.first);
            for (auto j = order.size(); j > 1; --j)
                std::swap(order[j - 1], order[r.below(j)]);
            C d;
            bool dm = r.chance(1, 2);
            for (auto j : order)
                d = put<KD>(std::move(d), key(j), m[j], dm);
            auto fresh   = live_bytes() - held;
            auto fblocks = mon_heap<>::st().live_blocks.load() - blocks;
            ++g_eval;
            auto a = c.begin();
            auto b = d.begin();
            for (; b != d.end(); ++a, ++b)
                if (!(a != c.end()) || KD::key(*a) != KD::key(*b))
                    fail("shape", "%s of %zu elements: iteration order depends on the history", KD::name, m.size());
            if (a != c.end())
                fail("shape", "%s of %zu elements: iteration goes on", KD::name, m.size());
            auto had = blocks - block_baseline();
            if (i64(had) > i64(fblocks) + 1)
                fail("shape", "%s of %zu elements holds %lld blocks, a fresh one %lld", KD::name, m.size(), (long long) had, (long long) fblocks);
            if (held > fresh + 64)
                fail("shape", "%s of %zu elements holds %llu bytes, a fresh one %llu", KD::name, m.size(), (unsigned long long) held, (unsigned long long) fresh);
            stats().max("hashed_bytes_percent_of_fresh", fresh ? held * 100 / (fresh + 64) : 0);
            stats().see(hash_bytes(KD::name, 3, m.size() * 1000003 + blocks));
            stats().add("shapes_compared");
            if (stats().sampling())
                stats().sample(std::string(KD::name) + " of " + std::to_string(m.size()) + " elements: " + std::to_string(held) + " bytes, fresh " + std::to_string(fresh));
        }
    }
    // emptied element by element
    for (auto& x : m)
        c = r.chance(1, 2) ? std::move(c).erase(KD::mkkey(key(x.first))) : c.erase(KD::mkkey(key(x.first)));
    ++g_eval;
    auto b = live_bytes();
    if (!c.empty() || b > 128)
        fail("shape", "%s: %llu bytes are held after erasing all elements", KD::name, (unsigned long long) b);
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    using S = set_kind<T, MP, VT_HB>;
    using P = map_kind<T, T, MP, VT_HB>;
    using Q = table_kind<T, T, MP, VT_HB>;
    {
        V v; F f;
        (void) V{}.transient(), (void) F{}.transient();
        S::C s; P::C m; Q::C t;
    }
    warmed_up<MP>();
    bytes0 = mon_heap<>::st().live_bytes;
    args.run([&](rng& r, u64) {
        if (args.mode == "search") {
            if (r.chance(1, 2))
                search(r);
            else
                ratchet(r);
        } else if (args.mode == "churn") {
            if (r.chance(2, 3))
                churn_flex(r);
            else
                churn_vector(r);
        } else {
            switch (r.below(3)) {
            case 0: canonical<S>(r); break;
            case 1: canonical<P>(r); break;
            case 2: canonical<Q>(r); break;
            }
        }
        expect_quiescent<MP>("after all values are gone");
    });
    stats().add("evaluations", g_eval);
    stats().add("heap_allocations", allocs());
    stats().dump();
}
