// What operations cost: blocks allocated, elements copied and moved,
// comparisons and hashes made, against bounds that follow from the depth of
// the trees and the width of their nodes, never from the size of the values.
//   VT_T VT_MP VT_B VT_BL (sequences), VT_HB (hashed)
#include "assoc_world.hpp"
#include "seq_world.hpp"
#include <cmath>
#include <immer/algorithm.hpp>
#include <set>

#ifndef VT_T
#define VT_T vt::tracked<>
#endif
#ifndef VT_MP
#define VT_MP vt::mp_mon
#endif
#ifndef VT_B
#define VT_B 3
#endif
#ifndef VT_BL
#define VT_BL 2
#endif
#ifndef VT_HB
#define VT_HB 5
#endif
using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using V  = immer::vector<T, MP, VT_B, VT_BL>;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;
using A  = immer::array<T, MP>;

static constexpr u64 M  = u64{1} << VT_B;
static constexpr u64 ML = u64{1} << VT_BL;
static constexpr bool in_place_rvalues = MP::use_transient_rvalues;
static constexpr bool in_place         = is_counted<MP>::value || std::is_same<typename MP::transience, immer::gc_transience_policy>::value;

struct cost
{
    u64 allocs, copies, moves, eq;
};
static u64 allocs() { return mon_heap<>::st().allocs + arena_heap<>::st().allocs; }

template <typename Fn>
static cost measure(Fn&& fn)
{
    auto& f = fault();
    f.on_alloc = f.on_copy = f.on_move = f.on_fn = f.on_hash = false;
    f.on_eq = true;
    f.arm(~u64{0});
    auto a = allocs();
    auto c = life().copies.load(), m = life().moves.load();
    fn();
    f.disarm();
    return {allocs() - a, life().copies - c, life().moves - m, f.seen};
}

static u64 g_eval = 0;

// `x` of what `op` cost may not be above `bound`
static void within(const char* op, const char* what, u64 x, u64 bound, u64 n)
{
    ++g_eval;
    if (x > bound)
        fail("cost", "%s on %llu elements: %llu %s, at most %llu are due", op, (unsigned long long) n, (unsigned long long) x, what, (unsigned long long) bound);
    // how close it gets, in percent
    if (bound > 0) {
        char b[120];
        std::snprintf(b, sizeof b, "%s_%s_percent_of_bound", op, what);
        for (auto p = b; *p; ++p)
            if (*p == ' ' || *p == '(' || *p == ')')
                *p = '_';
        stats().max(b, x * 100 / bound);
    }
    if (stats().sampling())
        stats().sample(std::string(op) + " on " + std::to_string(n) + " elements: " + std::to_string(x) + " " + what + ", at most " + std::to_string(bound));
    stats().see(hash_bytes(op, std::strlen(op), hash_bytes(what, std::strlen(what), std::min<u64>(x, 64) * 64 + (n ? std::ilogb(double(n)) : 0))));
}

// nodes from the root to an element: what a tree filled by at least half
// could need, and some
static u64 height(u64 n)
{
    double leaves = double(n) / ML + 1;
    double h      = std::log2(leaves) / (VT_B > 2 ? VT_B - 1 : VT_B * 0.6);
    return u64(h) + 4;
}

static T mk(u64 v) { return elem<T>::make(v); }

template <typename C>
static C build(rng& r, u64 n, bool relaxed);

template <>
V build<V>(rng& r, u64 n, bool)
{
    auto t = V{}.transient();
    for (u64 i = 0; i < n; ++i)
        t.push_back(mk(i));
    return std::move(t).persistent();
}
template <>
F build<F>(rng& r, u64 n, bool relaxed)
{
    auto fill = [&](u64 k) {
        auto t = F{}.transient();
        for (u64 i = 0; i < k; ++i)
            t.push_back(mk(r.next() & 0xffff));
        return std::move(t).persistent();
    };
    if (!relaxed)
        return fill(n);
    // pieces that are never used twice, so that every node has one owner
    F v = fill(r.below(n + 1));
    while (v.size() < n) {
        auto k = 1 + r.below(r.chance(1, 2) ? n : 40);
        auto p = fill(k);
        switch (r.below(5)) {
        case 0: v = v + p; break;
        case 1: v = p + v; break;
        case 2: v = v.insert(r.below(v.size() + 1), p); break;
        case 3: {
            auto a = r.below(v.size() + 1);
            v      = v.erase(a, a + std::min<u64>(r.below(20), v.size() - a));
            break;
        }
        default: v = v.push_front(mk(1)); break;
        }
    }
    if (r.chance(1, 2))
        v = v.take(n);
    else
        v = v.drop(v.size() - n);
    return v;
}

template <typename C>
static void sequences(rng& r)
{
    constexpr bool flex = traits<C>::flex;
    auto n              = r.chance(1, 4) ? r.below(100) : u64(1) << r.below(16);
    n += r.below(n / 2 + 1);
    auto relaxed = flex && r.chance(2, 3);
    note("%s of %llu%s", traits<C>::name, (unsigned long long) n, relaxed ? ", relaxed" : "");
    C v       = build<C>(r, n, relaxed);
    n         = v.size();
    auto h    = height(n);
    auto name = [&](const char* s) { return s; };
    (void) name;
    stats().max(relaxed ? "relaxed_size" : "regular_size", n);

    // values share their structure: copies are free
    {
        auto c = measure([&] {
            C w{v};
            C x;
            x = w;
            C y{std::move(w)};
            w = std::move(y);
        });
        within("copying a value", "allocs", c.allocs, 0, n);
        within("copying a value", "copies", c.copies, 0, n);
        within("copying a value", "moves", c.moves, 0, n);
    }
    // lookups
    if (n) {
        u64 s  = 0;
        auto c = measure([&] {
            for (int k = 0; k < 20; ++k)
                s += elem<T>::get(v[r.below(n)]);
            s += elem<T>::get(v.back()) + elem<T>::get(v.front()) + elem<T>::get(v.at(n - 1));
            auto it = v.begin();
            it += r.below(n);
            s += elem<T>::get(*it);
            for (auto& x : v) {
                s += elem<T>::get(x);
                if (s % 64 == 0)
                    break;
            }
            immer::for_each(v, [&](auto& x) { s += elem<T>::get(x); });
        });
        within("reading", "allocs", c.allocs, 0, n);
        within("reading", "copies", c.copies, 0, n);
    }
    // path copying
    for (int k = 0; k < 6; ++k) {
        C w;
        if (n) {
            auto i = r.size(n - 1);
            auto x = mk(7);
            auto c = measure([&] { w = v.set(i, std::move(x)); });
            within("set", "allocs", c.allocs, h, n);
            within("set", "copies", c.copies, ML, n);
            c = measure([&] { w = v.update(i, [](auto&& y) { return mk(elem<T>::get(y) + 1); }); });
            within("update", "allocs", c.allocs, h, n);
            within("update", "copies", c.copies, ML, n);
        }
        {
            auto x = mk(7);
            auto c = measure([&] { w = v.push_back(std::move(x)); });
            within("push_back", "allocs", c.allocs, 2 * h, n);
            within("push_back", "copies", c.copies, ML, n);
        }
        {
            auto i = r.size(n);
            auto c = measure([&] { w = v.take(i); });
            within("take", "allocs", c.allocs, 2 * h, n);
            within("take", "copies", c.copies, 2 * ML, n);
        }
        if constexpr (flex) {
            auto i = r.size(n);
            auto c = measure([&] { w = v.drop(i); });
            within("drop", "allocs", c.allocs, 2 * h, n);
            within("drop", "copies", c.copies, 2 * ML, n);
            // what the nodes that a concatenation may redistribute hold
            auto cat = [&](u64 g) { return std::make_pair(g / 2 * (2 * M + 3), ML * (2 * M + 3)); };
            auto x   = mk(7);
            c        = measure([&] { w = v.push_front(std::move(x)); });
            auto b   = cat(2 * height(n + 1));
            within("push_front", "allocs", c.allocs, b.first, n);
            within("push_front", "copies", c.copies, b.second, n);
            auto other = build<F>(r, u64(1) << r.below(14), r.chance(1, 2));
            b          = cat(2 * height(n + other.size()));
            c          = measure([&] { w = v + other; });
            within("concatenation", "allocs", c.allocs, b.first, n + other.size());
            within("concatenation", "copies", c.copies, b.second, n + other.size());
            c = measure([&] { w = v + v; });
            within("concatenation with itself", "allocs", c.allocs, cat(2 * height(2 * n)).first, 2 * n);
            within("concatenation with itself", "copies", c.copies, b.second, 2 * n);
            {
                // the same through transients, of what is shared
                auto tv = v.transient();
                auto tw = other.transient();
                auto sz = n + other.size();
                c       = measure([&] { tv.append(tw); });
                within("appending a transient", "allocs", c.allocs, height(sz) * (2 * M + 3) + 2, sz);
                within("appending a transient", "copies", c.copies, b.second, sz);
                auto tx = v.transient();
                c       = measure([&] { tx.prepend(std::move(tw)); });
                within("prepending a transient", "allocs", c.allocs, height(sz) * (2 * M + 3) + 2, sz);
                within("prepending a transient", "copies", c.copies, b.second, sz);
                if (tv.size() != sz || tx.size() != sz)
                    fail("cost", "a size is wrong");
            }
            {
                auto u = build<V>(r, n, false);
                c      = measure([&] {
                    F a{u};
                    F b{std::move(u)};
                    w = a;
                });
                within("conversion from a vector", "allocs", c.allocs, 0, n);
                within("conversion from a vector", "copies", c.copies, 0, n);
                auto tu = w.transient();
                c       = measure([&] { auto tt = std::move(tu); });
                within("moving a transient", "allocs", c.allocs, 2, n);
                within("moving a transient", "copies", c.copies, 0, n);
            }
            // two slices and two concatenations
            b = cat(6 * height(n + other.size()));
            x = mk(7);
            c = measure([&] { w = v.insert(i, std::move(x)); });
            within("insert", "allocs", c.allocs, b.first, n);
            within("insert", "copies", c.copies, 3 * b.second, n);
            c = measure([&] { w = v.insert(i, other); });
            within("insert of many", "allocs", c.allocs, b.first, n + other.size());
            within("insert of many", "copies", c.copies, 3 * b.second, n + other.size());
            auto j = i + r.size(n - i);
            c      = measure([&] { w = v.erase(i, j); });
            within("erase", "allocs", c.allocs, b.first, n);
            within("erase", "copies", c.copies, 2 * b.second, n);
        }
    }
    // comparing
    {
        auto w = v;
        auto c = measure([&] {
            if (!(v == w))
                fail("cost", "a copy is not equal");
        });
        within("comparing copies", "comparisons", c.eq, 0, n);
        auto k = n ? r.below(8) : 0;
        for (u64 i = 0; i < k; ++i) {
            auto at = r.size(n - 1);
            w       = w.set(at, T{v[at]});
        }
        c = measure([&] {
            if (!(v == w))
                fail("cost", "a value with equal elements is not equal");
        });
        within("comparing after updates", "comparisons", c.eq, k * ML, n);
    }
    // transients: what was copied once is not copied again
    if (in_place && n) {
        auto t = v.transient();
        std::vector<u64> at;
        for (int k = 0; k < 30; ++k)
            at.push_back(r.size(n - 1));
        auto first = measure([&] {
            for (auto i : at)
                t.set(i, mk(1));
        });
        within("first updates through a transient", "copies", first.copies, at.size() * ML, n);
        within("first updates through a transient", "allocs", first.allocs, at.size() * h + 1, n);
        auto c = measure([&] {
            for (auto i : at) {
                t.set(i, mk(2));
                t.update(i, [](auto&& x) { return mk(elem<T>::get(x) + 1); });
            }
        });
        within("repeated updates through a transient", "copies", c.copies, 0, n);
        within("repeated updates through a transient", "allocs", c.allocs, 0, n);
        C w;
        c = measure([&] { w = std::move(t).persistent(); });
        within("persistent", "copies", c.copies, 0, n);
        within("persistent", "allocs", c.allocs, 1, n);
    }
    // amortised growth
    {
        auto k    = 1 + r.below(2000);
        auto grow = [&](const char* what, u64 c0, auto&& push) {
            auto c = measure([&] {
                for (u64 i = 0; i < k; ++i)
                    push();
            });
            within(what, "allocs", c.allocs, 3 * (k / ML) + k / ML / (M - 1) * 2 + 4 * h + c0, n);
            within(what, "copies", c.copies, ML, n); // the tail, once
        };
        if (in_place) {
            auto t = v.transient();
            grow("pushing through a transient", 4, [&] { t.push_back(mk(3)); });
            // and back
            auto c = measure([&] {
                while (t.size() > n)
                    t.take(t.size() - std::min<u64>(t.size() - n, 1));
            });
            within("popping through a transient", "allocs", c.allocs, 2 * (k / ML) + 4 * h, n);
            within("popping through a transient", "copies", c.copies, 2 * ML, n);
        }
        if (in_place_rvalues) {
            auto w = v;
            grow("pushing onto an r-value", 4, [&] { w = std::move(w).push_back(mk(3)); });
        }
    }
    // r-values with no other owner change in place
    if (in_place_rvalues && n) {
        C w  = std::move(v);
        v    = C{};
        auto c = measure([&] {
            for (int k = 0; k < 20; ++k) {
                auto i = r.size(n - 1);
                w      = std::move(w).set(i, mk(5));
                w      = std::move(w).update(i, [](auto&& x) { return mk(elem<T>::get(x) + 1); });
            }
        });
        within("updates of an r-value", "allocs", c.allocs, 0, n);
        within("updates of an r-value", "copies", c.copies, 0, n);
        auto i = r.size(n);
        c      = measure([&] { w = std::move(w).take(i); });
        within("take of an r-value", "allocs", c.allocs, h + 2, n);
        within("take of an r-value", "copies", c.copies, 0, n);
        if constexpr (flex) {
            i = r.size(w.size());
            c = measure([&] { w = std::move(w).drop(i); });
            within("drop of an r-value", "allocs", c.allocs, 2 * h, n);
            // regular nodes with embedded size tables are not relaxed in place
            within("drop of an r-value", "copies", c.copies, ML, n);
            auto other = build<F>(r, u64(1) << r.below(12), r.chance(1, 2));
            auto sz    = w.size() + other.size();
            c          = measure([&] { w = std::move(w) + std::move(other); });
            within("concatenation of r-values", "allocs", c.allocs, height(sz) * (2 * M + 3), sz);
            within("concatenation of r-values", "copies", c.copies, ML * (2 * M + 3), sz);
        }
    }
}

static void arrays(rng& r)
{
    auto n = u64(1) << r.below(12);
    n += r.below(n + 1) - 1;
    note("array of %llu", (unsigned long long) n);
    A v;
    {
        auto t = A{}.transient();
        auto c = measure([&] {
            for (u64 i = 0; i < n; ++i)
                t.push_back(mk(i));
        });
        if (in_place) {
            within("array: pushing through a transient", "allocs", c.allocs, 2 * u64(std::log2(n + 2)) + 4, n);
            within("array: pushing through a transient", "copies", c.copies, 2 * n + 8, n);
            within("array: pushing through a transient", "moves", c.moves, 4 * n + 8, n);
        }
        v = std::move(t).persistent();
    }
    n = v.size();
    auto c = measure([&] {
        A w{v};
        A x;
        x = w;
    });
    within("array: copying a value", "allocs", c.allocs, 0, n);
    within("array: copying a value", "copies", c.copies, 0, n);
    c = measure([&] {
        u64 s = 0;
        for (auto& x : v)
            s += elem<T>::get(x);
        if (n)
            s += elem<T>::get(v[n / 2]) + elem<T>::get(v.at(n - 1)) + elem<T>::get(*v.data());
    });
    within("array: reading", "allocs", c.allocs, 0, n);
    within("array: reading", "copies", c.copies, 0, n);
    A w;
    c = measure([&] { w = v.push_back(mk(1)); });
    within("array: push_back", "allocs", c.allocs, 1, n);
    within("array: push_back", "copies", c.copies, n, n);
    c = measure([&] { w = v.take(n / 2); });
    within("array: take", "allocs", c.allocs, 1, n);
    within("array: take", "copies", c.copies, n / 2, n);
    if (n) {
        c = measure([&] { w = v.set(n / 2, mk(1)); });
        within("array: set", "allocs", c.allocs, 1, n);
        within("array: set", "copies", c.copies, n, n);
        w = v;
        c = measure([&] {
            if (!(w == v))
                fail("cost", "a copy of an array is not equal");
        });
        within("array: comparing copies", "comparisons", c.eq, 0, n);
        if (in_place) {
            auto t = v.transient();
            c      = measure([&] { t.set(0, mk(1)); });
            within("array: first update through a transient", "copies", c.copies, n, n);
            c = measure([&] {
                for (int k = 0; k < 10; ++k)
                    t.set(r.below(n), mk(2)), t.update(r.below(n), [](auto&& x) { return mk(elem<T>::get(x) + 1); });
            });
            within("array: repeated updates through a transient", "copies", c.copies, 0, n);
            within("array: repeated updates through a transient", "allocs", c.allocs, 0, n);
        }
        if (in_place_rvalues) {
            w = A{};
            w = std::move(v);
            v = A{};
            c = measure([&] {
                for (int k = 0; k < 10; ++k)
                    w = std::move(w).set(r.below(n), mk(2)), w = std::move(w).update(r.below(n), [](auto&& x) { return mk(elem<T>::get(x) + 1); });
            });
            within("array: updates of an r-value", "copies", c.copies, 0, n);
            within("array: updates of an r-value", "allocs", c.allocs, 0, n);
            auto k = 1 + r.below(2 * n);
            c      = measure([&] {
                for (u64 i = 0; i < k; ++i)
                    w = std::move(w).push_back(mk(3));
            });
            within("array: pushing onto an r-value", "allocs", c.allocs, 2 * u64(std::log2(n + k)) + 4, n);
            within("array: pushing onto an r-value", "copies", c.copies, 2 * (n + k) + 8, n);
            within("array: pushing onto an r-value", "moves", c.moves, 4 * (n + k) + 8 * k, n);
        }
    }
}

// ------------------------------------------------------------------ hashed

// nodes on the way to a key, from the keys that are there
struct key_depths
{
    std::map<u64, u64> rev; // hashes, lowest bits first: how many keys
    static u64 reversed(u64 h)
    {
        u64 r = 0;
        for (int i = 0; i < 64; ++i)
            r |= (h >> i & 1) << (63 - i);
        return r;
    }
    void add(u64 k) { ++rev[reversed(hash_of(k))]; }
    // inner nodes that contain or would contain the key
    u64 operator()(u64 k, bool there) const
    {
        auto x  = reversed(hash_of(k));
        int lcp = 0;
        auto it = rev.lower_bound(x);
        if (it != rev.end() && it->first == x) {
            if (it->second > there)
                return (64 + VT_HB - 1) / VT_HB + 1; // down to a node of collisions
            auto nx = std::next(it);
            if (nx != rev.end())
                lcp = std::max(lcp, __builtin_clzll(x ^ nx->first));
        } else if (it != rev.end())
            lcp = std::max(lcp, __builtin_clzll(x ^ it->first));
        if (it != rev.begin())
            lcp = std::max(lcp, __builtin_clzll(x ^ std::prev(it)->first));
        return lcp / VT_HB + 1;
    }
};

template <typename KD>
struct hashed
{
    using C = typename KD::C;
    rng& r;
    C c;
    amodel m;
    key_depths d;
    static constexpr u64 W = u64{1} << VT_HB;
    // copies for an element that is copied or compared: a table copies its keys
    // in order to compare them
    static constexpr u64 per = KD::is_table ? 3 : 2;

    struct hcost : cost
    {
        u64 hashes, equals;
    };
    template <typename Fn>
    hcost meas(Fn&& fn)
    {
        auto& h = hash_mode();
        h.hashes = h.equals = 0;
        auto x              = measure(fn);
        return {x, h.hashes, h.equals};
    }
    static C with(C x, u64 k, u64 v)
    {
        if constexpr (KD::is_set || KD::is_table)
            return std::move(x).insert(KD::make(k, v));
        else
            return std::move(x).set(elem<typename KD::K>::make(k), elem<typename KD::T>::make(v));
    }
    static C with_shared(const C& x, u64 k, u64 v)
    {
        if constexpr (KD::is_set || KD::is_table)
            return x.insert(KD::make(k, v));
        else
            return x.set(elem<typename KD::K>::make(k), elem<typename KD::T>::make(v));
    }
    template <typename Tr>
    static void tput(Tr& t, u64 k, u64 v)
    {
        if constexpr (KD::is_set || KD::is_table)
            t.insert(KD::make(k, v));
        else
            t.set(elem<typename KD::K>::make(k), elem<typename KD::T>::make(v));
    }

    void go()
    {
        std::vector<int> modes{0, 1, 4, 6, 7, 9};
        hash_mode().mode = r.pick(modes);
        hash_mode().salt = r.next();
        auto n           = r.chance(1, 4) ? r.below(30) : u64(1) << r.below(14);
        if (hash_mode().mode == 4)
            n = std::min<u64>(n, 60);
        note("%s of %llu, hash %s", KD::name, (unsigned long long) n, hash_name(hash_mode().mode));
        auto t   = C{}.transient();
        std::vector<u64> ks;
        u64 span = 4 * n + 8;
        if (hash_mode().mode == 9)
            n = std::min<u64>(n, 300), span = 600;
        if (hash_mode().mode == 4)
            span = 64;
        while (m.size() < n) {
            auto k = r.below(span);
            if (m.emplace(k, 1).second)
                ks.push_back(k), d.add(k);
        }
        // most keys with the same hash
        u64 coll = 1;
        for (auto& x : d.rev)
            coll = std::max(coll, x.second);
        {
            u64 depth = 0;
            for (auto k : ks)
                depth += d(k, true);
            // elements come in once, are moved when a node gets another one
            auto x = meas([&] {
                for (auto k : ks)
                    tput(t, k, 1);
            });
            if (in_place) {
                within("hashed: filling through a transient", "allocs", x.allocs, 3 * n + 2 * depth + 4, n);
                within("hashed: filling through a transient", "hashes", x.hashes, n + 2 * depth, n);
            }
            c = std::move(t).persistent();
        }
        auto name = [](const char* s) { return s; };
        (void) name;
        // sharing
        {
            auto x = meas([&] {
                C a{c};
                C b;
                b = a;
                C e{std::move(a)};
                a = std::move(e);
            });
            within("hashed: copying a value", "allocs", x.allocs, 0, n);
            within("hashed: copying a value", "copies", x.copies, 0, n);
            u64 seen = 0;
            x        = meas([&] {
                for (auto& e : c)
                    seen += sizeof e > 0;
            });
            VT_CHECK(seen == n, "cost", "%llu elements were traversed of %llu", (unsigned long long) seen, (unsigned long long) n);
            within("hashed: traversing", "allocs", x.allocs, 0, n);
            within("hashed: traversing", "copies", x.copies, 0, n);
            within("hashed: traversing", "hashes", x.hashes, 0, n);
            x = meas([&] {
                auto t1 = c.transient();
                auto p1 = t1.persistent();
                auto p2 = std::move(t1).persistent();
                p1      = p2;
            });
            // the marks of the owners only
            within("hashed: transient and persistent", "allocs", x.allocs, is_counted<MP>::value ? 0 : 4, n);
            within("hashed: transient and persistent", "copies", x.copies, 0, n);
            if (c.size() != n)
                fail("cost", "the size is wrong");
        }
        stats().max("hashed_size", n);
        for (int i = 0; i < 12; ++i) {
            auto k = ks.size() && r.chance(2, 3) ? r.pick(ks) : r.below(span);
            if (hash_mode().mode == 4)
                k %= 64;
            auto there = m.count(k) > 0;
            auto p     = d(k, there);
            stats().max("nodes_on_the_way_to_a_key", p);
            auto key   = elem<typename KD::K>::make(k);
            {
                auto x = meas([&] {
                    auto q = c.find(key);
                    if (!!q != there || c.count(key) != there)
                        fail("cost", "find is wrong");
                });
                within("hashed: find", "allocs", x.allocs, 0, n);
                within("hashed: find", "hashes", x.hashes, 2, n);
                within("hashed: find", "key comparisons", x.equals, 2 * coll, n);
                if (!KD::is_table)
                    within("hashed: find", "copies", x.copies, 0, n);
            }
            C w;
            {
                auto x = meas([&] { w = with_shared(c, k, 2); });
                // at most two blocks for every node on the way
                within("hashed: insert", "allocs", x.allocs, 2 * p + 2, n);
                within("hashed: insert", "copies", x.copies, per * (W + coll) + 6, n);
                within("hashed: insert", "key comparisons", x.equals, coll + 1, n);
                within("hashed: insert", "hashes", x.hashes, 4, n);
            }
            {
                auto x = meas([&] { w = c.erase(key); });
                within("hashed: erase", "allocs", x.allocs, 2 * p + 2, n);
                within("hashed: erase", "copies", x.copies, per * (W + coll) + 6, n);
                within("hashed: erase", "hashes", x.hashes, 2, n);
                if (!there)
                    within("hashed: erase of an absent key", "allocs", x.allocs, 0, n);
            }
            if constexpr (!KD::is_set) {
                auto same = [](auto y) { return y; };
                auto x    = meas([&] { w = c.update(key, same); });
                within("hashed: update", "allocs", x.allocs, 2 * p + 2, n);
                within("hashed: update", "copies", x.copies, per * (W + coll) + 8, n);
                within("hashed: update", "key comparisons", x.equals, coll + 1, n);
                within("hashed: update", "hashes", x.hashes, 4, n);
                x = meas([&] { w = c.update_if_exists(key, same); });
                within("hashed: update_if_exists", "allocs", x.allocs, there ? 2 * p + 2 : 0, n);
                within("hashed: update_if_exists", "copies", x.copies, there ? per * (W + coll) + 8 : KD::is_table ? 2 * coll + 2 : 2, n);
                within("hashed: update_if_exists", "key comparisons", x.equals, coll + 1, n);
                within("hashed: update_if_exists", "hashes", x.hashes, 2, n);
            }
            if (there && in_place) {
                auto tt = c.transient();
                // without counts every pass makes one more level its own
                for (u64 i = 0; i < (is_counted<MP>::value ? 1 : p + 2); ++i)
                    tput(tt, k, 3);
                auto x = meas([&] {
                    tput(tt, k, 4);
                    tput(tt, k, 5);
                });
                within("hashed: repeated changes through a transient", "allocs", x.allocs, 0, n);
                within("hashed: repeated changes through a transient", "copies", x.copies, 8 + (KD::is_table ? 4 * coll : 0), n);
                if constexpr (!KD::is_set) {
                    auto same = [](auto y) { return y; };
                    x         = meas([&] {
                        tt.update(key, same);
                        tt.update_if_exists(key, same);
                    });
                    within("hashed: repeated updates through a transient", "allocs", x.allocs, 0, n);
                    within("hashed: repeated updates through a transient", "copies", x.copies, 8 + (KD::is_table ? 4 * coll : 0), n);
                }
            }
        }
        // comparing and diffing
        {
            auto w  = c;
            u64 k   = n ? r.below(6) : 0;
            u64 way = 0;
            amodel changed;
            for (u64 i = 0; i < k; ++i) {
                auto key = r.pick(ks);
                way += d(key, m.count(key) > 0);
                w = with(std::move(w), key, 1);
            }
            auto x = meas([&] {
                if (!(w == c))
                    fail("cost", "equal values are not equal");
            });
            within("hashed: comparing after changes", "comparisons", x.eq + x.equals, 3 * way * (W + coll) + 3, n);
            auto dw = c;
            for (u64 i = 0; i < k; ++i) {
                auto key = r.below(span);
                way += d(key, m.count(key) > 0);
                if (r.chance(1, 2))
                    dw = std::move(dw).erase(elem<typename KD::K>::make(key));
                else
                    dw = with(std::move(dw), key, 9);
            }
            u64 calls = 0;
            x         = meas([&] {
                immer::diff(
                    c, dw, [&](auto&&) { ++calls; }, [&](auto&&) { ++calls; }, [&](auto&&, auto&&) { ++calls; });
            });
            within("hashed: diff", "callbacks", calls, k, n);
            within("hashed: diff", "comparisons", x.eq + x.equals, 2 * (way + k) * (W + coll) * 2, n);
            within("hashed: diff", "hashes", x.hashes, 2 * (way + k) * (W + coll), n);
            within("hashed: diff", "allocs", x.allocs, 0, n);
        }
        // r-values with no other owner
        if (in_place_rvalues && n) {
            auto x = meas([&] {
                for (int i = 0; i < 10; ++i) {
                    auto k = r.pick(ks);
                    c      = with(std::move(c), k, i);
                }
            });
            within("hashed: updates of an r-value", "allocs", x.allocs, 0, n);
            auto k = r.pick(ks);
            auto p = d(k, true);
            x      = meas([&] { c = std::move(c).erase(elem<typename KD::K>::make(k)); });
            within("hashed: erase of an r-value", "allocs", x.allocs, 4, n);
            within("hashed: erase of an r-value", "copies", x.copies, 4 + per * coll, n);
            x = meas([&] { c = with(std::move(c), k, 8); });
            within("hashed: insert into an r-value", "allocs", x.allocs, 2 * p + 2, n);
            within("hashed: insert into an r-value", "copies", x.copies, 6 + per * coll, n);
        }
    }
};

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    {
        V v; F f; A a;
        (void) V{}.transient(), (void) F{}.transient(), (void) A{}.transient();
        typename set_kind<T, MP, VT_HB>::C s;
        typename map_kind<T, T, MP, VT_HB>::C m;
        typename table_kind<T, T, MP, VT_HB>::C t;
        // the default values
        auto same = [](auto y) { return y; };
        (void) m.update(mk(1), same), (void) t.update(mk(1), same);
        (void) m[mk(1)], (void) t[mk(1)];
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64) {
        switch (r.below(7)) {
        case 0: sequences<V>(r); break;
        case 1:
        case 2: sequences<F>(r); break;
        case 3: arrays(r); break;
        case 4: hashed<set_kind<T, MP, VT_HB>>{r}.go(); break;
        case 5: hashed<map_kind<T, T, MP, VT_HB>>{r}.go(); break;
        case 6: hashed<table_kind<T, T, MP, VT_HB>>{r}.go(); break;
        }
        expect_quiescent<MP>("after all values are gone");
    });
    stats().add("evaluations", g_eval);
    stats().add("element_copies", life().copies);
    stats().add("element_moves", life().moves);
    stats().add("heap_allocations", allocs());
    stats().dump();
}
