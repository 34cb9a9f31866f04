// One history, many configurations: writes a digest of everything that could
// be observed in every iteration to the file $VT_TRACE; the driver compares
// those of all builds.  Plain C++14, exceptions optional.
//   VT_T VT_MP VT_B VT_BL VT_HB
#include "../engine/core.hpp"
#include "../engine/heaps.hpp"
#include "../engine/tracked.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

#ifndef VT_T
#define VT_T int
#endif
#ifndef VT_MP
#define VT_MP vt::mp_def
#endif
#ifndef VT_B
#define VT_B immer::default_bits
#endif
#ifndef VT_BL
#define VT_BL (immer::detail::rbts::derive_bits_leaf<VT_T, VT_MP, VT_B>)
#endif
#ifndef VT_HB
#define VT_HB immer::default_bits
#endif
#ifdef VT_GC
#include "../engine/gc.hpp"
#else
#define VT_GC_INIT() (void) 0
#endif

using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using EL = elem<T>;

static T mk(u64 v) { return EL::make(v); }
static u64 un(const T& x) { return EL::get(x); }

static int g_hash_mode  = 0;
static u64 g_hash_salt  = 0;
static u64 hash_of(u64 id)
{
    switch (g_hash_mode) {
    case 0: return mix(id ^ g_hash_salt);
    case 1: return id;
    case 2: return id % 4;
    case 3: return id << 56;
    case 4: return mix(id / 2);
    default: return mix(id) & 0xff00000000000007ull;
    }
}
struct chash
{
    std::size_t operator()(const T& x) const { return hash_of(un(x)); }
};
struct crow
{
    T id;
    T val;
    bool operator==(const crow& o) const { return id == o.id && val == o.val; }
    bool operator!=(const crow& o) const { return !(*this == o); }
};

using V  = immer::vector<T, MP, VT_B, VT_BL>;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;
using A  = immer::array<T, MP>;
using S  = immer::set<T, chash, std::equal_to<T>, MP, VT_HB>;
using P  = immer::map<T, T, chash, std::equal_to<T>, MP, VT_HB>;
using Q  = immer::table<crow, immer::table_key_fn, chash, std::equal_to<T>, MP, VT_HB>;
using BX = immer::box<T, MP>;

struct digest
{
    u64 h = 1;
    void put(u64 x) { h = mix(h ^ x) + 0x1234567; }
};

template <typename C>
static void whole(digest& d, const C& c)
{
    d.put(c.size());
    for (auto& x : c)
        d.put(un(x));
}

struct world
{
    rng& r;
    digest d, order;
    F f[4];
    V v[3];
    A a[2];
    S s[3];
    P p[3];
    Q q[2];
    u64 keys = 60;

    u64 val() { return r.below(200); }
    u64 key() { return r.below(keys); }

    template <typename C>
    void look(const C& c)
    {
        d.put(c.size());
        d.put(c.empty());
        if (!c.empty()) {
            d.put(un(c[r.below(c.size())]));
            d.put(un(c.front()));
            d.put(un(c.back()));
            auto it = c.begin() + r.below(c.size());
            d.put(un(*it));
            auto i = r.below(c.size()), j = i + r.below(c.size() - i + 1);
            u64 s  = 0;
            immer::for_each_chunk(c.begin() + i, c.begin() + j, [&](const T* b, const T* e) {
                for (; b != e; ++b)
                    s = mix(s ^ un(*b));
            });
            d.put(s);
        }
        auto i   = r.below(c.size() + 3);
        u64 seen = 777;
#ifdef IMMER_NO_EXCEPTIONS
        if (i < c.size())
            seen = un(c.at(i));
#else
        try {
            seen = un(c.at(i));
        } catch (std::out_of_range&) {
        }
#endif
        d.put(seen);
    }

    void flex_op()
    {
        auto& x = f[r.below(4)];
        auto& y = f[r.below(4)];
        auto n  = x.size();
        auto op = r.below(18);
        note("flex %llu on %zu", (unsigned long long) op, (std::size_t) n);
        d.put(op);
        auto big = n > 3000;
        switch (op) {
        case 0: x = x.push_back(mk(val())); break;
        case 1: x = std::move(x).push_back(mk(val())); break;
        case 2: x = x.push_front(mk(val())); break;
        case 3: x = std::move(x).push_front(mk(val())); break;
        case 4: if (!big) x = x + y; else x = x.take(10); break;
        case 5: if (!big) { auto z = y; x = std::move(x) + std::move(z); } break;
        case 6: if (!big) { auto z = y; x = z + std::move(x); } break;
        case 7: x = x.take(r.below(n + 2)); break;
        case 8: x = std::move(x).take(r.size(n)); break;
        case 9: x = x.drop(r.size(n)); break;
        case 10: x = std::move(x).drop(r.size(n)); break;
        case 11: if (n) { auto i = r.below(n); x = x.set(i, mk(val())); } break;
        case 12: if (n) { auto i = r.below(n); auto k = val(); x = std::move(x).update(i, [&](const T& e) { return mk((un(e) + k) % 200); }); } break;
        case 13: { auto i = r.below(n + 1); if (!big) x = r.chance(1, 2) ? x.insert(i, y) : x.insert(i, mk(val())); } break;
        case 14: { auto i = r.below(n + 1); auto j = i + r.below(n - i + 1); x = x.erase(i, j); } break;
        case 15: if (n) x = x.erase(r.below(n)); break;
        case 16: {
            auto t = x.transient();
            auto u = y.transient();
            for (u64 i = 0, e = r.below(60); i < e; ++i)
                switch (r.below(8)) {
                case 0: t.take(r.size(t.size())); break;
                case 1: t.drop(r.below(std::min<u64>(t.size(), 9) + 1)); break;
                case 2: if (t.size()) { auto j = r.below(t.size()); t.set(j, mk(val())); } break;
                case 3: if (t.size() < 3000 && &x != &y) t.append(u); break;
                case 4: if (t.size() < 3000 && &x != &y) t.prepend(u); break;
                default: t.push_back(mk(val()));
                }
            d.put(t.size());
            if (r.chance(1, 2)) {
                x = t.persistent();
                t.push_back(mk(1));
                d.put(t.size());
            } else
                x = std::move(t).persistent();
            break;
        }
        default: {
            u64 k = r.size(400);
            auto t = F{}.transient();
            for (u64 i = 0; i < k; ++i)
                t.push_back(mk(val()));
            x = std::move(t).persistent();
        }
        }
        look(x);
        d.put(x == y);
        d.put(x != f[0]);
    }

    void vector_op()
    {
        auto& x = v[r.below(3)];
        auto& y = v[r.below(3)];
        auto n  = x.size();
        auto op = r.below(9);
        note("vector %llu on %zu", (unsigned long long) op, (std::size_t) n);
        d.put(100 + op);
        switch (op) {
        case 0: x = x.push_back(mk(val())); break;
        case 1: for (u64 i = r.size(300); i--;) x = std::move(x).push_back(mk(val())); break;
        case 2: x = x.take(r.size(n + 1)); break;
        case 3: x = std::move(x).take(r.size(n)); break;
        case 4: if (n) { auto i = r.below(n); x = x.set(i, mk(val())); } break;
        case 5: if (n) { auto i = r.below(n); x = std::move(x).update(i, [&](const T& e) { return mk((un(e) + 3) % 200); }); } break;
        case 6: {
            auto t = x.transient();
            for (u64 i = 0, e = r.below(90); i < e; ++i)
                switch (r.below(6)) {
                case 0: t.take(r.size(t.size())); break;
                case 1: if (t.size()) t.update(r.below(t.size()), [&](const T& e) { return mk((un(e) + 7) % 200); }); break;
                default: t.push_back(mk(val()));
                }
            x = std::move(t).persistent();
            break;
        }
        case 7: f[r.below(4)] = F{x}; break;
        default: { auto k = r.size(200); x = V(k, mk(val())); }
        }
        look(x);
        d.put(x == y);
    }

    void array_op()
    {
        auto& x = a[r.below(2)];
        auto n  = x.size();
        auto op = r.below(7);
        note("array %llu on %zu", (unsigned long long) op, (std::size_t) n);
        d.put(200 + op);
        switch (op) {
        case 0: x = x.push_back(mk(val())); break;
        case 1: for (u64 i = r.below(30); i--;) x = std::move(x).push_back(mk(val())); break;
        case 2: x = x.take(r.size(n)); break;
        case 3: x = std::move(x).take(r.size(n)); break;
        case 4: if (n) { auto i = r.below(n); x = x.set(i, mk(val())); } break;
        case 5: if (n) { auto i = r.below(n); x = std::move(x).update(i, [&](const T& e) { return mk((un(e) + 3) % 200); }); } break;
        default: {
            auto t = x.transient();
            for (u64 i = 0, e = r.below(30); i < e; ++i)
                if (t.size() && r.chance(1, 3))
                    { auto i = r.below(t.size()); t.set(i, mk(val())); }
                else
                    t.push_back(mk(val()));
            x = std::move(t).persistent();
        }
        }
        look(x);
        d.put(a[0] == a[1]);
    }

    // ---- hashed
    static u64 kof(const T& x) { return un(x); }
    static u64 kof(const std::pair<T, T>& x) { return un(x.first); }
    static u64 kof(const crow& x) { return un(x.id); }
    static u64 vof(const T&) { return 1; }
    static u64 vof(const std::pair<T, T>& x) { return un(x.second); }
    static u64 vof(const crow& x) { return un(x.val); }

    template <typename C>
    void contents(const C& c)
    {
        std::vector<std::pair<u64, u64>> xs;
        for (auto& x : c) {
            xs.push_back({kof(x), vof(x)});
            order.put(kof(x));
        }
        std::sort(xs.begin(), xs.end());
        d.put(c.size());
        for (auto& x : xs)
            d.put(x.first), d.put(x.second);
    }
    template <typename C>
    void diffs(const C& x, const C& y)
    {
        std::vector<u64> ev;
        using E = typename C::value_type;
        immer::diff(
            x, y, [&](const E& e) { ev.push_back(kof(e) * 4 + 1); }, [&](const E& e) { ev.push_back(kof(e) * 4 + 2); },
            [&](const E& e, const E& g) { ev.push_back((kof(e) * 1000 + vof(e)) * 1000 + vof(g)); });
        std::sort(ev.begin(), ev.end());
        for (auto e : ev)
            d.put(e);
    }

    void set_op()
    {
        auto& x = s[r.below(3)];
        auto& y = s[r.below(3)];
        auto op = r.below(6);
        auto k  = key();
        note("set %llu on %zu", (unsigned long long) op, (std::size_t) x.size());
        d.put(300 + op);
        switch (op) {
        case 0: x = x.insert(mk(k)); break;
        case 1: x = std::move(x).insert(mk(k)); break;
        case 2: x = x.erase(mk(k)); break;
        case 3: x = std::move(x).erase(mk(k)); break;
        case 4: y = x; break;
        default: {
            auto t = x.transient();
            for (u64 i = 0, e = r.below(50); i < e; ++i) {
                auto kk = key();
                if (r.chance(1, 3))
                    t.erase(mk(kk));
                else
                    t.insert(mk(kk));
                d.put(t.count(mk(key())));
            }
            x = std::move(t).persistent();
        }
        }
        d.put(x.size());
        auto kk = key();
        d.put(x.count(mk(kk)));
        auto fnd = x.find(mk(kk));
        d.put(fnd ? un(*fnd) : 999);
        d.put(x == y);
        if (r.chance(1, 6))
            diffs(x, y);
    }

    void map_op()
    {
        auto& x = p[r.below(3)];
        auto& y = p[r.below(3)];
        auto op = r.below(11);
        auto k  = key();
        auto w  = val();
        note("map %llu on %zu", (unsigned long long) op, (std::size_t) x.size());
        d.put(400 + op);
        auto bump = [&](const T& e) { return mk((un(e) + w) % 200); };
        switch (op) {
        case 0: x = x.set(mk(k), mk(w)); break;
        case 1: x = std::move(x).set(mk(k), mk(w)); break;
        case 2: x = x.erase(mk(k)); break;
        case 3: x = std::move(x).erase(mk(k)); break;
        case 4: y = x; break;
        case 5: x = x.insert({mk(k), mk(w)}); break;
        case 6: x = x.update_if_exists(mk(k), bump); break;
        case 7: x = std::move(x).update_if_exists(mk(k), bump); break;
        case 8: if (x.count(mk(k))) x = x.update(mk(k), bump); break;
        case 9: if (x.count(mk(k))) x = std::move(x).update(mk(k), bump); break;
        default: {
            auto t = x.transient();
            for (u64 i = 0, e = r.below(50); i < e; ++i) {
                auto kk = key();
                switch (r.below(4)) {
                case 0: t.erase(mk(kk)); break;
                case 1: t.update_if_exists(mk(kk), bump); break;
                default: t.set(mk(kk), mk(val()));
                }
                auto k2  = key();
                auto fnd = t.find(mk(k2));
                d.put(fnd ? un(*fnd) : 999);
            }
            x = std::move(t).persistent();
        }
        }
        d.put(x.size());
        auto kk  = key();
        auto fnd = x.find(mk(kk));
        d.put(fnd ? un(*fnd) : 999);
        d.put(x == y);
        if (r.chance(1, 6))
            diffs(x, y);
    }

    void table_op()
    {
        auto& x = q[r.below(2)];
        auto op = r.below(6);
        auto k  = key();
        auto w  = val();
        note("table %llu on %zu", (unsigned long long) op, (std::size_t) x.size());
        d.put(500 + op);
        switch (op) {
        case 0: x = x.insert(crow{mk(k), mk(w)}); break;
        case 1: x = std::move(x).insert(crow{mk(k), mk(w)}); break;
        case 2: x = x.erase(mk(k)); break;
        case 3: x = std::move(x).erase(mk(k)); break;
        case 4: q[0] = q[1]; break;
        default: {
            auto t = x.transient();
            for (u64 i = 0, e = r.below(40); i < e; ++i) {
                auto kk = key();
                if (r.chance(1, 3))
                    t.erase(mk(kk));
                else
                    t.insert(crow{mk(kk), mk(val())});
            }
            x = std::move(t).persistent();
        }
        }
        d.put(x.size());
        auto kk  = key();
        auto fnd = x.find(mk(kk));
        d.put(fnd ? un(fnd->val) : 999);
        d.put(q[0] == q[1]);
        if (r.chance(1, 6))
            diffs(q[0], q[1]);
    }

    void finish()
    {
        for (auto& x : f) whole(d, x);
        for (auto& x : v) whole(d, x);
        for (auto& x : a) whole(d, x);
        for (auto& x : s) contents(x);
        for (auto& x : p) contents(x);
        for (auto& x : q) contents(x);
        BX b{mk(val())};
        auto c = b;
        b      = std::move(b).update([](const T& e) { return mk((un(e) + 1) % 200); });
        d.put(un(b.get()));
        d.put(un(c.get()));
        d.put(b == c);
    }
};

int main(int argc, char** argv)
{
    VT_GC_INIT();
    args_t args{argc, argv};
    {
        V x; F y; A z; S s; P p; Q q;
        (void) x.transient(), (void) y.transient(), (void) z.transient(), (void) (A{}.push_back(mk(1)));
    }
    warmed_up<MP>();
    std::FILE* out = nullptr;
    if (auto n = std::getenv("VT_TRACE"))
        out = std::fopen(n, "wb");
    u64 ops = 0;
    args.run([&](rng& r, u64 it) {
        g_hash_mode = int(r.below(6));
        g_hash_salt = r.next();
        u64 rec[4];
        {
            world w{r, {}, {}, {}, {}, {}, {}, {}, {}};
            if (r.chance(1, 3))
                w.keys = 200;
            for (u64 i = 0, n = 20 + r.below(120); i < n; ++i, ++ops) {
                status().op = i;
                auto k      = r.below(12);
                if (k < 4) w.flex_op();
                else if (k < 6) w.vector_op();
                else if (k < 7) w.array_op();
                else if (k < 9) w.map_op();
                else if (k < 11) w.set_op();
                else w.table_op();
            }
            w.finish();
            // complete collisions are in an order of their own
            bool ordered = g_hash_mode <= 1;
            rec[0] = it, rec[1] = w.d.h, rec[2] = ordered ? w.order.h : 0, rec[3] = r.next();
        }
        stats().see(rec[1]);
        if (stats().sampling())
            stats().sample("history " + std::to_string(it) + ": digest " + std::to_string(rec[1]) + ", of orders " + std::to_string(rec[2]));
        if (out)
            std::fwrite(rec, sizeof rec, 1, out);
        expect_quiescent<MP>("after all values are gone");
    });
    if (out)
        std::fclose(out);
    stats().add("operations", ops);
    stats().add("hashed_bits", 0);
    stats().dump();
}
