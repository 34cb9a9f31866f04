// Containers in memory collected by libgc (P25): chains of values made through
// transients, most of which are dropped, with collections in between; memory
// that was given back is overwritten, and the identities of collected
// transients are taken by new ones.
//   VT_EMB embedded size tables or not, VT_ELEM 0: int, 1: boxes in the same memory
#define VT_GC 1
#include "../engine/gc.hpp"
#include "../engine/core.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <immer/algorithm.hpp>
#include <memory>
#ifndef VT_EMB
#define VT_EMB 0
#endif
#ifndef VT_ELEM
#define VT_ELEM 0
#endif
#ifndef VT_B
#define VT_B 2
#endif
#ifndef VT_BL
#define VT_BL 2
#endif
using namespace vt;

// sees the identities of transients go by (the only one byte blocks)
struct watch_heap : immer::gc_heap
{
    static std::unordered_set<u64>& seen() { static std::unordered_set<u64> s; return s; }
    static u64& tokens() { static u64 n; return n; }
    static u64& reused() { static u64 n; return n; }
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags... t)
    {
        auto p = immer::gc_heap::allocate(n, t...);
        if (n == 1) {
            ++tokens();
            // hidden from the collector
            if (!seen().insert(~reinterpret_cast<u64>(p)).second)
                ++reused();
        }
        return p;
    }
    template <typename... Tags>
    static void deallocate(std::size_t n, void* p, Tags... t)
    {
        std::memset(p, 0xdd, n);
        immer::gc_heap::deallocate(n, p, t...);
    }
};
using MP = immer::memory_policy<immer::heap_policy<watch_heap>, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy, VT_EMB != 0>;

#if VT_ELEM
using T = immer::box<u64, MP>;
static u64 val(const T& t) { return *t; }
#else
using T = u64;
static u64 val(const T& t) { return t; }
#endif
static T mk(u64 v) { return T(v); }
struct bad_hash { std::size_t operator()(u64 k) const { return k % 7 == 0 ? 3 : k % 5 == 0 ? (k << 20) : k; } };
struct item { u64 id; T v; bool operator==(const item& o) const { return id == o.id && v == o.v; } };

static u64 next_value = 1;
using VM = std::vector<u64>;
using MM = std::map<u64, u64>;

template <typename C>
struct seq_kind
{
    using model = VM;
    using cont  = C;
    static constexpr bool flex = std::is_same<C, immer::flex_vector<T, MP, VT_B, VT_BL>>::value;
    static constexpr bool arr  = std::is_same<C, immer::array<T, MP>>::value;
    static const char* name() { return flex ? "flex_vector" : arr ? "array" : "vector"; }
    template <typename Tr>
    static void mutate(rng& r, Tr& t, model& m, int bias = 0)
    {
        // 1: shape, 2: elements, 3: cuts
        auto k = bias == 1 ? (flex ? 7 + r.below(5) : 6 + r.below(3)) : bias == 2 ? r.below(6) : bias == 3 ? (r.chance(1, 2) ? 8 : 7 + r.below(5)) : r.below(12);
        auto v = ++next_value;
        if (k < 6) {
            if (m.empty()) return;
            auto i = r.chance(1, 2) ? std::min<u64>(m.size() - 1, r.below(3)) : r.chance(1, 3) ? m.size() - 1 - std::min<u64>(m.size() - 1, r.below(3)) : r.below(m.size());
            if (k & 1) t.set(i, mk(v)); else t.update(i, [&](T) { return mk(v); });
            m[i] = v;
        } else if (k < 8) {
            for (auto n = r.range(1, 6); n--; ++v) { t.push_back(mk(v)); m.push_back(v); }
            next_value = v;
        } else if (k == 8) {
            auto n = m.size() - std::min<u64>(m.size(), r.below(10));
            t.take(n); m.resize(n);
        } else if constexpr (flex) {
            if (k == 9) {
                auto n = std::min<u64>(m.size(), r.below(4));
                t.drop(n); m.erase(m.begin(), m.begin() + n);
            } else if (k == 10) {
                auto o = Tr{};
                VM om;
                for (auto n = r.range(1, 9); n--;) { o.push_back(mk(++next_value)); om.push_back(next_value); }
                if (r.chance(1, 2)) { t.append(o); m.insert(m.end(), om.begin(), om.end()); }
                else { t.prepend(o); m.insert(m.begin(), om.begin(), om.end()); }
            } else {
                auto n = std::min<u64>(m.size(), r.below(4));
                t.drop(n); m.erase(m.begin(), m.begin() + n);
                n = m.size() - std::min<u64>(m.size(), r.below(10));
                t.take(n); m.resize(n);
            }
        }
    }
    static void plain(rng& r, C& c, model& m)
    {
        auto v = ++next_value;
        auto k = r.below(6);
        if (k == 0) { c = c.push_back(mk(v)); m.push_back(v); }
        else if (k == 1 && !m.empty()) { auto i = r.below(m.size()); c = c.set(i, mk(v)); m[i] = v; }
        else if (k == 2) { auto n = r.below(m.size() + 1); c = c.take(n); m.resize(n); }
        else if constexpr (flex) {
            if (k == 3) { auto n = std::min<u64>(m.size(), r.below(8)); c = c.drop(n); m.erase(m.begin(), m.begin() + n); }
            else if (k == 4) { if (m.size() < 150) { c = c + c; auto d = m; m.insert(m.end(), d.begin(), d.end()); } }
            else { c = c.push_front(mk(v)); m.insert(m.begin(), v); }
        } else { c = c.push_back(mk(v)); m.push_back(v); }
    }
    template <typename X>
    static void check(const X& c, const model& m)
    {
        VT_CHECK(c.size() == m.size(), "model", "%s: size %zu, should be %zu", name(), (std::size_t) c.size(), m.size());
        std::size_t i = 0;
        for (const T& x : c) {
            VT_CHECK(i < m.size() && val(x) == m[i], "model", "%s: element %zu of %zu is %llu, should be %llu", name(), i, m.size(), (unsigned long long) val(x), (unsigned long long) (i < m.size() ? m[i] : 0));
            ++i;
        }
        VT_CHECK(i == m.size(), "model", "%s: %zu elements seen, should be %zu", name(), i, m.size());
        for (i = 0; i < m.size(); ++i)
            VT_CHECK(val(c[i]) == m[i], "model", "%s: element %zu read by position is %llu, should be %llu", name(), i, (unsigned long long) val(c[i]), (unsigned long long) m[i]);
    }
};

template <int Kind> struct assoc_of;
template <> struct assoc_of<0> { using type = immer::set<u64, bad_hash, std::equal_to<u64>, MP, VT_B>; };
template <> struct assoc_of<1> { using type = immer::map<u64, T, bad_hash, std::equal_to<u64>, MP, VT_B>; };
template <> struct assoc_of<2> { using type = immer::table<item, immer::table_key_fn, bad_hash, std::equal_to<u64>, MP, VT_B>; };

template <int Kind>
struct assoc_kind
{
    using model = MM;
    using cont  = typename assoc_of<Kind>::type;
    static const char* name() { return Kind == 0 ? "set" : Kind == 1 ? "map" : "table"; }
    static u64 key(rng& r) { return r.below(r.chance(1, 2) ? 40 : 300); }
    template <typename X>
    static void put(X& x, u64 k, u64 v)
    {
        if constexpr (Kind == 0) x.insert(k);
        else if constexpr (Kind == 1) x.set(k, mk(v));
        else x.insert(item{k, mk(v)});
    }
    static void pput(cont& x, u64 k, u64 v)
    {
        if constexpr (Kind == 0) x = x.insert(k);
        else if constexpr (Kind == 1) x = x.set(k, mk(v));
        else x = x.insert(item{k, mk(v)});
    }
    template <typename Tr>
    static void mutate(rng& r, Tr& t, model& m, int = 0)
    {
        for (auto n = r.range(1, 4); n--;) {
            auto k = key(r);
            auto v = ++next_value;
            if (r.chance(1, 3)) { t.erase(k); m.erase(k); }
            else if (Kind != 0 && r.chance(1, 3)) {
                if constexpr (Kind == 1) { if (m.count(k)) { t.update(k, [&](T) { return mk(v); }); m[k] = v; } }
                else if constexpr (Kind == 2) { if (m.count(k)) { t.update(k, [&](item i) { return item{i.id, mk(v)}; }); m[k] = v; } }
            }
            else { put(t, k, v); m[k] = v; }
        }
    }
    static void plain(rng& r, cont& c, model& m)
    {
        for (auto n = r.range(1, 8); n--;) {
            auto k = key(r);
            auto v = ++next_value;
            if (r.chance(1, 4)) { c = c.erase(k); m.erase(k); }
            else { pput(c, k, v); m[k] = v; }
        }
    }
    template <typename X>
    static void check(const X& c, const model& m)
    {
        VT_CHECK(c.size() == m.size(), "model", "%s: size %zu, should be %zu", name(), (std::size_t) c.size(), m.size());
        std::size_t n = 0;
        for (auto& x : c) {
            u64 k, v = 0;
            if constexpr (Kind == 0) k = x;
            else if constexpr (Kind == 1) k = x.first, v = val(x.second);
            else k = x.id, v = val(x.v);
            auto it = m.find(k);
            VT_CHECK(it != m.end(), "model", "%s: stray key %llu", name(), (unsigned long long) k);
            VT_CHECK(Kind == 0 || it->second == v, "model", "%s: key %llu holds %llu, should hold %llu", name(), (unsigned long long) k, (unsigned long long) v, (unsigned long long) it->second);
            ++n;
        }
        VT_CHECK(n == m.size(), "model", "%s: %zu elements seen, should be %zu", name(), n, m.size());
        for (auto& p : m)
            VT_CHECK(c.count(p.first) == 1, "model", "%s: key %llu is not found", name(), (unsigned long long) p.first);
    }
};

#define NI __attribute__((noinline))
NI static void scrub()
{
    volatile char b[16384];
    for (std::size_t i = 0; i < sizeof b; ++i) b[i] = 0;
}
NI static void collect()
{
    scrub();
    GC_gcollect();
    // what was given back gets other contents
    for (auto n : {16, 32, 48, 64, 80, 96, 112, 128, 160, 192})
        for (int i = 0; i < 6; ++i) {
            std::memset(GC_malloc(n), 0xdd, n);
            if (n > 16)
                std::memset(GC_malloc_atomic(n), 0xdd, n);
        }
    scrub();
    stats().add("collections");
}

template <typename K>
struct world
{
    struct slot { typename K::cont c; typename K::model m; };
    rng& r;
    std::vector<slot> s;
    world(rng& r_) : r(r_), s(2) {}

    NI void verify() { for (auto& x : s) K::check(x.c, x.m); }
    void ev(const char* op, const slot& x)
    {
        ++status().op;
        note("%s: %s, size %zu", K::name(), op, x.m.size());
        stats().add("operations");
        u64 k[] = {(u64) K::name()[0], (u64) K::name()[1], (u64) op[0], (u64) op[1], x.m.size(), r.s % 64};
        stats().see(hash_bytes(k, sizeof k));
    }
    // the value of a slot, changed through a transient of its own
    NI void through_transient(slot& from, slot& to, unsigned n, int bias = 0)
    {
        auto t = from.c.transient();
        auto m = from.m;
        while (n--) K::mutate(r, t, m, bias);
        to.c = t.persistent();
        to.m = std::move(m);
    }
    NI void abandoned(slot& from, unsigned n)
    {
        auto t = from.c.transient();
        auto m = from.m;
        auto edges = r.chance(1, 2);
        while (n--) { K::mutate(r, t, m, edges ? 2 : 0); edges = false; if (!n && r.chance(1, 2)) K::mutate(r, t, m, 3); }
        if (r.chance(1, 4))
            K::check(t, m);
    }
    NI void collected_between(slot& from)
    {
        auto t = from.c.transient();
        auto m = from.m;
        for (int i = 0; i < 4; ++i) {
            K::mutate(r, t, m);
            if (r.chance(1, 2)) collect();
        }
        K::check(t, m);
    }
    NI void run()
    {
        for (auto& x : s)
            for (auto n = r.below(30); n--;) K::plain(r, x.c, x.m);
        for (unsigned round = 0; round < 3; ++round) {
            // a chain: each step through another transient, the former value dropped
            for (auto n = r.range(2, 6); n--;) {
                auto& x = r.pick(s);
                switch (r.below(8)) {
                case 0: ev("plain", x); K::plain(r, x.c, x.m); break;
                case 1: { ev("snapshot", x); auto& y = r.pick(s); through_transient(x, y, r.range(1, 2)); break; }
                case 3: case 4: case 5:
                    ev("shape and elements", x);
                    through_transient(x, x, 1, 1);
                    scrub();
                    through_transient(x, x, 1, 2);
                    break;
                case 2: ev("collected between", x); collected_between(x); break;
                default: ev("chain", x); through_transient(x, x, r.range(1, 2)); break;
                }
                scrub();
            }
            collect();
            verify();
            // many new transients of the values that are left
            auto per = r.range(100, 300);
            for (auto n = per; n--;) {
                auto& x = r.pick(s);
                ev("abandoned", x);
                abandoned(x, r.range(1, 3));
                scrub();
                if (n % 16 == 0) verify();
            }
            verify();
        }
    }
};

template <typename K> NI static void go(rng& r)
{
    auto w = std::make_unique<world<K>>(r);
    w->run();
    stats().max("size", w->s[0].m.size());
}

int main(int argc, char** argv)
{
    setenv("GC_MARKERS", "1", 1);
    VT_GC_INIT();
    args_t args{argc, argv};
    args.run([&](rng& r, u64 i) {
        switch (r.below(8)) {
        case 0: go<seq_kind<immer::vector<T, MP, VT_B, VT_BL>>>(r); break;
#if !VT_ELEM
        case 1: go<seq_kind<immer::array<T, MP>>>(r); break;
#endif
        case 2: go<assoc_kind<0>>(r); break;
        case 3: go<assoc_kind<1>>(r); break;
        case 4: go<assoc_kind<2>>(r); break;
        default: go<seq_kind<immer::flex_vector<T, MP, VT_B, VT_BL>>>(r); break;
        }
        scrub();
        (void) i;
    });
    stats().add("transient_identities", watch_heap::tokens());
    stats().add("transient_identities_reused", watch_heap::reused());
    stats().dump();
}
