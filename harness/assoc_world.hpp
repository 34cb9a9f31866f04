// Random histories of set / map / table and their transients, differentially
// executed against std::map, for adversarial hash functions.
#pragma once
#include "../engine/core.hpp"
#include "../engine/heaps.hpp"
#include "../engine/ranges.hpp"
#include "../engine/tracked.hpp"

#include <immer/algorithm.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>

#include <map>

namespace vt {

using amodel = std::map<u64, u64>;

// -------------------------------------------------------- hash functions

struct hash_mode_t
{
    int mode   = 0;
    u64 salt   = 0;
    u64 hashes = 0, equals = 0; // calls
};
inline hash_mode_t& hash_mode()
{
    thread_local hash_mode_t h;
    return h;
}
constexpr int HASH_MODES = 10;
inline const char* hash_name(int m)
{
    static const char* n[] = {"mixed", "identity", "constant", "mod4", "high-bits", "all-ones", "deep-groups", "nasty", "pairs", "low-collide"};
    return n[m];
}
inline u64 hash_of(u64 id)
{
    auto& h = hash_mode();
    switch (h.mode) {
    case 0: return mix(id ^ h.salt);
    case 1: return id;
    case 2: return h.salt;
    case 3: return id % 4;
    case 4: return id << 58; // six distinguishing bits, at the top
    case 5: return ~u64{0} - (id % 2);
    case 6: return (id / 3 % 2) | ((id / 6) << 40);
    case 7: {
        // few choices at every level of the tree, groups of three collide
        auto g = id / 3;
        u64 r  = 0;
        for (int i = 0; i < 13; ++i) {
            auto c = mix(g * 13 + i + h.salt);
            r |= (c % 8 < 5 ? 0 : c % 8 == 5 ? 31 : (c >> 8) % 32) << (i * 5);
        }
        return r;
    }
    case 8: return mix(id / 2);
    default: return mix(id) & 0xff00000000000007ull;
    }
}

struct probe // compatible key
{
    u64 id;
};

template <typename K>
struct vhash
{
    using is_transparent = void;
    std::size_t operator()(const K& k) const
    {
        auto id = elem<K>::get(k);
        fault().point(fault().on_hash, "hash");
        ++hash_mode().hashes;
        return hash_of(id);
    }
    std::size_t operator()(const probe& k) const
    {
        fault().point(fault().on_hash, "hash");
        ++hash_mode().hashes;
        return hash_of(k.id);
    }
};
template <typename K>
struct vequal
{
    using is_transparent = void;
    bool operator()(const K& a, const K& b) const
    {
        auto x = elem<K>::get(a), y = elem<K>::get(b);
        fault().point(fault().on_eq, "equal");
        ++hash_mode().equals;
        return x == y;
    }
    bool operator()(const K& a, const probe& b) const
    {
        auto x = elem<K>::get(a);
        fault().point(fault().on_eq, "equal");
        ++hash_mode().equals;
        return x == b.id;
    }
};

template <typename K, typename T>
struct row
{
    K id;
    T val;
    bool operator==(const row& o) const { return id == o.id && val == o.val; }
    bool operator!=(const row& o) const { return !(*this == o); }
};

// ------------------------------------------------------------- adaptors

template <typename K_, typename MP, unsigned B>
struct set_kind
{
    using K = K_;
    using C = immer::set<K, vhash<K>, vequal<K>, MP, B>;
    using E = K;
    static constexpr const char* name = "set";
    static constexpr bool is_set = true, is_map = false, is_table = false;
    static constexpr unsigned bits = B;
    static u64 key(const E& e) { return elem<K>::get(e); }
    static u64 val(const E&) { return 0; }
    static E make(u64 k, u64) { return elem<K>::make(k); }
    static u64 norm(u64) { return 0; }
    static K mkkey(u64 k) { return elem<K>::make(k); }
};
template <typename K_, typename T_, typename MP, unsigned B>
struct map_kind
{
    using K = K_;
    using T = T_;
    using C = immer::map<K, T, vhash<K>, vequal<K>, MP, B>;
    using E = std::pair<K, T>;
    static constexpr const char* name = "map";
    static constexpr bool is_set = false, is_map = true, is_table = false;
    static constexpr unsigned bits = B;
    static u64 key(const E& e) { return elem<K>::get(e.first); }
    static u64 val(const E& e) { return elem<T>::get(e.second); }
    static E make(u64 k, u64 v) { return {elem<K>::make(k), elem<T>::make(v)}; }
    static u64 norm(u64 v) { return elem<T>::norm(v); }
    static K mkkey(u64 k) { return elem<K>::make(k); }
    // what update() works on
    using U = T;
    static u64 uget(const T& t) { return elem<T>::get(t); }
    static T umake(u64, u64 v) { return elem<T>::make(v); }
};
template <typename K_, typename T_, typename MP, unsigned B>
struct table_kind
{
    using K = K_;
    using T = T_;
    using E = row<K, T>;
    using C = immer::table<E, immer::table_key_fn, vhash<K>, vequal<K>, MP, B>;
    static constexpr const char* name = "table";
    static constexpr bool is_set = false, is_map = false, is_table = true;
    static constexpr unsigned bits = B;
    static u64 key(const E& e) { return elem<K>::get(e.id); }
    static u64 val(const E& e) { return elem<T>::get(e.val); }
    static E make(u64 k, u64 v) { return {elem<K>::make(k), elem<T>::make(v)}; }
    static u64 norm(u64 v) { return elem<T>::norm(v); }
    static K mkkey(u64 k) { return elem<K>::make(k); }
    using U = E;
    static u64 uget(const E& t) { return elem<T>::get(t.val); }
    // the key in the result of the function does not count
    static E umake(u64 wrong_key, u64 v) { return {elem<K>::make(wrong_key), elem<T>::make(v)}; }
};

// ------------------------------------------------------------ verification

template <typename KD, typename C>
void averify(const C& c, const amodel& m, u64 domain, u64 how, const char* kind, const char* what)
{
    using E = typename KD::E;
    VT_CHECK(c.size() == m.size(), kind, "%s: size is %zu, expected %zu", what, (std::size_t) c.size(), m.size());
    VT_CHECK(c.empty() == m.empty(), kind, "%s: empty() is %d", what, int(c.empty()));
    std::vector<char> seen(domain + 1, 0);
    std::size_t n = 0;
    auto visit    = [&](const E& e, const char* way) {
        auto k  = KD::key(e);
        auto it = m.find(k);
        if (it == m.end())
            fail(kind, "%s: %s visits key %llu, which is absent", what, way, (unsigned long long) k);
        if (KD::val(e) != it->second)
            fail(kind, "%s: %s gives %llu for key %llu, expected %llu", what, way, (unsigned long long) KD::val(e), (unsigned long long) k, (unsigned long long) it->second);
        if (seen[k]++)
            fail(kind, "%s: %s visits key %llu twice", what, way, (unsigned long long) k);
        ++n;
    };
    if constexpr (std::is_same<C, typename KD::C>::value) {
        if (how & 1)
            immer::for_each_chunk(c, [&](const E* f, const E* l) {
                for (; f != l; ++f)
                    visit(*f, "chunk traversal");
            });
    }
    if (n == 0)
        for (auto&& e : c)
            visit(e, "iteration");
    VT_CHECK(n == m.size(), kind, "%s: traversal visits %zu of %zu", what, n, m.size());
    // lookups: of everything for small domains, sampled otherwise
    u64 count = std::min<u64>(domain, 90);
    u64 stride = domain <= 90 ? 1 : 2 * (how % 100) + 1;
    u64 k      = domain <= 90 ? 0 : how % domain;
    for (u64 i = 0; i < count; ++i, k = (k + stride) % domain) {
        auto it      = m.find(k);
        bool present = it != m.end();
        auto check   = [&](bool p, u64 v, const char* way) {
            if (p != present)
                fail(kind, "%s: %s says key %llu is %s, it is %s", what, way, (unsigned long long) k, p ? "present" : "absent", present ? "present" : "absent");
            if (p && v != it->second)
                fail(kind, "%s: %s gives %llu for key %llu, expected %llu", what, way, (unsigned long long) v, (unsigned long long) k, (unsigned long long) it->second);
        };
        switch ((how >> 8) % 3 + (i % 2) * 3) {
        case 0: {
            auto p = c.find(KD::mkkey(k));
            if constexpr (KD::is_map)
                check(p, p ? KD::uget(*p) : 0, "find");
            else
                check(p, p ? KD::val(*p) : 0, "find");
            break;
        }
        case 1: {
            auto q = c.count(KD::mkkey(k));
            check(q == 1, present ? it->second : 0, "count");
            break;
        }
        case 2: {
            auto p = c.find(probe{k});
            if constexpr (KD::is_map)
                check(p, p ? KD::uget(*p) : 0, "find of a compatible key");
            else
                check(p, p ? KD::val(*p) : 0, "find of a compatible key");
            VT_CHECK(c.count(probe{k}) == (present ? 1u : 0u), kind, "%s: count of a compatible key", what);
            break;
        }
        default:
            if constexpr (!KD::is_set) {
                auto key = KD::mkkey(k);
                if (i % 4 == 1) {
                    auto v = KD::uget((how & 16) ? c[probe{k}] : c[key]);
                    if (v != (present ? it->second : 0))
                        fail(kind, "%s: [] gives %llu for key %llu, expected %llu", what, (unsigned long long) v, (unsigned long long) k, (unsigned long long) (present ? it->second : 0));
                } else if (present || i % 16 == 3) {
                    bool p = true;
                    u64 v  = 0;
                    try {
                        v = KD::uget((how & 16) ? c.at(probe{k}) : c.at(key));
                    } catch (const std::out_of_range&) {
                        p = false;
                    }
                    check(p, v, "at");
                }
            } else
                check(c.count(KD::mkkey(k)), 0, "count");
        }
    }
}

template <typename KD>
struct aslot
{
    using C = typename KD::C;
    C c;
    amodel m;
    std::vector<const void*> addr;
    bool addr_known = false;
    const void* id  = nullptr;
    // tables have no identity
    const void* identity() const
    {
        if constexpr (KD::is_table)
            return nullptr;
        else
            return c.identity();
    }
    void snap()
    {
        id = identity();
        addr.clear();
        for (auto&& e : c)
            addr.push_back(&e);
        addr_known = true;
    }
    void unsnap() { addr_known = false; }
    void verify(u64 domain, u64 how, const char* kind, const char* what)
    {
        averify<KD>(c, m, domain, how, kind, what);
        if (addr_known) {
            if (id != identity())
                fail(kind, "%s: the identity of a value changed while it was not mutated", what);
            std::size_t i = 0;
            for (auto&& e : c) {
                if (i >= addr.size() || addr[i] != &e)
                    fail(kind, "%s: the address or order of element %zu changed while the value was not mutated", what, i);
                ++i;
            }
        }
    }
};
template <typename KD>
struct atslot
{
    typename KD::C::transient_type t;
    amodel m;
    bool live = false;
};

struct assoc_opts
{
    u64 w_persist = 5, w_move = 5, w_trans = 5, w_misc = 3, w_build = 1;
    u64 verify_all_num = 1, verify_all_den = 5;
    bool eq_all = false, diff_all = false, identity = false, lookups = false;
    std::vector<u64> domains{3, 6, 12, 24, 50, 120, 400};
    int force_hash = -1;
};

template <typename KD>
struct apool
{
    using C  = typename KD::C;
    using E  = typename KD::E;
    using K  = typename KD::K;
    using Tr = typename C::transient_type;

    rng& r;
    const assoc_opts& o;
    u64 domain;
    std::vector<aslot<KD>> s;
    std::vector<atslot<KD>> t;
    u64 vals = 0;
    static constexpr std::size_t NS = 5, NT = 3;
    const char* cur = "";
    static inline thread_local u64 ops_done = 0;

    apool(rng& r_, const assoc_opts& o_, u64 domain_)
        : r{r_}
        , o{o_}
        , domain{domain_}
        , s(NS)
        , t(NT)
    {}

    void ev(const char* op, std::size_t n, u64 a = 0, u64 b = 0)
    {
        cur = op;
        note("%s.%s size=%zu a=%llu b=%llu hash=%s domain=%llu", KD::name, op, n, (unsigned long long) a, (unsigned long long) b, hash_name(hash_mode().mode), (unsigned long long) domain);
        ++status().op;
        auto c = ++ops_done;
        if ((c & (c - 1)) == 0 && c >= 64 && n > 2)
            stats().sample(status().text);
        if (n > 0)
            stats().see(mix(hash_bytes(op, std::strlen(op)) ^ mix(n * 1000003 + a * 31 + b) ^ (KD::bits * 16 + hash_mode().mode)));
        stats().max("max_size", n);
    }
    u64 key() { return r.chance(1, 3) ? r.size(domain - 1) : r.below(domain); }
    u64 some_key(const amodel& m) // mostly one that is present
    {
        if (m.empty() || r.chance(1, 3))
            return key();
        auto it = m.lower_bound(r.below(domain));
        return it == m.end() ? m.begin()->first : it->first;
    }
    u64 val() { return KD::norm(r.chance(1, 5) ? r.below(3) + 1 : ++vals * 5 + 7); }

    void touched(aslot<KD>& x)
    {
        x.unsnap();
        x.verify(domain, r.next(), "model", cur);
        x.snap();
    }
    void ttouched(atslot<KD>& x) { averify<KD>(x.t, x.m, domain, r.next(), "transient", cur); }
    void verify_others()
    {
        for (auto& x : s)
            x.verify(domain, r.next(), "persistence", cur);
        for (auto& x : t)
            if (x.live)
                averify<KD>(x.t, x.m, domain, r.next(), "transient-isolation", cur);
    }

    amodel fresh(std::size_t n)
    {
        amodel m;
        for (std::size_t i = 0; i < n; ++i)
            m[key()] = val();
        return m;
    }

    C build(const amodel& m)
    {
        std::vector<std::pair<u64, u64>> v(m.begin(), m.end());
        for (std::size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[r.below(i)]);
        switch (r.below(7)) {
        case 0:
        case 4: {
            // elements whose key comes again replace those before, the
            // outcome of which for sets is one of them
            std::vector<std::pair<u64, u64>> w;
            for (auto& x : v) {
                if (!w.empty() && r.chance(1, 6)) {
                    auto k = r.pick(w).first;
                    w.push_back({k, m.at(k)});
                }
                if (r.chance(1, 5))
                    w.push_back({x.first, KD::is_set ? x.second : val()});
                w.push_back(x);
            }
            if (r.chance(1, 3)) {
                std::vector<E> e;
                for (auto& x : w)
                    e.push_back(KD::make(x.first, x.second));
                return C(e.begin(), e.end());
            }
            return from_range<C, false>(w.size(), [&](std::size_t i) { return KD::make(w[i].first, w[i].second); }, unsigned(r.next()));
        }
        case 1: {
            C c;
            for (auto& x : v)
                c = c.insert(KD::make(x.first, x.second));
            return c;
        }
        case 2: {
            C c;
            for (auto& x : v)
                c = std::move(c).insert(KD::make(x.first, x.second));
            return c;
        }
        case 3: {
            Tr tr;
            for (auto& x : v)
                tr.insert(KD::make(x.first, x.second));
            return tr.persistent();
        }
        default: {
            // with extra keys that are erased again, in place or not
            C c;
            auto extra = fresh(r.size(30));
            for (auto& x : extra)
                if (!m.count(x.first))
                    c = std::move(c).insert(KD::make(x.first, x.second));
            for (auto& x : v)
                c = std::move(c).insert(KD::make(x.first, x.second));
            auto how = r.below(3);
            Tr tr    = C(c).transient();
            for (auto& x : extra)
                if (!m.count(x.first)) {
                    if (how == 0)
                        c = c.erase(KD::mkkey(x.first));
                    else if (how == 1)
                        c = std::move(c).erase(KD::mkkey(x.first));
                    else
                        tr.erase(KD::mkkey(x.first));
                }
            return how == 2 ? tr.persistent() : c;
        }
        }
    }

    void op_build()
    {
        auto& x = r.pick(s);
        switch (r.below(4)) {
        case 0:
            ev("construct()", 0);
            x.c = C{};
            x.m.clear();
            break;
        case 1: {
            auto a = key(), b = key(), c = key();
            auto u = val(), v = val(), w = val();
            ev("construct{list}", 3, a, b);
            x.c = C{KD::make(a, u), KD::make(b, v), KD::make(c, w)};
            x.m = {};
            x.m[a] = u, x.m[b] = v, x.m[c] = w;
            break;
        }
        default: {
            auto m = fresh(r.size(domain));
            ev("build", m.size());
            x.c = build(m);
            x.m = std::move(m);
        }
        }
        touched(x);
    }

    aslot<KD>& dest(aslot<KD>& x) { return r.chance(1, 3) ? x : r.pick(s); }
    void finish(aslot<KD>& d, C&& c, amodel m)
    {
        d.c = std::move(c);
        d.m = std::move(m);
        touched(d);
    }

    // the function given to update
    template <typename U>
    struct fn_t
    {
        u64 expect, result, wrong_key;
        unsigned* calls;
        U operator()(U x) const
        {
            ++*calls;
            VT_CHECK(KD::uget(x) == expect, "callback", "update gives its function %llu, expected %llu", (unsigned long long) KD::uget(x), (unsigned long long) expect);
            fault().point(fault().on_fn, "fn");
            return KD::umake(wrong_key, result);
        }
    };

    // ops shared by the three ways to apply them; fn(op) applies to a C or
    // transient.  Returns the model of the result.
    // mode 0: const&, 1: &&, 2: transient
    template <typename App>
    void mutate(const amodel& m0, std::size_t which, App&& app)
    {
        auto n    = m0.size();
        auto m    = m0;
        auto pre  = which == 0 ? "" : which == 1 ? "&& " : "t.";
        char name[40];
        auto named = [&](const char* x) {
            std::snprintf(name, sizeof name, "%s%s", pre, x);
            static thread_local std::vector<std::string> keep; // stable storage for cur
            for (auto& s : keep)
                if (s == name)
                    return s.c_str();
            keep.reserve(64);
            keep.emplace_back(name);
            return keep.back().c_str();
        };
        switch (r.below(KD::is_set ? 6 : 10)) {
        case 0:
        case 1:
        case 2: {
            auto k = r.chance(1, 4) ? some_key(m) : key();
            auto v = val();
            bool had = m.count(k);
            ev(named("insert"), n, k, had);
            m[k] = v;
            app(m, [&](auto&& c) -> decltype(auto) { return std::forward<decltype(c)>(c).insert(KD::make(k, v)); });
            break;
        }
        case 3:
        case 4:
        case 5: {
            auto k = some_key(m);
            ev(named("erase"), n, k, m.count(k));
            m.erase(k);
            auto key = KD::mkkey(k);
            app(m, [&](auto&& c) -> decltype(auto) { return std::forward<decltype(c)>(c).erase(key); });
            break;
        }
        case 6:
        case 7:
            if constexpr (!KD::is_set) {
                auto k    = r.chance(1, 2) ? some_key(m) : key();
                auto v    = val();
                bool had  = m.count(k);
                auto old  = had ? m[k] : 0;
                ev(named("update"), n, k, had);
                m[k]           = v;
                unsigned calls = 0;
                fn_t<typename KD::U> fn{old, v, key(), &calls};
                app(m, [&](auto&& c) -> decltype(auto) { return std::forward<decltype(c)>(c).update(KD::mkkey(k), fn); });
                VT_CHECK(calls == 1, "callback", "update called its function %u times", calls);
            }
            break;
        case 8:
            if constexpr (!KD::is_set) {
                auto k   = some_key(m);
                auto v   = val();
                bool had = m.count(k);
                auto old = had ? m[k] : 0;
                ev(named("update_if_exists"), n, k, had);
                if (had)
                    m[k] = v;
                unsigned calls = 0;
                fn_t<typename KD::U> fn{old, v, key(), &calls};
                app(m, [&](auto&& c) -> decltype(auto) { return std::forward<decltype(c)>(c).update_if_exists(KD::mkkey(k), fn); });
                VT_CHECK(calls == (had ? 1u : 0u), "callback", "update_if_exists called its function %u times, the key is %s", calls, had ? "present" : "absent");
            }
            break;
        case 9:
            if constexpr (KD::is_map) {
                auto k   = r.chance(1, 4) ? some_key(m) : key();
                auto v   = val();
                ev(named("set"), n, k, m.count(k));
                m[k] = v;
                app(m, [&](auto&& c) -> decltype(auto) { return std::forward<decltype(c)>(c).set(KD::mkkey(k), elem<typename KD::T>::make(v)); });
            }
            break;
        }
    }

    void op_persist()
    {
        auto& x = r.pick(s);
        auto& d = dest(x);
        if (r.chance(1, 8)) {
            ev("copy", x.m.size());
            if (&d != &x) {
                d.c = x.c;
                d.m = x.m;
                if (d.identity() != x.identity())
                    fail("identity", "a copy has another identity than its source");
            } else {
                auto& y = x.c;
                x.c     = y;
            }
            touched(d);
            return;
        }
        mutate(x.m, 0, [&](amodel& m, auto&& fn) {
            const C& src = x.c;
            C c          = fn(src);
            finish(d, std::move(c), m);
        });
    }

    void op_move()
    {
        auto& x = r.pick(s);
        auto& d = dest(x);
        if (r.chance(1, 8)) {
            ev("move", x.m.size());
            x.unsnap();
            if (&d != &x) {
                d.c = std::move(x.c);
                d.m = std::move(x.m);
                x.c = C{};
                x.m.clear();
                touched(d);
            } else {
                auto& y = x.c;
                x.c     = std::move(y);
                touched(x);
            }
            return;
        }
        auto reps = r.chance(1, 3) ? 1 + r.below(12) : 1;
        for (; reps > 1; --reps)
            mutate(x.m, 1, [&](amodel& m, auto&& fn) {
                x.unsnap();
                x.c = fn(std::move(x.c));
                x.m = m;
            });
        mutate(x.m, 1, [&](amodel& m, auto&& fn) {
            x.unsnap();
            if (&x == &d) {
                x.c = fn(std::move(x.c));
                x.m = m;
            } else {
                C c = fn(std::move(x.c));
                if (r.chance(1, 2)) {
                    auto& y = r.pick(s);
                    x.c     = &y != &x ? y.c : C{};
                    x.m     = &y != &x ? y.m : amodel{};
                } else {
                    x.c = C{};
                    x.m.clear();
                }
                d.c = std::move(c);
                d.m = m;
            }
        });
        x.unsnap();
        touched(d);
    }

    void op_trans()
    {
        auto& x = r.pick(t);
        if (!x.live) {
            auto& y = r.pick(s);
            ev("transient", y.m.size());
            if (r.chance(1, 4)) {
                x.t = std::move(y.c).transient();
                x.m = std::move(y.m);
                y.m.clear();
                y.c = C{};
                y.unsnap();
            } else {
                x.t = y.c.transient();
                x.m = y.m;
            }
            x.live = true;
            ttouched(x);
        }
        for (auto rep = 1 + r.below(8); rep-- > 0 && x.live;) {
            auto n = x.m.size();
            switch (r.below(14)) {
            case 0: {
                ev("t.persistent &", n);
                auto& d = r.pick(s);
                d.c     = x.t.persistent();
                d.m     = x.m;
                touched(d);
                break;
            }
            case 1: {
                ev("t.persistent &&", n);
                auto& d = r.pick(s);
                d.c     = std::move(x.t).persistent();
                d.m     = x.m;
                x.t     = Tr{};
                x.m.clear();
                x.live = false;
                touched(d);
                break;
            }
            case 2: {
                auto& y = r.pick(t);
                if (&x == &y)
                    break;
                if (r.chance(1, 2)) {
                    ev("t.copy", n);
                    y.t    = x.t;
                    y.m    = x.m;
                    y.live = true;
                } else {
                    ev("t.move", n);
                    y.t    = std::move(x.t);
                    y.m    = std::move(x.m);
                    y.live = true;
                    x.t    = Tr{};
                    x.m.clear();
                    x.live = false;
                }
                ttouched(y);
                break;
            }
            default:
                mutate(x.m, 2, [&](amodel& m, auto&& fn) {
                    fn(x.t);
                    x.m = m;
                });
            }
            if (x.live)
                ttouched(x);
        }
    }

    void op_misc()
    {
        switch (r.below(6)) {
        case 0: {
            auto& x = r.pick(s);
            ev("release", x.m.size());
            x.c = C{};
            x.m.clear();
            x.unsnap();
            break;
        }
        case 1: eq(r.pick(s), r.pick(s)); break;
        case 2: diff(r.pick(s), r.pick(s)); break;
        default: {
            // a twin of another origin, or a near twin
            auto& x = r.pick(s);
            aslot<KD> y;
            y.m = x.m;
            for (auto k = r.below(3); k-- > 0;) {
                auto key_ = some_key(y.m);
                if (r.chance(1, 2))
                    y.m[key_] = val();
                else
                    y.m.erase(key_);
            }
            ev("twin", x.m.size(), y.m.size());
            if (r.chance(1, 2))
                y.c = build(y.m);
            else {
                // derived from x, sharing structure
                y.c = x.c;
                for (auto& e : x.m)
                    if (!y.m.count(e.first))
                        y.c = y.c.erase(KD::mkkey(e.first));
                for (auto& e : y.m)
                    if (!x.m.count(e.first) || x.m[e.first] != e.second)
                        y.c = y.c.insert(KD::make(e.first, e.second));
            }
            y.verify(domain, r.next(), "model", "twin");
            eq(x, y);
            diff(x, y);
            break;
        }
        }
    }

    void eq(aslot<KD>& x, aslot<KD>& y)
    {
        ev("==", x.m.size(), y.m.size());
        bool want = x.m == y.m;
        if (want)
            stats().add("equal_pairs");
        else
            stats().add("unequal_pairs");
        bool a = x.c == y.c, b = y.c == x.c, na = x.c != y.c, nb = y.c != x.c;
        VT_CHECK(a == want && b == want, "equality", "== gives %d and %d, expected %d (sizes %zu, %zu)", a, b, want, x.m.size(), y.m.size());
        VT_CHECK(na == !want && nb == !want, "equality", "!= is not the negation of ==");
    }

    void diff(aslot<KD>& x, aslot<KD>& y)
    {
        ev("diff", x.m.size(), y.m.size());
        amodel m = x.m;
        std::map<u64, int> seen;
        u64 na = 0, nr = 0, nc = 0;
        auto once = [&](u64 k) {
            if (seen[k]++)
                fail("diff", "key %llu is reported twice", (unsigned long long) k);
        };
        auto added = [&](const E& e) {
            auto k = KD::key(e);
            once(k);
            ++na;
            if (x.m.count(k) || !y.m.count(k) || y.m[k] != KD::val(e))
                fail("diff", "key %llu value %llu reported as added", (unsigned long long) k, (unsigned long long) KD::val(e));
            m[k] = KD::val(e);
        };
        auto removed = [&](const E& e) {
            auto k = KD::key(e);
            once(k);
            ++nr;
            if (y.m.count(k) || !x.m.count(k) || x.m[k] != KD::val(e))
                fail("diff", "key %llu value %llu reported as removed", (unsigned long long) k, (unsigned long long) KD::val(e));
            m.erase(k);
        };
        auto changed = [&](const E& a, const E& b) {
            auto k = KD::key(a);
            once(k);
            ++nc;
            if (KD::key(b) != k || !x.m.count(k) || !y.m.count(k) || x.m[k] != KD::val(a) || y.m[k] != KD::val(b) || x.m[k] == y.m[k])
                fail("diff", "key %llu reported as changed from %llu to %llu", (unsigned long long) k, (unsigned long long) KD::val(a), (unsigned long long) KD::val(b));
            m[k] = KD::val(b);
        };
        immer::diff(x.c, y.c, added, removed, changed);
        if (m != y.m)
            fail("diff", "applying the reported changes to the first value does not give the second (%zu vs %zu)", m.size(), y.m.size());
        stats().add("diff_added", na);
        stats().add("diff_removed", nr);
        stats().add("diff_changed", nc);
        if (r.chance(1, 4)) {
            // without the third function
            u64 a2 = 0, r2 = 0;
            immer::diff(x.c, y.c, [&](const E&) { ++a2; }, [&](const E&) { ++r2; });
            VT_CHECK(a2 == na && r2 == nr, "diff", "diff with two functions reports %llu/%llu, with three %llu/%llu", (unsigned long long) a2, (unsigned long long) r2, (unsigned long long) na, (unsigned long long) nr);
        }
    }

    void identities()
    {
        if (KD::is_table)
            return;
        for (std::size_t i = 0; i < NS; ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (s[i].identity() == s[j].identity()) {
                    if (s[i].m != s[j].m)
                        fail("identity", "after %s two values of sizes %zu and %zu with different contents have the same identity", cur, s[i].m.size(), s[j].m.size());
                    if (!s[i].m.empty())
                        stats().add("equal_identities");
                } else
                    stats().add("different_identities");
    }

    // lookups change nothing and create nothing
    template <typename X>
    void lookups(const X& c, const amodel& m)
    {
        for (int q = 0; q < 12; ++q) {
            auto k       = some_key(m);
            auto it      = m.find(k);
            auto key     = KD::mkkey(k);
            // the default key function of tables returns a copy of the key
            auto made    = [] { return KD::is_table ? u64(life().live.load()) : life().constructed.load(); };
            auto n0      = made();
            auto b0      = mon_heap<>::st().allocs + arena_heap<>::st().allocs;
            auto e0      = hash_mode().equals;
            auto h0      = hash_mode().hashes;
            bool present = false;
            const char* way = "";
            switch (q % 4) {
            case 0: way = "find"; present = c.find(key) != nullptr; break;
            case 1: way = "count"; present = c.count(key) == 1; break;
            case 2: way = "find of a compatible key"; present = c.find(probe{k}) != nullptr; break;
            default:
                if constexpr (!KD::is_set) {
                    way     = "[] of a compatible key";
                    present = it != m.end();
                    u64 v   = KD::uget(r.chance(1, 2) ? c[probe{k}] : c[key]);
                    if (v != (present ? it->second : 0))
                        fail("callback", "%s gives %llu", way, (unsigned long long) v);
                } else {
                    way     = "count of a compatible key";
                    present = c.count(probe{k}) == 1;
                }
            }
            VT_CHECK(present == (it != m.end()), "callback", "%s of key %llu says %d", way, (unsigned long long) k, int(present));
            VT_CHECK(made() == n0, "callback", "%s created %llu elements", way, (unsigned long long) (made() - n0));
            VT_CHECK(mon_heap<>::st().allocs + arena_heap<>::st().allocs == b0, "callback", "%s allocated", way);
            VT_CHECK(hash_mode().hashes - h0 <= 1, "callback", "%s hashed %llu times", way, (unsigned long long) (hash_mode().hashes - h0));
            VT_CHECK(hash_mode().equals - e0 <= m.size(), "callback", "%s compared %llu times in %zu elements", way, (unsigned long long) (hash_mode().equals - e0), m.size());
            stats().add("lookups_watched");
        }
    }

    void step()
    {
        auto tot = o.w_persist + o.w_move + o.w_trans + o.w_misc + o.w_build;
        auto k   = r.below(tot);
        if (k < o.w_persist)
            op_persist();
        else if ((k -= o.w_persist) < o.w_move)
            op_move();
        else if ((k -= o.w_move) < o.w_trans)
            op_trans();
        else if ((k -= o.w_trans) < o.w_misc)
            op_misc();
        else
            op_build();
        if (o.identity)
            identities();
        if (o.lookups) {
            auto& x = r.pick(s);
            note("%s lookups size=%zu hash=%s", KD::name, x.m.size(), hash_name(hash_mode().mode));
            lookups(x.c, x.m);
            auto& y = r.pick(t);
            if (y.live)
                lookups(y.t, y.m);
        }
        if (r.chance(o.verify_all_num, o.verify_all_den))
            verify_others();
    }
    void everything()
    {
        verify_others();
        for (auto& x : s)
            for (auto& y : s) {
                if (o.eq_all)
                    eq(x, y);
                if (o.diff_all)
                    diff(x, y);
            }
    }
    void teardown()
    {
        cur = "teardown";
        std::vector<int> order;
        for (std::size_t i = 0; i < NS + NT; ++i)
            order.push_back(int(i));
        for (std::size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[r.below(i)]);
        for (auto i : order) {
            if (i < int(NS)) {
                s[i].c = C{};
                s[i].m.clear();
                s[i].unsnap();
            } else {
                t[i - NS].t    = Tr{};
                t[i - NS].live = false;
            }
            if (r.chance(1, 4))
                verify_others();
        }
    }
};

} // namespace vt
