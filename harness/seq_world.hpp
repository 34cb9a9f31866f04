// Random histories of vector / flex_vector / array and their transients,
// differentially executed against plain mutable sequences.
#pragma once
#include "../engine/core.hpp"
#include "../engine/heaps.hpp"
#include "../engine/ranges.hpp"
#include "../engine/tracked.hpp"

#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

#include <iterator>
#include <list>

namespace vt {

using model_t = std::vector<u64>;

template <typename C>
struct traits;
template <typename T, typename M, immer::detail::rbts::bits_t B, immer::detail::rbts::bits_t L>
struct traits<immer::vector<T, M, B, L>>
{
    static constexpr bool flex = false, arr = false;
    static constexpr const char* name = "vector";
    static constexpr unsigned bits = B, bits_leaf = L;
};
template <typename T, typename M, immer::detail::rbts::bits_t B, immer::detail::rbts::bits_t L>
struct traits<immer::flex_vector<T, M, B, L>>
{
    static constexpr bool flex = true, arr = false;
    static constexpr const char* name = "flex_vector";
    static constexpr unsigned bits = B, bits_leaf = L;
};
template <typename T, typename M>
struct traits<immer::array<T, M>>
{
    static constexpr bool flex = false, arr = true;
    static constexpr const char* name = "array";
    static constexpr unsigned bits = 1, bits_leaf = 1;
};

// monotone source of element values
struct value_source
{
    u64 n = 0;
    u64 next(rng& r)
    {
        // mostly fresh values, sometimes from a small domain
        return r.chance(1, 6) ? r.below(4) : ++n * 7 + 5;
    }
};

// ------------------------------------------------------------ verification

template <typename C>
void verify_const(const C& c, const model_t& m, unsigned how, const char* kind, const char* what)
{
    using T = typename C::value_type;
    using E = elem<T>;
    VT_CHECK(c.size() == m.size(), kind, "%s: size is %zu, expected %zu", what, (std::size_t) c.size(), m.size());
    VT_CHECK(c.empty() == m.empty(), kind, "%s: empty() is %d with size %zu", what, int(c.empty()), m.size());
    auto bad = [&](std::size_t i, u64 got, const char* way) {
        fail(kind, "%s: element %zu of %zu read by %s is %llu, expected %llu", what, i, m.size(), way,
             (unsigned long long) got, (unsigned long long) m[i]);
    };
    switch (how % 6) {
    case 0: {
        std::size_t i = 0;
        for (auto&& x : c) {
            VT_CHECK(i < m.size(), kind, "%s: iteration goes on after %zu elements", what, i);
            auto g = E::get(x);
            if (g != m[i])
                bad(i, g, "iteration");
            ++i;
        }
        VT_CHECK(i == m.size(), kind, "%s: iteration ends after %zu of %zu", what, i, m.size());
        break;
    }
    case 1:
        for (std::size_t i = 0; i < m.size(); ++i) {
            auto g = E::get(c[i]);
            if (g != m[i])
                bad(i, g, "[]");
        }
        break;
    case 2: {
        std::size_t i = m.size();
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            VT_CHECK(i > 0, kind, "%s: reverse iteration too long", what);
            --i;
            auto g = E::get(*it);
            if (g != m[i])
                bad(i, g, "reverse iteration");
        }
        VT_CHECK(i == 0, kind, "%s: reverse iteration misses %zu", what, i);
        break;
    }
    case 3: {
        std::size_t i = 0;
        immer::for_each_chunk(c.begin(), c.end(), [&](const T* f, const T* l) {
            VT_CHECK(f <= l, kind, "%s: chunk with first > last", what);
            for (; f != l; ++f, ++i) {
                VT_CHECK(i < m.size(), kind, "%s: chunks hold more than %zu elements", what, m.size());
                auto g = E::get(*f);
                if (g != m[i])
                    bad(i, g, "chunks");
            }
        });
        VT_CHECK(i == m.size(), kind, "%s: chunks hold %zu of %zu", what, i, m.size());
        break;
    }
    case 4:
        for (std::size_t i = 0; i < m.size(); ++i) {
            auto g = E::get(c.at(i));
            if (g != m[i])
                bad(i, g, "at");
        }
        break;
    case 5: {
        auto b = c.begin();
        for (std::size_t k = 0; k < m.size(); ++k) {
            // strided, so that the cached chunk is left and re-entered
            auto i = (k * 7919) % m.size();
            auto g = E::get(b[i]);
            if (g != m[i])
                bad(i, g, "iterator[]");
        }
        break;
    }
    }
    if (how % 7 != 3)
        return;
    auto far = m.empty() ? 0 : std::size_t(how / 7) % m.size();
    for (std::size_t i : {m.size(), m.size() + 1 + how % 50, ~std::size_t{0}, far + (std::size_t{1} << 32), far + (std::size_t{1} << 31), far + (std::size_t{1} << 63)}) {
        bool thrown = false;
        try {
            (void) c.at(i);
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        VT_CHECK(thrown, kind, "%s: at(%zu) with size %zu does not throw out_of_range", what, i, m.size());
    }
}

// front, back and data, of what has them
template <typename C>
auto verify_ends_(const C& c, const model_t& m, const char* kind, const char* what, int) -> decltype(c.front(), c.back(), void())
{
    using E = elem<typename C::value_type>;
    if (!m.empty()) {
        VT_CHECK(E::get(c.front()) == m.front(), kind, "%s: front() is wrong", what);
        VT_CHECK(E::get(c.back()) == m.back(), kind, "%s: back() is wrong", what);
        VT_CHECK(&c.front() == &c[0] && &c.back() == &c[m.size() - 1], kind, "%s: front() or back() is another element", what);
    }
}
template <typename C>
void verify_ends_(const C&, const model_t&, const char*, const char*, long)
{}
template <typename C>
auto verify_data_(const C& c, const model_t& m, const char* kind, const char* what, int) -> decltype(c.data(), void())
{
    using E = elem<typename C::value_type>;
    auto p  = c.data();
    VT_CHECK(c.begin() == p && c.end() == p + m.size(), kind, "%s: data() and the iterators differ", what);
    for (std::size_t i = 0; i < m.size(); ++i)
        VT_CHECK(E::get(p[i]) == m[i] && &c[i] == p + i, kind, "%s: data()[%zu] is wrong", what, i);
}
template <typename C>
void verify_data_(const C&, const model_t&, const char*, const char*, long)
{}

template <typename C>
void verify_ends(const C& c, const model_t& m, const char* kind, const char* what)
{
    verify_ends_(c, m, kind, what, 0);
    verify_data_(c, m, kind, what, 0);
}

inline model_t sub(const model_t& m, std::size_t a, std::size_t b)
{
    a = std::min(a, m.size());
    b = std::max(a, std::min(b, m.size()));
    return model_t(m.begin() + a, m.begin() + b);
}
// a position at or after the end, maybe far
inline std::size_t beyond(rng& r, std::size_t n)
{
    switch (r.below(8)) {
    case 0: return (std::size_t{1} << 32) + r.below(n + 2);
    case 1: return (std::size_t{1} << (31 + r.below(33))) | r.below(n + 2);
    case 2: return ~std::size_t{} - r.below(3);
    default: return n + r.below(100);
    }
}
inline model_t cat(model_t a, const model_t& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

// ------------------------------------------------------------------ slots

template <typename C>
struct slot
{
    C c;
    model_t m;
    std::vector<const void*> addr;
    bool addr_known = false;
    decltype(std::declval<const C&>().identity()) id{};

    void snap()
    {
        id = c.identity();
        addr.clear();
        for (std::size_t i = 0; i < m.size(); ++i)
            addr.push_back(&c[i]);
        addr_known = true;
    }
    void unsnap() { addr_known = false; }

    // full check of this value
    void verify(unsigned how, const char* kind, const char* what)
    {
        verify_const(c, m, how, kind, what);
        verify_ends(c, m, kind, what);
        if (addr_known && !(id == c.identity()))
            fail(kind, "%s: the identity of a value changed while it was not mutated", what);
        if (addr_known)
            for (std::size_t i = 0; i < m.size(); ++i)
                if (addr[i] != &c[i])
                    fail(kind, "%s: the address of element %zu changed while the value was not mutated", what, i);
    }
};

template <typename Tr>
struct tslot
{
    Tr t;
    model_t m;
    bool live = false;
};

struct seq_opts
{
    u64 w_persist = 4, w_move = 4, w_trans = 4, w_misc = 3, w_build = 2;
    u64 verify_all_num = 1, verify_all_den = 5; // how often all others are re-checked
    bool addresses = true;
    bool eq_all    = false; // compare all pairs at the end
    bool identity  = false; // compare the identities of all pairs
    std::vector<u64> maxes{6, 12, 20, 40, 90, 150, 300, 300, 1200};
};

// One pool of values and transients of one container type.
template <typename C>
struct pool
{
    using T  = typename C::value_type;
    using E  = elem<T>;
    using Tr = typename C::transient_type;
    using K  = traits<C>;

    rng& r;
    value_source& vs;
    const seq_opts& o;
    std::size_t maxn;
    std::vector<slot<C>> s;
    std::vector<tslot<Tr>> t;
    static constexpr std::size_t NS = 6, NT = 3;

    pool(rng& r_, value_source& vs_, const seq_opts& o_, std::size_t maxn_)
        : r{r_}
        , vs{vs_}
        , o{o_}
        , maxn{maxn_}
        , s(NS)
        , t(NT)
    {}

    const char* cur = "";
    static inline thread_local u64 ops_done = 0;
    void ev(const char* op, std::size_t n, u64 a = 0, u64 b = 0)
    {
        cur = op;
        note("%s.%s size=%zu a=%llu b=%llu", K::name, op, n, (unsigned long long) a, (unsigned long long) b);
        ++status().op;
        auto c = ++ops_done;
        if ((c & (c - 1)) == 0 && c >= 64 && n > 2)
            stats().sample(status().text);
        if (n > 0)
            stats().see(mix(hash_bytes(op, std::strlen(op)) ^ mix(n * 1000003 + a * 31 + b) ^ K::bits * 64 + K::bits_leaf));
        stats().max("max_size", n);
    }

    u64 val() { return E::norm(vs.next(r)); }

    void touched(slot<C>& x)
    {
        x.unsnap();
        x.verify(unsigned(r.next()), "model", cur);
        if (o.addresses)
            x.snap();
    }
    void verify_others(const void* except = nullptr)
    {
        for (auto& x : s)
            if (&x != except)
                x.verify(unsigned(r.next()), "persistence", cur);
        for (auto& x : t)
            if (x.live && &x != except)
            {
                verify_const(x.t, x.m, unsigned(r.next()), "transient-isolation", cur);
                verify_ends(x.t, x.m, "transient-isolation", cur);
            }
    }
    void ttouched(tslot<Tr>& x)
    {
        verify_const(x.t, x.m, unsigned(r.next()), "transient", cur);
        verify_ends(x.t, x.m, "transient", cur);
    }

    // ---- building

    model_t fresh(std::size_t n)
    {
        model_t m(n);
        for (auto& x : m)
            x = val();
        return m;
    }
    std::vector<T> materialise(const model_t& m)
    {
        std::vector<T> v;
        v.reserve(m.size());
        for (auto x : m)
            v.push_back(E::make(x));
        return v;
    }

    C build_flat(const model_t& m, unsigned how)
    {
        switch (how % 7) {
        case 0: {
            auto v = materialise(m);
            return C(v.begin(), v.end());
        }
        case 5: return from_range<C, K::arr>(m.size(), [&](std::size_t i) { return E::make(m[i]); }, how / 7);
        case 1: {
            C c;
            for (auto x : m)
                c = c.push_back(E::make(x));
            return c;
        }
        case 2: {
            C c;
            for (auto x : m)
                c = std::move(c).push_back(E::make(x));
            return c;
        }
        case 3: {
            Tr tr;
            for (auto x : m)
                tr.push_back(E::make(x));
            return tr.persistent();
        }
        case 4: {
            auto v = materialise(m);
            std::list<T> l(v.begin(), v.end());
            return C(l.begin(), l.end());
        }
        default: {
            // fill, then overwrite
            C c = C(m.size(), E::make(1));
            for (std::size_t i = 0; i < m.size(); ++i)
                c = std::move(c).set(i, E::make(m[i]));
            return c;
        }
        }
    }

    // a value with the contents m, of a random structure
    C build(const model_t& m)
    {
        if constexpr (K::flex) {
            switch (r.below(8)) {
            case 0: {
                // pieces concatenated
                C c;
                std::size_t i = 0;
                while (i < m.size()) {
                    auto n = std::min<std::size_t>(m.size() - i, 1 + r.size(m.size()));
                    auto p = build_flat(sub(m, i, i + n), unsigned(r.next()));
                    c      = r.chance(1, 2) ? c + p : std::move(c) + std::move(p);
                    i += n;
                }
                return c;
            }
            case 1: {
                C c;
                for (std::size_t i = m.size(); i > 0; --i)
                    c = c.push_front(E::make(m[i - 1]));
                return c;
            }
            case 2: {
                // extra elements sliced off
                auto f = fresh(r.size(70)), b = fresh(r.size(70));
                auto c = build_flat(cat(cat(f, m), b), unsigned(r.next()));
                return r.chance(1, 2) ? c.drop(f.size()).take(m.size()) : c.take(f.size() + m.size()).drop(f.size());
            }
            case 3: {
                // extra elements erased
                auto k = r.size(m.size());
                auto f = fresh(r.size(60));
                auto c = build_flat(cat(cat(sub(m, 0, k), f), sub(m, k, m.size())), unsigned(r.next()));
                return c.erase(k, k + f.size());
            }
            case 4: {
                auto k = r.size(m.size());
                auto a = build_flat(sub(m, 0, k), unsigned(r.next()));
                auto b = build_flat(sub(m, k, m.size()), unsigned(r.next()));
                return a.insert(k, b);
            }
            default: return build_flat(m, unsigned(r.next()));
            }
        } else {
            if (r.chance(1, 4)) {
                auto b = fresh(r.size(60));
                auto c = build_flat(cat(m, b), unsigned(r.next()));
                if (r.chance(1, 2))
                    return c.take(m.size());
                else
                    return std::move(c).take(m.size());
            }
            return build_flat(m, unsigned(r.next()));
        }
    }

    void op_build()
    {
        auto& x = r.pick(s);
        auto n  = r.size(maxn);
        switch (r.below(6)) {
        case 0:
            ev("construct()", 0);
            x.c = C{};
            x.m.clear();
            break;
        case 1: {
            ev("construct(n,v)", n);
            auto v = val();
            x.c    = C(n, E::make(v));
            x.m    = model_t(n, v);
            break;
        }
        case 2: {
            ev("construct{list}", 5);
            auto m = fresh(5);
            x.c    = C{E::make(m[0]), E::make(m[1]), E::make(m[2]), E::make(m[3]), E::make(m[4])};
            x.m    = m;
            break;
        }
        default: {
            ev("build", n);
            auto m = fresh(n);
            x.c    = build(m);
            x.m    = std::move(m);
        }
        }
        touched(x);
    }

    // destination: the same slot or another one
    slot<C>& dest(slot<C>& x) { return r.chance(1, 3) ? x : r.pick(s); }

    void finish(slot<C>& d, C&& c, model_t m)
    {
        d.c = std::move(c);
        d.m = std::move(m);
        touched(d);
    }

    bool room(std::size_t n, std::size_t k) const { return n + k <= maxn * 2 + 8; }

    struct fn_t
    {
        u64 expect, result;
        unsigned* calls;
        T operator()(T x) const
        {
            ++*calls;
            VT_CHECK(E::get(x) == expect, "callback", "update gives its function %llu, the element is %llu",
                     (unsigned long long) E::get(x), (unsigned long long) expect);
            return E::make(result);
        }
    };

    void op_persist()
    {
        auto& x = r.pick(s);
        auto n  = x.m.size();
        auto& d = dest(x);
        switch (r.below(K::flex ? 13 : 5)) {
        case 0: {
            if (!room(n, 1))
                return;
            auto v = val();
            ev("push_back const&", n);
            auto c = x.c.push_back(E::make(v));
            finish(d, std::move(c), cat(x.m, {v}));
            break;
        }
        case 1: {
            if (!n)
                return;
            auto i = r.size(n - 1);
            auto v = val();
            ev("set const&", n, i);
            auto c = x.c.set(i, E::make(v));
            auto m = x.m;
            m[i]   = v;
            finish(d, std::move(c), m);
            break;
        }
        case 2: {
            if (!n)
                return;
            auto i = r.size(n - 1);
            auto v = val();
            ev("update const&", n, i);
            unsigned calls = 0;
            auto c         = x.c.update(i, fn_t{x.m[i], v, &calls});
            VT_CHECK(calls == 1, "callback", "update called its function %u times", calls);
            auto m = x.m;
            m[i]   = v;
            finish(d, std::move(c), m);
            break;
        }
        case 3: {
            auto k = r.chance(1, 12) ? beyond(r, n) : r.size(n);
            ev("take const&", n, k);
            auto c = x.c.take(k);
            finish(d, std::move(c), sub(x.m, 0, k));
            break;
        }
        case 4: {
            ev("copy", n);
            if (&d != &x) {
                d.c = x.c;
                d.m = x.m;
                touched(d);
                if (!(d.c.identity() == x.c.identity()))
                    fail("identity", "a copy has another identity than its source");
            } else {
                auto& y = x.c;
                x.c     = y; // self-assignment
                touched(x);
            }
            break;
        }
        default:
            if constexpr (K::flex) {
                switch (r.below(8)) {
                case 0: {
                    auto k = r.chance(1, 12) ? beyond(r, n) : r.size(n);
                    ev("drop const&", n, k);
                    auto c = x.c.drop(k);
                    finish(d, std::move(c), sub(x.m, k, n));
                    break;
                }
                case 1: {
                    if (!room(n, 1))
                        return;
                    auto v = val();
                    ev("push_front", n);
                    auto c = x.c.push_front(E::make(v));
                    finish(d, std::move(c), cat({v}, x.m));
                    break;
                }
                case 2: {
                    if (!room(n, 1))
                        return;
                    auto v = val();
                    auto i = r.size(n);
                    ev("insert const&", n, i);
                    auto c = x.c.insert(i, E::make(v));
                    auto m = x.m;
                    m.insert(m.begin() + i, v);
                    finish(d, std::move(c), m);
                    break;
                }
                case 3: {
                    auto& y = r.pick(s);
                    if (!room(n, y.m.size()))
                        return;
                    auto i = r.size(n);
                    ev("insert(values) const&", n, i, y.m.size());
                    auto c = x.c.insert(i, y.c);
                    auto m = x.m;
                    auto z = y.m;
                    m.insert(m.begin() + i, z.begin(), z.end());
                    finish(d, std::move(c), m);
                    break;
                }
                case 4: {
                    if (!n)
                        return;
                    auto i = r.size(n - 1);
                    ev("erase const&", n, i);
                    auto c = x.c.erase(i);
                    auto m = x.m;
                    m.erase(m.begin() + i);
                    finish(d, std::move(c), m);
                    break;
                }
                case 5: {
                    auto i = r.size(n), j = r.size(n);
                    ev("erase range const&", n, i, j);
                    auto c = x.c.erase(i, j);
                    auto m = x.m;
                    if (j > i)
                        m.erase(m.begin() + i, m.begin() + j);
                    finish(d, std::move(c), m);
                    break;
                }
                default: {
                    auto& y = r.pick(s);
                    if (!room(n, y.m.size()))
                        return;
                    ev("concat const&", n, y.m.size());
                    auto c = x.c + y.c;
                    finish(d, std::move(c), cat(x.m, y.m));
                    break;
                }
                }
            }
        }
    }

    // r-value operations.  `x` is consumed; the result goes to d.
    template <typename Fn>
    void consume(slot<C>& x, slot<C>& d, model_t m, Fn&& fn)
    {
        x.unsnap();
        if (&x == &d) {
            x.c = fn(std::move(x.c));
            x.m = std::move(m);
            touched(x);
        } else {
            C res = fn(std::move(x.c));
            // x.c has been moved from: destroy it, or assign to it
            if (r.chance(1, 2)) {
                auto& y = r.pick(s);
                if (&y != &x) {
                    x.c = y.c;
                    x.m = y.m;
                } else {
                    x.c = C{};
                    x.m.clear();
                }
            } else {
                x.c = C{};
                x.m.clear();
            }
            x.unsnap();
            d.c = std::move(res);
            d.m = std::move(m);
            touched(d);
        }
    }

    void op_move()
    {
        auto& x = r.pick(s);
        auto n  = x.m.size();
        auto& d = dest(x);
        switch (r.below(K::flex ? 14 : 6)) {
        case 0: {
            auto k = 1 + r.size(std::min<std::size_t>(40, maxn));
            if (!room(n, k))
                return;
            ev("push_back &&", n, k);
            auto add = fresh(k);
            consume(x, d, cat(x.m, add), [&](C&& c) {
                C y = std::move(c);
                for (auto v : add)
                    y = std::move(y).push_back(E::make(v));
                return y;
            });
            break;
        }
        case 1: {
            if (!n)
                return;
            auto i = r.size(n - 1);
            auto v = val();
            auto m = x.m;
            m[i]   = v;
            ev("set &&", n, i);
            consume(x, d, m, [&](C&& c) -> C { return std::move(c).set(i, E::make(v)); });
            break;
        }
        case 2: {
            if (!n)
                return;
            auto i = r.size(n - 1);
            auto v = val();
            auto m = x.m;
            auto e = m[i];
            m[i]   = v;
            ev("update &&", n, i);
            unsigned calls = 0;
            consume(x, d, m, [&](C&& c) -> C { return std::move(c).update(i, fn_t{e, v, &calls}); });
            VT_CHECK(calls == 1, "callback", "update called its function %u times", calls);
            break;
        }
        case 3: {
            auto k = r.chance(1, 12) ? beyond(r, n) : r.size(n);
            ev("take &&", n, k);
            consume(x, d, sub(x.m, 0, k), [&](C&& c) -> C { return std::move(c).take(k); });
            break;
        }
        case 4: {
            ev("move", n);
            if (&d != &x) {
                d.c = std::move(x.c);
                d.m = std::move(x.m);
                x.c = C{};
                x.m.clear();
                x.unsnap();
                touched(d);
            } else {
                auto& y = x.c;
                x.unsnap();
                x.c = std::move(y); // self-move
                touched(x);
            }
            break;
        }
        case 5: {
            ev("swap", n);
            if (&d != &x) {
                using std::swap;
                swap(d.c, x.c);
                swap(d.m, x.m);
                swap(d.addr, x.addr);
                swap(d.addr_known, x.addr_known);
                swap(d.id, x.id);
                d.verify(unsigned(r.next()), "model", cur);
                x.verify(unsigned(r.next()), "model", cur);
            }
            break;
        }
        default:
            if constexpr (K::flex) {
                switch (r.below(9)) {
                case 0: {
                    auto k = r.chance(1, 12) ? beyond(r, n) : r.size(n);
                    ev("drop &&", n, k);
                    consume(x, d, sub(x.m, k, n), [&](C&& c) -> C { return std::move(c).drop(k); });
                    break;
                }
                case 1: {
                    if (!room(n, 1))
                        return;
                    auto v = val();
                    auto i = r.size(n);
                    auto m = x.m;
                    m.insert(m.begin() + i, v);
                    ev("insert &&", n, i);
                    consume(x, d, m, [&](C&& c) -> C { return std::move(c).insert(i, E::make(v)); });
                    break;
                }
                case 2: {
                    auto& y = r.pick(s);
                    if (!room(n, y.m.size()) || &y == &x)
                        return;
                    auto i = r.size(n);
                    auto m = x.m;
                    m.insert(m.begin() + i, y.m.begin(), y.m.end());
                    ev("insert(values) &&", n, i, y.m.size());
                    C other = y.c;
                    consume(x, d, m, [&](C&& c) -> C { return std::move(c).insert(i, std::move(other)); });
                    break;
                }
                case 3: {
                    if (!n)
                        return;
                    auto i = r.size(n - 1);
                    auto m = x.m;
                    m.erase(m.begin() + i);
                    ev("erase &&", n, i);
                    consume(x, d, m, [&](C&& c) -> C { return std::move(c).erase(i); });
                    break;
                }
                case 4: {
                    auto i = r.size(n), j = r.size(n);
                    auto m = x.m;
                    if (j > i)
                        m.erase(m.begin() + i, m.begin() + j);
                    ev("erase range &&", n, i, j);
                    consume(x, d, m, [&](C&& c) -> C { return std::move(c).erase(i, j); });
                    break;
                }
                case 5: {
                    auto& y = r.pick(s);
                    if (!room(n, y.m.size()) || &y == &x)
                        return;
                    ev("concat && const&", n, y.m.size());
                    auto m = cat(x.m, y.m);
                    auto z = y.c;
                    consume(x, d, m, [&](C&& c) -> C { return std::move(c) + z; });
                    break;
                }
                case 6: {
                    auto& y = r.pick(s);
                    if (!room(n, y.m.size()) || &y == &x)
                        return;
                    ev("concat const& &&", n, y.m.size());
                    auto m = cat(y.m, x.m);
                    auto z = y.c;
                    consume(x, d, m, [&](C&& c) -> C { return z + std::move(c); });
                    break;
                }
                default: {
                    auto& y = r.pick(s);
                    if (!room(n, y.m.size()) || &y == &x)
                        return;
                    ev("concat && &&", n, y.m.size());
                    auto m = cat(x.m, y.m);
                    // y is consumed too, or a copy of it is
                    if (r.chance(1, 2)) {
                        C z = y.c;
                        consume(x, d, m, [&](C&& c) -> C { return std::move(c) + std::move(z); });
                    } else {
                        auto z = std::move(y.c);
                        y.c    = C{};
                        y.m.clear();
                        y.unsnap();
                        consume(x, d, m, [&](C&& c) -> C { return std::move(c) + std::move(z); });
                    }
                    break;
                }
                }
            }
        }
    }

    tslot<Tr>* some_transient()
    {
        auto& x = r.pick(t);
        if (!x.live) {
            auto& y = r.pick(s);
            ev("transient", y.m.size());
            if (r.chance(1, 4)) {
                x.t = std::move(y.c).transient();
                x.m = std::move(y.m);
                y.m.clear();
                y.c = C{};
                y.unsnap();
            } else {
                x.t = y.c.transient();
                x.m = y.m;
            }
            x.live = true;
            ttouched(x);
        }
        return &x;
    }

    void op_trans()
    {
        auto& x = *some_transient();
        for (auto rep = 1 + r.below(6); rep-- > 0 && x.live;)
            trans_step(x);
    }

    void trans_step(tslot<Tr>& x)
    {
        auto n = x.m.size();
        switch (r.below(K::flex ? 14 : 9)) {
        case 0:
        case 1: {
            auto k = 1 + r.size(std::min<std::size_t>(40, maxn));
            if (!room(n, k))
                return;
            ev("t.push_back", n, k);
            for (u64 i = 0; i < k; ++i) {
                auto v = val();
                x.t.push_back(E::make(v));
                x.m.push_back(v);
            }
            break;
        }
        case 2: {
            if (!n)
                return;
            auto i = r.size(n - 1);
            auto v = val();
            ev("t.set", n, i);
            x.t.set(i, E::make(v));
            x.m[i] = v;
            break;
        }
        case 3: {
            if (!n)
                return;
            auto i = r.size(n - 1);
            auto v = val();
            ev("t.update", n, i);
            unsigned calls = 0;
            x.t.update(i, fn_t{x.m[i], v, &calls});
            VT_CHECK(calls == 1, "callback", "update called its function %u times", calls);
            x.m[i] = v;
            break;
        }
        case 4: {
            auto k = r.chance(1, 12) ? beyond(r, n) : r.size(n);
            ev("t.take", n, k);
            x.t.take(k);
            x.m = sub(x.m, 0, k);
            break;
        }
        case 5: {
            ev("t.persistent &", n);
            auto& d = r.pick(s);
            d.c     = x.t.persistent();
            d.m     = x.m;
            touched(d);
            break;
        }
        case 6: {
            ev("t.persistent &&", n);
            auto& d = r.pick(s);
            d.c     = std::move(x.t).persistent();
            d.m     = x.m;
            x.t     = Tr{};
            x.m.clear();
            x.live = false;
            touched(d);
            return;
        }
        case 7: {
            // copies and moves of transients
            auto& y = r.pick(t);
            if (&x == &y)
                return;
            if (r.chance(1, 2)) {
                ev("t.copy", n);
                y.t    = x.t;
                y.m    = x.m;
                y.live = true;
                ttouched(y);
            } else {
                ev("t.move", n);
                y.t    = std::move(x.t);
                y.m    = std::move(x.m);
                y.live = true;
                x.t    = Tr{};
                x.m.clear();
                x.live = false;
                ttouched(y);
                return;
            }
            break;
        }
        case 8: {
            if constexpr (K::arr) {
                ev("t.data_mut", n);
                auto p = x.t.data_mut();
                for (std::size_t i = 0; i < n; i += 1 + r.below(5)) {
                    auto v = val();
                    p[i]   = E::make(v);
                    x.m[i] = v;
                }
            } else {
                ev("t.drop it", n);
                x.t = Tr{};
                x.m.clear();
                x.live = false;
                return;
            }
            break;
        }
        default:
            if constexpr (K::flex) {
                auto k  = r.below(5);
                auto& y = r.pick(t);
                if (k == 0) {
                    auto q = r.chance(1, 12) ? beyond(r, n) : r.size(n);
                    ev("t.drop", n, q);
                    x.t.drop(q);
                    x.m = sub(x.m, q, n);
                } else {
                    if (&x == &y || !y.live || !room(n, y.m.size()))
                        return;
                    auto ny = y.m.size();
                    switch (k) {
                    case 1:
                        ev("t.append &", n, ny);
                        x.t.append(y.t);
                        x.m = cat(x.m, y.m);
                        ttouched(y);
                        break;
                    case 2:
                        ev("t.prepend &", n, ny);
                        x.t.prepend(y.t);
                        x.m = cat(y.m, x.m);
                        ttouched(y);
                        break;
                    case 3:
                        ev("t.append &&", n, ny);
                        x.t.append(std::move(y.t));
                        x.m = cat(x.m, y.m);
                        y.t = Tr{};
                        y.m.clear();
                        y.live = false;
                        break;
                    default:
                        ev("t.prepend &&", n, ny);
                        x.t.prepend(std::move(y.t));
                        x.m = cat(y.m, x.m);
                        y.t = Tr{};
                        y.m.clear();
                        y.live = false;
                        break;
                    }
                }
            }
        }
        if (x.live)
            ttouched(x);
    }

    void op_misc()
    {
        switch (r.below(4)) {
        case 0: {
            auto& x = r.pick(s);
            ev("release", x.m.size());
            x.c = C{};
            x.m.clear();
            x.unsnap();
            break;
        }
        case 1: {
            // equality of two pool values, in both directions
            auto& x = r.pick(s);
            auto& y = r.pick(s);
            eq(x, y);
            break;
        }
        case 2: {
            // equality with a structurally different twin, or a near twin
            auto& x = r.pick(s);
            auto m  = x.m;
            bool same = r.chance(1, 2);
            if (!same && !m.empty()) {
                auto i = r.size(m.size() - 1);
                m[i]   = E::norm(m[i] + 1);
            }
            ev("equality with a twin", m.size(), same);
            slot<C> y;
            y.c = build(m);
            y.m = std::move(m);
            y.verify(unsigned(r.next()), "model", "build");
            eq(x, y);
            break;
        }
        default: {
            // shared twin with one element changed and possibly changed back
            auto& x = r.pick(s);
            auto n  = x.m.size();
            if (!n)
                return;
            auto i = r.size(n - 1);
            ev("equality with a near copy", n, i);
            slot<C> y;
            auto v = E::norm(x.m[i] + 1);
            y.c    = x.c.set(i, E::make(v));
            y.m    = x.m;
            y.m[i] = v;
            eq(x, y);
            y.c    = y.c.set(i, E::make(x.m[i]));
            y.m    = x.m;
            eq(x, y);
            break;
        }
        }
    }

    void eq(slot<C>& x, slot<C>& y)
    {
        ev("==", x.m.size(), y.m.size());
        bool want = x.m == y.m;
        if (want)
            stats().add("equal_pairs");
        bool a = x.c == y.c, b = y.c == x.c, na = x.c != y.c, nb = y.c != x.c;
        VT_CHECK(a == want && b == want, "equality", "== gives %d and %d, expected %d (sizes %zu, %zu)", a, b, want, x.m.size(), y.m.size());
        VT_CHECK(na == !want && nb == !want, "equality", "!= is not the negation of ==");
    }
    void eq_everything()
    {
        for (auto& x : s)
            for (auto& y : s)
                eq(x, y);
    }

    // equal identities, equal contents
    void identities()
    {
        for (std::size_t i = 0; i < NS; ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (s[i].c.identity() == s[j].c.identity()) {
                    if (s[i].m != s[j].m)
                        fail("identity", "after %s two values of sizes %zu and %zu with different contents have the same identity", cur, s[i].m.size(), s[j].m.size());
                    if (!s[i].m.empty())
                        stats().add("equal_identities");
                } else
                    stats().add("different_identities");
    }

    void step()
    {
        auto tot = o.w_persist + o.w_move + o.w_trans + o.w_misc + o.w_build;
        auto k   = r.below(tot);
        if (k < o.w_persist)
            op_persist();
        else if ((k -= o.w_persist) < o.w_move)
            op_move();
        else if ((k -= o.w_move) < o.w_trans)
            op_trans();
        else if ((k -= o.w_trans) < o.w_misc)
            op_misc();
        else
            op_build();
        if (o.identity)
            identities();
        if (r.chance(o.verify_all_num, o.verify_all_den))
            verify_others();
    }

    void teardown()
    {
        // release everything in a random order, the rest being checked
        std::vector<int> order;
        for (std::size_t i = 0; i < NS + NT; ++i)
            order.push_back(int(i));
        for (std::size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[r.below(i)]);
        cur = "teardown";
        for (auto i : order) {
            if (i < int(NS)) {
                s[i].c = C{};
                s[i].m.clear();
                s[i].unsnap();
            } else {
                t[i - NS].t    = Tr{};
                t[i - NS].live = false;
            }
            if (r.chance(1, 4))
                verify_others();
        }
    }
};

} // namespace vt
