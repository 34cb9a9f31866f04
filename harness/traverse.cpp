// Traversals: iterators, ranges and chunks must all present the same sequence.
//   VT_T VT_MP VT_B VT_BL (sequences), VT_K VT_HB (associative)
//   VT_SEQ / VT_ASSOC: which take part
#include "seq_world.hpp"
#include "assoc_world.hpp"
#include <numeric>

using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using V  = immer::vector<T, MP, VT_B, VT_BL>;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;
using A  = immer::array<T, MP>;

static u64 g_eval = 0;

static void bad(const char* what, u64 i, u64 got, u64 want)
{
    fail("traversal", "%s: at %llu got %llu, expected %llu", what, (unsigned long long) i, (unsigned long long) got, (unsigned long long) want);
}

// the whole container, or a range of it; transients only offer the latter
template <typename C>
struct whole_range
{
    const C& c;
    auto& impl() const { return c.impl(); }
};
template <typename T_, typename M_, immer::detail::rbts::bits_t B_, immer::detail::rbts::bits_t L_>
struct whole_range<immer::vector_transient<T_, M_, B_, L_>>
{
    const immer::vector_transient<T_, M_, B_, L_>& c;
    auto& impl() const { return c.begin().impl(); }
};
template <typename T_, typename M_, immer::detail::rbts::bits_t B_, immer::detail::rbts::bits_t L_>
struct whole_range<immer::flex_vector_transient<T_, M_, B_, L_>>
{
    const immer::flex_vector_transient<T_, M_, B_, L_>& c;
    auto& impl() const { return c.begin().impl(); }
};
template <typename T_, typename M_>
struct whole_range<immer::array_transient<T_, M_>>
{
    struct impl_t
    {
        const T_ *b, *e;
        template <typename Fn> void for_each_chunk(Fn&& fn) const { immer::for_each_chunk(b, e, fn); }
        template <typename Fn> bool for_each_chunk_p(Fn&& fn) const { return immer::for_each_chunk_p(b, e, fn); }
    };
    const immer::array_transient<T_, M_>& c;
    impl_t impl() const { return {c.begin(), c.end()}; }
};

template <typename C>
static void chunks(const C& c_, const model_t& m, std::size_t a, std::size_t b, rng& r, bool whole)
{
    whole_range<C> w{c_};
    auto& c = c_;
    using X     = typename C::value_type;
    using E     = elem<X>;
    auto first  = c.begin() + a;
    auto last   = c.begin() + b;
    auto i      = a;
    auto ranges = 0u;
    auto eat    = [&](const X* f, const X* l) {
        if (f > l)
            fail("traversal", "chunk with first > last");
        ++ranges;
        for (; f != l; ++f, ++i) {
            if (i >= b)
                fail("traversal", "chunks of [%zu, %zu) of %zu go on", a, b, m.size());
            if (f != &c[i])
                fail("traversal", "chunks of [%zu, %zu) of %zu: element %zu is at another address", a, b, m.size(), i);
            if (E::get(*f) != m[i])
                bad("chunks", i, E::get(*f), m[i]);
        }
    };
    ++g_eval;
    if (whole)
        immer::for_each_chunk(w, eat);
    else
        immer::for_each_chunk(first, last, eat);
    if (i != b)
        fail("traversal", "chunks of [%zu, %zu) of %zu end at %zu", a, b, m.size(), i);
    stats().max("chunks_in_one_traversal", ranges);
    // stop after some chunks
    auto stop   = r.size(ranges + 1);
    auto calls  = 0u;
    bool over   = false;
    i           = a;
    auto eatp   = [&](const X* f, const X* l) {
        if (over)
            fail("traversal", "chunk traversal of [%zu, %zu) of %zu goes on after the function returned false", a, b, m.size());
        eat(f, l);
        over = calls++ == stop;
        return !over;
    };
    bool res = whole ? immer::for_each_chunk_p(w, eatp) : immer::for_each_chunk_p(first, last, eatp);
    if (res == over)
        fail("traversal", "for_each_chunk_p of [%zu, %zu) of %zu returns %d, the function %s", a, b, m.size(), int(res), over ? "returned false" : "never returned false");
    if (!over && i != b)
        fail("traversal", "for_each_chunk_p of [%zu, %zu) of %zu ends at %zu", a, b, m.size(), i);
    if (over)
        stats().add("stopped_traversals");
    ++g_eval;
    // the algorithms
    switch (r.below(4)) {
    case 0: {
        auto add = [](u64 s, const X& x) { return mix(s ^ E::get(x)); };
        u64 want = 1;
        for (auto k = a; k < b; ++k)
            want = mix(want ^ m[k]);
        u64 got = whole ? immer::accumulate(w, u64{1}, add) : immer::accumulate(first, last, u64{1}, add);
        if (got != want)
            fail("traversal", "accumulate over [%zu, %zu) of %zu", a, b, m.size());
        break;
    }
    case 1: {
        model_t got;
        auto fn = [&](const X& x) { got.push_back(E::get(x)); };
        if (whole)
            immer::for_each(w, fn);
        else
            immer::for_each(first, last, fn);
        if (got != sub(m, a, b))
            fail("traversal", "for_each over [%zu, %zu) of %zu gives %zu elements", a, b, m.size(), got.size());
        break;
    }
    case 2: {
        std::vector<X> out;
        if (whole)
            immer::copy(w, std::back_inserter(out));
        else
            immer::copy(first, last, std::back_inserter(out));
        if (out.size() != b - a)
            fail("traversal", "copy of [%zu, %zu) of %zu gives %zu elements", a, b, m.size(), out.size());
        for (std::size_t k = 0; k < out.size(); ++k)
            if (E::get(out[k]) != m[a + k])
                bad("copy", a + k, E::get(out[k]), m[a + k]);
        break;
    }
    default: {
        if (a == b) {
            if (!(whole ? immer::all_of(w, [](auto&&) { return false; }) : immer::all_of(first, last, [](auto&&) { return false; })))
                fail("traversal", "all_of an empty range is false");
            break;
        }
        // an index that is the first where the predicate fails, or none
        auto k        = a + r.below(b - a + 1);
        std::size_t n = a;
        auto p        = [&](const X& x) {
            if (n > k || n >= b)
                fail("traversal", "all_of calls its predicate after it failed");
            if (E::get(x) != m[n])
                bad("all_of", n, E::get(x), m[n]);
            return n++ != k;
        };
        bool got = whole ? immer::all_of(w, std::ref(p)) : immer::all_of(first, last, std::ref(p));
        if (got != (k == b))
            fail("traversal", "all_of over [%zu, %zu) of %zu is %d", a, b, m.size(), int(got));
        if (n != std::min(k + 1, b))
            fail("traversal", "all_of over [%zu, %zu) of %zu looked at %zu elements, expected %zu", a, b, m.size(), n - a, std::min(k + 1, b) - a);
    }
    }
    ++g_eval;
}

template <typename X>
static const X* arrow(const X* p)
{
    return p;
}
template <typename It>
static auto arrow(const It& it) -> decltype(it.operator->())
{
    return it.operator->();
}

template <typename C>
static void iterators(const C& c, const model_t& m, rng& r)
{
    using X = typename C::value_type;
    using E = elem<X>;
    auto n  = m.size();
    auto b = c.begin(), e = c.end();
    using It = decltype(b);
    static_assert(std::is_same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>::value, "");
    if (std::size_t(e - b) != n || std::size_t(std::distance(b, e)) != n)
        fail("traversal", "end - begin is %lld, expected %zu", (long long) (e - b), n);
    if ((b == e) != (n == 0) || (b != e) == (n == 0) || (b < e) != (n > 0))
        fail("traversal", "begin and end compare wrong with %zu elements", n);
    // forwards, both increments
    {
        std::size_t i = 0;
        for (auto it = c.begin(); it != e; ++i) {
            const X* p = &*it;
            if (i >= n)
                fail("traversal", "iteration goes on");
            if (p != &c[i] || arrow(it) != p)
                fail("traversal", "iteration: element %zu is at another address", i);
            if (E::get(*p) != m[i])
                bad("forward iteration", i, E::get(*p), m[i]);
            if (i % 3)
                ++it;
            else {
                auto old = it++;
                if (&*old != p || !(old < it) || it - old != 1)
                    fail("traversal", "post-increment at %zu", i);
            }
        }
        if (i != n)
            fail("traversal", "iteration ends after %zu of %zu", i, n);
        ++g_eval;
    }
    // backwards
    {
        std::size_t i = n;
        for (auto it = c.end(); it != b;) {
            if (i % 3)
                --it;
            else {
                auto old = it--;
                if (old - it != 1 || !(it < old))
                    fail("traversal", "post-decrement at %zu", i);
            }
            --i;
            if (&*it != &c[i])
                fail("traversal", "backward iteration: element %zu is at another address", i);
            if (E::get(*it) != m[i])
                bad("backward iteration", i, E::get(*it), m[i]);
        }
        if (i != 0)
            fail("traversal", "backward iteration leaves %zu", i);
        i = n;
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            --i;
            if (E::get(*it) != m[i])
                bad("reverse iteration", i, E::get(*it), m[i]);
        }
        if (i)
            fail("traversal", "reverse iteration leaves %zu", i);
        g_eval += 2;
    }
    if (!n)
        return;
    // random walk of two iterators
    std::size_t p[2] = {0, n};
    It it[2]         = {c.begin(), c.end()};
    auto steps       = 12 + r.below(30);
    for (u64 s = 0; s < steps; ++s) {
        auto w = r.below(2);
        auto q = r.chance(1, 3) ? r.size(n) : r.below(n + 1);
        auto d = std::ptrdiff_t(q) - std::ptrdiff_t(p[w]);
        switch (r.below(9)) {
        case 0: it[w] += d; break;
        case 1: it[w] -= -d; break;
        case 2: it[w] = it[w] + d; break;
        case 3: it[w] = it[w] - -d; break;
        case 4: it[w] = d + it[w]; break;
        case 5:
            it[w] = it[1 - w];
            q     = p[1 - w];
            break;
        case 6:
            std::advance(it[w], d);
            break;
        case 7:
            q = p[w];
            if (q < n)
                ++it[w], ++q;
            break;
        default:
            q = p[w];
            if (q > 0)
                --it[w], --q;
        }
        p[w] = q;
        if (q < n) {
            if (E::get(*it[w]) != m[q])
                bad("iterator", q, E::get(*it[w]), m[q]);
            if (&*it[w] != &c[q])
                fail("traversal", "iterator at %zu refers to another address", q);
        }
        auto k = r.below(n);
        auto o = std::ptrdiff_t(k) - std::ptrdiff_t(q);
        if (E::get(it[w][o]) != m[k])
            bad("iterator[]", k, E::get(it[w][o]), m[k]);
        auto dd = std::ptrdiff_t(p[1]) - std::ptrdiff_t(p[0]);
        if (it[1] - it[0] != dd || it[0] - it[1] != -dd)
            fail("traversal", "iterator distance is %lld, expected %lld", (long long) (it[1] - it[0]), (long long) dd);
        if ((it[0] == it[1]) != (dd == 0) || (it[0] != it[1]) != (dd != 0) || (it[0] < it[1]) != (dd > 0) || (it[0] > it[1]) != (dd < 0) ||
            (it[0] <= it[1]) != (dd >= 0) || (it[0] >= it[1]) != (dd <= 0))
            fail("traversal", "iterators at %zu and %zu compare wrong", p[0], p[1]);
        if (std::size_t(it[w] - b) != q || std::size_t(e - it[w]) != n - q)
            fail("traversal", "position of an iterator at %zu", q);
        ++g_eval;
    }
    // default construction and assignment, and being used beyond that
    It x;
    x = c.begin() + (n - 1);
    if (E::get(*x) != m[n - 1])
        bad("iterator", n - 1, E::get(*x), m[n - 1]);
}

template <typename C>
static void traverse(const C& c, const model_t& m, rng& r)
{
    iterators(c, m, r);
    auto n = m.size();
    chunks(c, m, 0, n, r, true);
    for (int k = 0; k < 6; ++k) {
        auto a = r.size(n), b = r.size(n);
        if (a > b)
            std::swap(a, b);
        if (k == 0)
            a = b;
        if (k == 1)
            a = 0;
        if (k == 2)
            b = n;
        chunks(c, m, a, b, r, false);
        stats().see(mix(a * 7919 + b) ^ mix(n) ^ traits<V>::bits);
    }
}

template <typename P>
static void sequences(P& p, rng& r, u64 ops)
{
    for (u64 i = 0; i < ops; ++i)
        p.step();
    for (auto& x : p.s) {
        note("traversal of %s size=%zu", traits<decltype(x.c)>::name, x.m.size());
        ++status().op;
        traverse(x.c, x.m, r);
        auto y = x.c; // another value, other iterators
        if (!x.m.empty()) {
            auto a = r.size(x.m.size()), b = r.size(x.m.size());
            if (a > b)
                std::swap(a, b);
            // from a pair of iterators
            using C = decltype(x.c);
            C z(y.begin() + a, y.begin() + b);
            verify_const(z, sub(x.m, a, b), unsigned(r.next()), "traversal", "a value built from a range of iterators");
        }
        stats().sample(status().text);
    }
    for (auto& x : p.t)
        if (x.live) {
            note("traversal of a transient %s size=%zu", traits<decltype(p.s[0].c)>::name, x.m.size());
            ++status().op;
            traverse(x.t, x.m, r);
            stats().add("transients_traversed");
        }
    p.verify_others();
    p.teardown();
}

#if VT_ASSOC
template <typename KD, typename C>
static void atraverse(const C& c, const amodel& m, rng& r)
{
    using E = typename KD::E;
    std::vector<const E*> order;
    std::map<u64, int> seen;
    auto e = c.end();
    for (auto it = c.begin(); it != e;) {
        const E* p = &*it;
        if (it.operator->() != p)
            fail("traversal", "-> and * differ");
        order.push_back(p);
        if (order.size() > m.size())
            fail("traversal", "iteration goes on after %zu elements", m.size());
        auto k = KD::key(*p);
        auto f = m.find(k);
        if (f == m.end() || f->second != KD::val(*p) || seen[k]++)
            fail("traversal", "iteration gives key %llu value %llu", (unsigned long long) k, (unsigned long long) KD::val(*p));
        // the same as what a lookup finds
        auto q = c.find(KD::mkkey(k));
        bool same;
        if constexpr (KD::is_map)
            same = q == &p->second;
        else
            same = q == p;
        if (!same)
            fail("traversal", "find gives another object than iteration for key %llu", (unsigned long long) k);
        if (order.size() % 2)
            ++it;
        else {
            auto old = it++;
            if (&*old != p || old == it)
                fail("traversal", "post-increment");
        }
        ++g_eval;
    }
    if (order.size() != m.size())
        fail("traversal", "iteration ends after %zu of %zu", order.size(), m.size());
    if (std::size_t(std::distance(c.begin(), c.end())) != m.size() || (c.begin() == c.end()) != m.empty())
        fail("traversal", "begin and end");
    // multi pass: copies of iterators go on independently
    std::vector<decltype(c.begin())> its;
    for (auto it = c.begin(); it != e; ++it)
        its.push_back(it);
    for (int k = 0; k < 10 && !its.empty(); ++k) {
        auto i  = r.below(its.size());
        auto it = its[i];
        for (auto j = i; j < its.size() && j < i + 40; ++j, ++it) {
            if (&*it != order[j])
                fail("traversal", "a copy of the iterator at %zu gives another element at %zu", (std::size_t) i, (std::size_t) j);
            if (it != its[j] || !(it == its[j]))
                fail("traversal", "iterators at the same element compare unequal");
            if (j > i && it == its[i])
                fail("traversal", "iterators at different elements compare equal");
            ++g_eval;
        }
    }
    // chunks
    std::size_t i = 0;
    auto eat      = [&](const E* f, const E* l) {
        if (f > l)
            fail("traversal", "chunk with first > last");
        for (; f != l; ++f, ++i)
            if (i >= order.size() || order[i] != f)
                fail("traversal", "chunks present another element at %zu than iteration", i);
    };
    immer::for_each_chunk(c, eat);
    if (i != order.size())
        fail("traversal", "chunks hold %zu of %zu", i, order.size());
    i = 0;
    immer::for_each(c, [&](const E& x) {
        if (i >= order.size() || order[i] != &x)
            fail("traversal", "for_each presents another element at %zu", i);
        ++i;
    });
    if (i != order.size())
        fail("traversal", "for_each visits %zu of %zu", i, order.size());
    i          = 0;
    auto total = immer::accumulate(c, u64{0}, [&](u64 s, const E& x) { return s + mix(KD::key(x)) + KD::val(x); });
    u64 want   = 0;
    for (auto& x : m)
        want += mix(x.first) + x.second;
    if (total != want)
        fail("traversal", "accumulate");
    std::vector<E> out;
    immer::copy(c, std::back_inserter(out));
    if (out.size() != order.size())
        fail("traversal", "copy gives %zu of %zu", out.size(), order.size());
    for (i = 0; i < out.size(); ++i)
        if (KD::key(out[i]) != KD::key(*order[i]))
            fail("traversal", "copy gives another element at %zu", i);
    g_eval += 4;
}

template <typename KD>
static void associative(rng& r, u64 domain, u64 ops)
{
    assoc_opts o;
    apool<KD> p{r, o, domain};
    for (u64 i = 0; i < ops; ++i)
        p.step();
    for (auto& x : p.s) {
        note("traversal of %s size=%zu hash=%s", KD::name, x.m.size(), hash_name(hash_mode().mode));
        ++status().op;
        atraverse<KD>(x.c, x.m, r);
        stats().see(mix(x.m.size() * 31 + hash_mode().mode) ^ hash_bytes(KD::name, 3) ^ mix(domain));
        stats().sample(status().text);
    }
    for (auto& x : p.t)
        if (x.live) {
            note("traversal of a transient %s size=%zu hash=%s", KD::name, x.m.size(), hash_name(hash_mode().mode));
            ++status().op;
            atraverse<KD>(x.t, x.m, r);
            stats().add("transients_traversed");
        }
    p.verify_others();
    p.teardown();
}
#endif

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    auto ops = args.ops ? args.ops : 14;
    seq_opts o;
    o.verify_all_den = 20;
    if (VT_B >= 4)
        o.maxes.push_back(9000);
    {
        V v; F f; A a;
        auto vt = V{}.transient();
        auto ft = F{}.transient();
        auto at = A{}.transient();
#if VT_ASSOC
        using M = map_kind<VT_K, T, MP, VT_HB>;
        using TB = table_kind<VT_K, T, MP, VT_HB>;
        typename set_kind<VT_K, MP, VT_HB>::C s;
        typename M::C m;
        typename TB::C t;
        auto st = typename set_kind<VT_K, MP, VT_HB>::C{}.transient();
        auto mt = typename M::C{}.transient();
        auto tt = typename TB::C{}.transient();
        (void) m[M::mkkey(1)];
        (void) t[TB::mkkey(1)];
#endif
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        value_source vs;
        auto maxn = r.pick(o.maxes);
        {
            switch (i % (VT_SEQ * 3 + VT_ASSOC * 3)) {
#if VT_SEQ
            case 0: {
                pool<V> p{r, vs, o, maxn};
                sequences(p, r, ops);
                break;
            }
            case 1: {
                pool<F> p{r, vs, o, maxn};
                sequences(p, r, ops);
                break;
            }
            case 2: {
                pool<A> p{r, vs, o, std::min<std::size_t>(maxn, 300)};
                sequences(p, r, ops);
                break;
            }
#endif
#if VT_ASSOC
            default: {
                static const u64 domains[] = {3, 6, 12, 24, 50, 120, 400, 1500};
                hash_mode().mode = int(r.below(HASH_MODES));
                hash_mode().salt = r.next();
                auto domain      = domains[r.below(8)];
                if (hash_mode().mode == 2 || hash_mode().mode == 3 || hash_mode().mode == 5)
                    domain = std::min<u64>(domain, 60);
                switch (r.below(3)) {
                case 0: associative<set_kind<VT_K, MP, VT_HB>>(r, domain, ops * 2); break;
                case 1: associative<map_kind<VT_K, T, MP, VT_HB>>(r, domain, ops * 2); break;
                default: associative<table_kind<VT_K, T, MP, VT_HB>>(r, domain, ops * 2); break;
                }
            }
#endif
            }
        }
        expect_quiescent<MP>("after all values are gone");
    });
    stats().add("evaluations", g_eval);
    stats().dump();
}
