// Sequences of sizes far beyond what could be stored without sharing (P31).
//   mode=concat: flex_vectors grown by concatenation, a rope as the model
//   mode=regular: a transient grown one element at a time past 2^32
//   VT_T element, VT_MP policy, VT_B, VT_BL branching
#include "seq_world.hpp"
#include <immer/algorithm.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <memory>
#ifndef VT_T
#define VT_T int
#endif
#ifndef VT_MP
#define VT_MP vt::mp_def
#endif
#ifndef VT_B
#define VT_B 3
#endif
#ifndef VT_VECTOR
#define VT_VECTOR 0
#endif
#ifndef VT_BL
#define VT_BL 2
#endif
using namespace vt;
using T  = VT_T;
using E  = elem<T>;
using MP = VT_MP;
using F  = immer::flex_vector<T, MP, VT_B, VT_BL>;
using V  = immer::vector<T, MP, VT_B, VT_BL>;

// ------------------------------------------------------------------- rope
struct rope_t;
using rope = std::shared_ptr<const rope_t>;
struct rope_t { u64 size, start; rope l, r; };
static rope rleaf(u64 start, u64 n) { return n ? std::make_shared<rope_t>(rope_t{n, start, nullptr, nullptr}) : nullptr; }
static u64 len(const rope& a) { return a ? a->size : 0; }
static rope cat(const rope& a, const rope& b)
{
    if (!a) return b;
    if (!b) return a;
    return std::make_shared<rope_t>(rope_t{a->size + b->size, 0, a, b});
}
static rope cut(const rope& a, u64 from, u64 to) // [from, to)
{
    if (from >= to) return nullptr;
    if (from == 0 && to == a->size) return a;
    if (!a->l) return rleaf(a->start + from, to - from);
    auto n = a->l->size;
    if (to <= n) return cut(a->l, from, to);
    if (from >= n) return cut(a->r, from - n, to - n);
    return cat(cut(a->l, from, n), cut(a->r, 0, to - n));
}
static u64 at(const rope& a, u64 i)
{
    auto p = a.get();
    while (p->l) {
        auto n = p->l->size;
        if (i < n) p = p->l.get();
        else i -= n, p = p->r.get();
    }
    return p->start + i;
}
static T mk(u64 v) { return E::make(mix(v) & 0x7fffffff); }
static u64 code(u64 v) { return E::get(mk(v)); }

static u64 fresh = 1;
// Trees that were cut and joined have at least two children less per node
// than they could, and may be three levels deeper than that tells; beyond,
// positions do not fit the shifts.
constexpr u64 sure_limit()
{
    u64 n = 1;
    for (int levels = (62 - VT_BL) / VT_B - 3; levels > 0 && n < (u64{1} << 50); --levels)
        n *= (u64{1} << VT_B) - 2;
    return std::min<u64>(n, F::max_size());
}
constexpr u64 limit = sure_limit();

struct hslot { F c; rope m; };

static u64 somewhere(rng& r, u64 n) // in [0, n]
{
    u64 p;
    switch (r.below(8)) {
    case 0: p = r.below(70); break;
    case 1: p = n - std::min(n, r.below(70)); break;
    case 2: case 3: {
        // around a power of two, or a multiple of one
        auto k = r.below(62);
        p      = (u64{1} << k) * (r.chance(1, 2) ? 1 : 1 + r.below(9));
        p += r.below(70);
        p -= std::min<u64>(p, 35);
        break;
    }
    case 4: p = n / 2 + r.below(9); break;
    default: p = r.below(n + 1);
    }
    return n ? p % (n + 1) : 0;
}

template <typename X>
static void spot(rng& r, const X& c, const rope& m, unsigned times)
{
    auto n = len(m);
    VT_CHECK(c.size() == n, "model", "size is %llu, should be %llu", (unsigned long long) c.size(), (unsigned long long) n);
    if (!n) { VT_CHECK(c.empty() && c.begin() == c.end(), "model", "not empty"); return; }
    while (times--) {
        auto i = std::min(somewhere(r, n), n - 1);
        auto g = E::get(c[i]);
        VT_CHECK(g == code(at(m, i)), "model", "element %llu of %llu is wrong", (unsigned long long) i, (unsigned long long) n);
        stats().add("positions_compared");
    }
}
static void verify(rng& r, const hslot& s)
{
    auto& c = s.c;
    auto& m = s.m;
    auto n  = len(m);
    spot(r, c, m, 12);
    if (!n) return;
    VT_CHECK(E::get(c.front()) == code(at(m, 0)) && E::get(c.back()) == code(at(m, n - 1)), "model", "an end is wrong");
    {
        // a walk from a position
        auto i  = std::min(somewhere(r, n), n - 1);
        auto it = c.begin() + i;
        VT_CHECK((u64) (it - c.begin()) == i && (u64) (c.end() - it) == n - i, "iterator", "a distance is wrong");
        for (unsigned k = 0; k < 40; ++k) {
            VT_CHECK(E::get(*it) == code(at(m, i)), "iterator", "the iterator at %llu of %llu presents another element", (unsigned long long) i, (unsigned long long) n);
            if (r.chance(1, 2)) { if (i + 1 < n) { ++it; ++i; } }
            else if (i) { --it; --i; }
        }
        stats().add("iterator_walks");
    }
    {
        auto a = somewhere(r, n), b = std::min(n, a + r.below(200));
        auto i = a;
        immer::for_each_chunk(c.begin() + a, c.begin() + b, [&](auto f, auto l) {
            for (; f != l; ++f, ++i)
                VT_CHECK(i < b && E::get(*f) == code(at(m, i)), "chunks", "chunks of [%llu, %llu) of %llu: wrong at %llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) n, (unsigned long long) i);
        });
        VT_CHECK(i == b, "chunks", "chunks of [%llu, %llu) of %llu end at %llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) n, (unsigned long long) i);
        auto stop = a + r.below(b - a + 1);
        i         = a;
        auto ok   = immer::for_each_chunk_p(c.begin() + a, c.begin() + b, [&](auto f, auto l) {
            for (; f != l; ++f, ++i) {
                if (i == stop) return false;
                VT_CHECK(i < b && E::get(*f) == code(at(m, i)), "chunks", "chunks of [%llu, %llu) of %llu: wrong at %llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) n, (unsigned long long) i);
            }
            return true;
        });
        VT_CHECK(ok == (stop == b) && i == stop, "chunks", "a traversal that stops at %llu got to %llu", (unsigned long long) stop, (unsigned long long) i);
        stats().add("sub_ranges");
    }
}

struct hworld
{
    rng& r;
    std::vector<hslot> s;
    hworld(rng& r_) : r(r_), s(4) {}

    void ev(const char* op, u64 n, u64 k = 0)
    {
        ++status().op;
        note("%s: size %llu, %llu", op, (unsigned long long) n, (unsigned long long) k);
        stats().add("operations");
        stats().max("size", n);
        u64 h[] = {(u64) op[0], (u64) op[1], (u64) op[2], n, k, (VT_B << 4) + VT_BL};
        if (n > 0xffffffff) {
            stats().add("operations_beyond_32_bits");
            if (stats().sampling())
                stats().sample(status().text);
            stats().see(hash_bytes(h, sizeof h));
        }
        if (n > 0x7fffffff)
            stats().add("operations_beyond_31_bits");
        if (n > 0xffffffffff)
            stats().add("operations_beyond_40_bits");
    }
    template <typename Fn>
    void put(hslot& from, rope m, Fn f) // f(F) -> F, given a copy or an expiring value
    {
        auto& to = r.pick(s);
        if (r.chance(1, 3)) {
            F x = from.c;
            if (r.chance(1, 2) && &to != &from) {
                // the only owner of its root
                auto y = std::move(from.c);
                from.c = f(std::move(y));
                from.m = std::move(m);
                verify(r, from);
                return;
            }
            to.c = f(std::move(x));
        } else
            to.c = f(static_cast<const F&>(from.c));
        to.m = std::move(m);
        verify(r, to);
    }
    void step()
    {
        auto& a = r.pick(s);
        auto n  = len(a.m);
        auto v  = fresh += 7;
        switch (r.below(n ? 22 : 2)) {
        case 0: {
            auto k = r.chance(1, 2) ? r.below(40) : r.below(1500);
            if (n + k > limit) return;
            ev("grow", n, k);
            auto t = a.c.transient();
            for (u64 i = 0; i < k; ++i) t.push_back(mk(v + i));
            fresh += k;
            a.c = std::move(t).persistent();
            a.m = cat(a.m, rleaf(v, k));
            verify(r, a);
            return;
        }
        case 1: {
            if (n + 1 > limit) return;
            if (r.chance(1, 2)) { ev("push_back", n); put(a, cat(a.m, rleaf(v, 1)), [&](auto&& c) { return std::forward<decltype(c)>(c).push_back(mk(v)); }); }
            else { ev("push_front", n); put(a, cat(rleaf(v, 1), a.m), [&](auto&& c) { return std::forward<decltype(c)>(c).push_front(mk(v)); }); }
            return;
        }
        case 2: case 3: case 4: case 5: {
            if (n > limit / 2) break;
            ev("double", n);
            for (auto k = r.range(3, 30); k-- && n <= limit / 2; n *= 2) {
                auto c = a.c;
                a.c    = r.chance(1, 2) ? a.c + c : std::move(a.c) + c;
                a.m    = cat(a.m, a.m);
            }
            verify(r, a);
            return;
        }
        case 6: case 7: case 8: {
            auto& b = r.pick(s);
            if (n > limit - len(b.m)) break;
            ev("concat", n, len(b.m));
            auto m = cat(a.m, b.m);
            auto y = b.c;
            if (r.chance(1, 3)) put(a, m, [&](auto&& c) { return std::forward<decltype(c)>(c) + std::move(y); });
            else put(a, m, [&](auto&& c) { return std::forward<decltype(c)>(c) + y; });
            return;
        }
        case 9: case 10: {
            auto k = somewhere(r, n);
            ev("take", n, k);
            put(a, cut(a.m, 0, k), [&](auto&& c) { return std::forward<decltype(c)>(c).take(k); });
            return;
        }
        case 11: case 12: {
            auto k = somewhere(r, n);
            ev("drop", n, k);
            put(a, cut(a.m, k, n), [&](auto&& c) { return std::forward<decltype(c)>(c).drop(k); });
            return;
        }
        case 13: {
            auto i = std::min(somewhere(r, n), n - 1);
            ev("set", n, i);
            auto m = cat(cat(cut(a.m, 0, i), rleaf(v, 1)), cut(a.m, i + 1, n));
            put(a, m, [&](auto&& c) { return std::forward<decltype(c)>(c).set(i, mk(v)); });
            return;
        }
        case 14: {
            auto i = std::min(somewhere(r, n), n - 1);
            ev("update", n, i);
            auto m   = cat(cat(cut(a.m, 0, i), rleaf(v, 1)), cut(a.m, i + 1, n));
            auto old = at(a.m, i);
            put(a, m, [&](auto&& c) {
                return std::forward<decltype(c)>(c).update(i, [&](auto&& x) {
                    VT_CHECK(E::get(x) == code(old), "model", "update is given another element");
                    return mk(v);
                });
            });
            return;
        }
        case 15: {
            if (n + 1 > limit) break;
            auto i = somewhere(r, n);
            ev("insert", n, i);
            put(a, cat(cat(cut(a.m, 0, i), rleaf(v, 1)), cut(a.m, i, n)), [&](auto&& c) { return std::forward<decltype(c)>(c).insert(i, mk(v)); });
            return;
        }
        case 16: {
            auto& b = r.pick(s);
            if (n > limit - len(b.m)) break;
            auto i = somewhere(r, n);
            ev("insert range", n, i);
            auto y = b.c;
            put(a, cat(cat(cut(a.m, 0, i), b.m), cut(a.m, i, n)), [&](auto&& c) { return std::forward<decltype(c)>(c).insert(i, y); });
            return;
        }
        case 17: {
            auto i = std::min(somewhere(r, n), n - 1);
            ev("erase", n, i);
            put(a, cat(cut(a.m, 0, i), cut(a.m, i + 1, n)), [&](auto&& c) { return std::forward<decltype(c)>(c).erase(i); });
            return;
        }
        case 18: {
            auto i = somewhere(r, n), j = somewhere(r, n);
            if (i > j) std::swap(i, j);
            ev("erase range", n, i);
            put(a, cat(cut(a.m, 0, i), cut(a.m, j, n)), [&](auto&& c) { return std::forward<decltype(c)>(c).erase(i, j); });
            return;
        }
        case 19: {
            ev("transient", n);
            auto t = a.c.transient();
            auto m = a.m;
            for (auto k = r.range(2, 10); k--;) {
                auto z = len(m);
                auto w = fresh += 3;
                switch (r.below(7)) {
                case 0: { auto p = somewhere(r, z); note("transient take %llu of %llu", (unsigned long long) p, (unsigned long long) z); t.take(p); m = cut(m, 0, p); break; }
                case 1: { auto p = somewhere(r, z); note("transient drop %llu of %llu", (unsigned long long) p, (unsigned long long) z); t.drop(p); m = cut(m, p, z); break; }
                case 2: if (z < limit) { note("transient push_back to %llu", (unsigned long long) z); t.push_back(mk(w)); m = cat(m, rleaf(w, 1)); } break;
                case 3: case 4: if (z) { auto i = std::min(somewhere(r, z), z - 1); note("transient set %llu of %llu", (unsigned long long) i, (unsigned long long) z); t.set(i, mk(w)); m = cat(cat(cut(m, 0, i), rleaf(w, 1)), cut(m, i + 1, z)); } break;
                default: {
                    auto& b = r.pick(s);
                    if (z > limit - len(b.m)) break;
                    auto o = b.c.transient();
                    note("transient append or prepend %llu to %llu", (unsigned long long) len(b.m), (unsigned long long) z);
                    if (r.chance(1, 2)) { if (r.chance(1, 2)) t.append(o); else t.append(std::move(o)); m = cat(m, b.m); }
                    else { if (r.chance(1, 2)) t.prepend(o); else t.prepend(std::move(o)); m = cat(b.m, m); }
                }
                }
                spot(r, t, m, 3);
            }
            auto& to = r.pick(s);
            to.c     = t.persistent();
            to.m     = m;
            verify(r, to);
            return;
        }
        case 20: {
            auto i = std::min(somewhere(r, n), n - 1);
            ev("equal", n, i);
            auto c = a.c;
            VT_CHECK(c == a.c && !(c != a.c), "equality", "a copy differs");
            VT_CHECK(a.c.take(i) != a.c, "equality", "a part is equal");
            return;
        }
        default: break;
        }
        ev("look", n);
        verify(r, a);
    }
};

#define BIG ((u64{1} << 32))
// values that hold no relaxed nodes, past 2^32 elements
template <typename X>
static void regular(rng& r, u64 n)
{
    rope m;
    u64 total = 0;
    X c;
    {
        auto t = X{}.transient();
        for (; total < n; ++total)
            t.push_back(mk(total));
        c = std::move(t).persistent();
    }
    m = rleaf(0, n);
    stats().max("size", n);
    stats().add("pushes", n);
    auto ev = [&](const char* op, u64 p) {
        ++status().op;
        note("regular: %s %llu of %llu", op, (unsigned long long) p, (unsigned long long) len(m));
        stats().add("operations");
        stats().add("operations_beyond_32_bits");
        if (stats().sampling())
            stats().sample(status().text);
        u64 h[] = {(u64) op[0], (u64) op[1], p};
        stats().see(hash_bytes(h, sizeof h));
    };
    spot(r, c, m, 3000);
    for (int k = 0; k < 300; ++k) {
        auto i = std::min(somewhere(r, n), n - 1);
        auto v = fresh += 3;
        ev("set", i);
        auto d = c.set(i, mk(v));
        auto md = cat(cat(cut(m, 0, i), rleaf(v, 1)), cut(m, i + 1, n));
        spot(r, d, md, 3);
        VT_CHECK(E::get(d[i]) == code(v), "model", "the element set is not there");
        auto p = somewhere(r, n);
        ev("take", p);
        auto e = c.take(p);
        auto me = cut(m, 0, p);
        spot(r, e, me, 6);
        e = e.push_back(mk(v));
        spot(r, e, cat(me, rleaf(v, 1)), 6);
        auto t = c.transient();
        t.set(i, mk(v));
        t.take(p);
        spot(r, t, cut(md, 0, p), 6);
        if constexpr (std::is_same<X, F>::value) {
            ev("drop", p);
            auto f  = c.drop(p);
            auto mf = cut(m, p, n);
            spot(r, f, mf, 6);
            ev("concat", p);
            auto g = f + e;
            spot(r, g, cat(mf, cat(me, rleaf(v, 1))), 10);
            g = e + f;
            spot(r, g, cat(cat(me, rleaf(v, 1)), mf), 10);
            auto q = somewhere(r, len(mf));
            spot(r, f.drop(q), cut(mf, q, len(mf)), 6);
            spot(r, std::move(f).drop(q), cut(mf, q, len(mf)), 6);
            ev("insert", p);
            spot(r, c.insert(p, mk(v)), cat(cat(cut(m, 0, p), rleaf(v, 1)), cut(m, p, n)), 6);
            if (k % 10 == 0) { hslot s{g, cat(cat(me, rleaf(v, 1)), mf)}; verify(r, s); }
        }
    }
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    if (args.mode == "regular") {
        args.run([&](rng& r, u64 i) {
            auto n = BIG + (u64{1} << (VT_B + VT_BL)) * r.below(40) + r.below(200);
            (void) i;
            if (VT_VECTOR) regular<V>(r, n);
            else regular<F>(r, n);
        });
    } else {
        auto ops = args.ops ? args.ops : 80;
        args.run([&](rng& r, u64) {
            hworld w{r};
            for (auto& x : w.s) {
                auto k = r.range(1, 600);
                auto v = fresh += k;
                for (u64 i = 0; i < k; ++i) x.c = x.c.push_back(mk(v + i));
                x.m = rleaf(v, k);
                fresh += k;
            }
            for (u64 i = 0; i < ops; ++i) w.step();
            for (auto& x : w.s) verify(r, x);
        });
    }
    stats().dump();
}
