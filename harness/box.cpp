// box (P22): a pool of boxes with their contents as models.
//   VT_T element type, VT_MP policy
#include "seq_world.hpp"
#include <functional>
#include <immer/array.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/map.hpp>
#include <immer/vector.hpp>

using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using E  = elem<T>;
using B  = immer::box<T, MP>;
constexpr bool counted = is_counted<MP>::value;

namespace vt {
template <typename U>
struct less_of
{
    static bool call(const U& a, const U& b) { return a < b; }
};
}

struct slot_t
{
    B b;
    u64 v;
    u64 id; // boxes with the same id share one content
    bool moved = false;
};

// a recursive type
struct tree
{
    T label;
    immer::vector<immer::box<tree, MP>, MP, 2, 1> kids;
    tree() : label(E::make(0)) {}
    tree(T l) : label(std::move(l)) {}
    tree(T l, immer::vector<immer::box<tree, MP>, MP, 2, 1> k) : label(std::move(l)), kids(std::move(k)) {}
    bool operator==(const tree& o) const { return label == o.label && kids == o.kids; }
    bool operator!=(const tree& o) const { return !(*this == o); }
};
using TB = immer::box<tree, MP>;
struct mtree
{
    u64 v;
    std::vector<mtree> kids;
    bool operator==(const mtree& o) const { return v == o.v && kids == o.kids; }
};

static void same(const TB& b, const mtree& m)
{
    VT_CHECK(E::get(b->label) == m.v, "model", "a node presents another label");
    VT_CHECK(b->kids.size() == m.kids.size(), "model", "a node presents another number of children");
    for (std::size_t i = 0; i < m.kids.size(); ++i)
        same(b->kids[i], m.kids[i]);
}
static std::size_t weight(const mtree& m)
{
    std::size_t n = 1;
    for (auto& k : m.kids)
        n += weight(k);
    return n;
}
static TB graft(rng& r, const TB& b, mtree& m, const TB& sub, const mtree& msub, u64& fresh)
{
    // path copy down to a random node, then a change there
    if (!m.kids.empty() && r.chance(3, 4)) {
        auto i = r.below(m.kids.size());
        auto k = graft(r, b->kids[i], m.kids[i], sub, msub, fresh);
        return b.update([&](tree t) {
            t.kids = t.kids.set(i, k);
            return t;
        });
    }
    switch (r.below(3)) {
    case 0:
        m.kids.push_back(msub);
        return b.update([&](tree t) {
            t.kids = t.kids.push_back(sub);
            return t;
        });
    case 1:
        if (!m.kids.empty()) {
            m.kids.pop_back();
            return b.update([&](tree t) {
                t.kids = std::move(t.kids).take(t.kids.size() - 1);
                return t;
            });
        }
        [[fallthrough]];
    default:
        m.v = E::norm(fresh++);
        return TB{b}.update([&](tree t) {
            t.label = E::make(m.v);
            return t;
        });
    }
}

static void round_trees(rng& r, u64 ops)
{
    std::vector<std::pair<TB, mtree>> s;
    u64 fresh = 1;
    for (int i = 0; i < 4; ++i) {
        auto v = E::norm(fresh++);
        s.emplace_back(TB{E::make(v)}, mtree{v, {}});
    }
    for (u64 i = 0; i < ops; ++i) {
        auto& x = s[r.below(4)];
        auto& y = s[r.below(4)];
        auto& z = s[r.below(4)];
        note("tree update weight=%zu", weight(x.second));
        ++status().op;
        auto m = x.second;
        if (weight(m) + weight(y.second) > 60)
            m = mtree{E::norm(fresh), {}}, x = {TB{E::make(E::norm(fresh))}, m}, ++fresh;
        auto ysub = y.second;
        if (weight(ysub) > 30)
            continue;
        auto b = graft(r, x.first, m, y.first, ysub, fresh);
        same(x.first, x.second);
        z = {b, m};
        for (auto& w : s)
            same(w.first, w.second);
        auto& u = s[r.below(4)];
        VT_CHECK((z.first == u.first) == (z.second == u.second) && (z.first != u.first) == !(z.second == u.second), "comparison", "comparison of trees disagrees with their contents");
        stats().see(mix(weight(m) * 131 + weight(ysub)) ^ 0x7733);
        stats().add("evaluations");
        stats().max("tree_nodes", weight(m));
    }
}

static void round_boxes(rng& r, u64 ops)
{
    constexpr int N = 7;
    u64 fresh = 1, ids = 1;
    auto base = life().live.load();
    std::vector<slot_t> s;
    for (int i = 0; i < N; ++i) {
        auto v = E::norm(fresh++);
        s.push_back({B{E::make(v)}, v, ids++});
    }
    auto verify = [&](const char* op) {
        std::map<u64, const void*> where;
        for (auto& x : s) {
            if (x.moved)
                continue;
            const B& b = x.b;
            VT_CHECK(E::get(b.get()) == x.v && E::get(*b) == x.v && E::get(*b.operator->()) == x.v, "model", "after %s a box presents %llu, expected %llu", op, (unsigned long long) E::get(*b), (unsigned long long) x.v);
            const T& conv = b;
            VT_CHECK(&conv == &b.get() && &*b == b.operator->(), "address", "after %s the accessors disagree", op);
            auto& w = where[x.id];
            if (!w)
                w = &b.get();
            VT_CHECK(w == &b.get(), "sharing", "after %s copies of one box have different contents in memory", op);
        }
        if (E::tracked_type && counted)
            VT_CHECK(u64(life().live.load() - base) == where.size(), "element-count", "after %s %lld contents are alive for %zu different boxes", op, (long long) (life().live.load() - base), where.size());
    };
    auto live = [&]() -> slot_t& {
        for (;;) {
            auto& x = r.pick(s);
            if (!x.moved)
                return x;
        }
    };
    for (u64 i = 0; i < ops; ++i) {
        auto& x = r.pick(s);
        auto& y = live();
        auto v  = E::norm(r.chance(1, 3) ? 1 + r.below(5) : fresh++);
        auto k  = r.below(18);
        char op[40];
        std::snprintf(op, sizeof op, "box op %d", int(k));
        u64 owners = 0;
        for (auto& z : s)
            owners += !z.moved && z.id == y.id;
        note("%s owners=%llu v=%llu", op, (unsigned long long) owners, (unsigned long long) v);
        ++status().op;
        stats().see(mix(k * 1000 + owners * 10 + x.moved + (&x == &y) * 2 + (x.id == y.id) * 4));
        auto copies = life().copies.load();
        auto total  = life().constructed.load();
        auto still  = [&](const char* what) {
            VT_CHECK(life().constructed.load() == total && life().copies.load() == copies, "copied", "%s constructed or copied the content", what);
        };
        switch (k) {
        case 0: // default
            x = {B{}, 0, ids++};
            VT_CHECK(*x.b == T{}, "model", "a default box does not hold T{}");
            x.v = E::get(*x.b);
            if (std::is_same<T, std::string>::value)
                x = {B{E::make(v)}, v, ids++};
            break;
        case 1: x = {B{E::make(v)}, v, ids++}; break;
        case 2: {
            T t = E::make(v);
            x   = {B{t}, v, ids++};
            break;
        }
        case 3: {
            B c{y.b};
            still("copy construction");
            auto id = y.id, w = y.v;
            x.b = c;
            still("copy assignment");
            x.v = w; x.id = id; x.moved = false;
            break;
        }
        case 4:
            if (!x.moved || &x != &y) {
                auto id = y.id, w = y.v;
                if (x.moved) { x.b = B{E::make(1)}; x.v = E::norm(1); x.id = ids++; x.moved = false; copies = life().copies; total = life().constructed; }
                x.b = y.b; // possibly self
                still("copy assignment");
                x.v = w; x.id = id;
            }
            break;
        case 5: {
            auto id = y.id, w = y.v;
            B c{std::move(y.b)};
            y.moved = true;
            still("move construction");
            x.b = std::move(c);
            still("move assignment");
            x.v = w; x.id = id; x.moved = false;
            if (&x != &y)
                y.b = B{E::make(v)}, y.v = v, y.id = ids++, y.moved = false;
            break;
        }
        case 6:
            swap(x.b, y.b);
            still("swap");
            std::swap(x.v, y.v); std::swap(x.id, y.id); std::swap(x.moved, y.moved);
            break;
        case 7:
        case 8: {
            u64 calls = 0;
            auto w    = y.v;
            const B& cy = y.b;
            auto n    = cy.update([&](const T& t) {
                ++calls;
                VT_CHECK(E::get(t) == w, "callback", "update gave its function %llu instead of %llu", (unsigned long long) E::get(t), (unsigned long long) w);
                VT_CHECK(&t == &cy.get(), "callback", "update gave its function a copy");
                return E::make(v);
            });
            VT_CHECK(calls == 1, "callback", "update called its function %llu times", (unsigned long long) calls);
            VT_CHECK(E::get(*cy) == w, "model", "update changed the box it was called on");
            x = {n, v, ids++};
            break;
        }
        case 9:
        case 10:
        case 11: {
            u64 calls = 0;
            auto w    = y.v;
            auto&& n  = std::move(y.b).update([&](auto&& t) {
                ++calls;
                VT_CHECK(E::get(t) == w, "callback", "update gave its function %llu instead of %llu", (unsigned long long) E::get(t), (unsigned long long) w);
                return E::make(v);
            });
            VT_CHECK(calls == 1, "callback", "update called its function %llu times", (unsigned long long) calls);
            VT_CHECK(E::get(*n) == v, "model", "update of an expiring box yields %llu, expected %llu", (unsigned long long) E::get(*n), (unsigned long long) v);
            if (r.chance(1, 2)) {
                if (&x != &y) { // take it away
                    x.b = std::move(n);
                    y.b = B{E::make(v)};
                    y.v = v; y.id = ids++;
                    x.v = v; x.id = ids++; x.moved = false;
                } else { y.v = v; y.id = ids++; }
            } else { y.v = v; y.id = ids++; }
            break;
        }
        case 12:
        case 13: {
            if (x.moved) break;
            bool eq = x.v == y.v;
            VT_CHECK((x.b == y.b) == eq && (x.b != y.b) == !eq, "comparison", "comparison of boxes of %llu and %llu", (unsigned long long) x.v, (unsigned long long) y.v);
            T t = E::make(y.v);
            VT_CHECK((x.b == t) == eq && (t == x.b) == eq && (x.b != t) == !eq && (t != x.b) == !eq, "comparison", "comparison of a box and a value %llu %llu", (unsigned long long) x.v, (unsigned long long) y.v);
            if constexpr (!std::is_same<T, pod3>::value) {
                bool lt = less_of<T>::call(*x.b, *y.b);
                VT_CHECK((x.b < y.b) == lt && (x.b < t) == lt && (t < x.b) == less_of<T>::call(t, *x.b), "comparison", "order of boxes of %llu and %llu", (unsigned long long) x.v, (unsigned long long) y.v);
            }
            break;
        }
        case 14:
            if constexpr (!std::is_same<T, pod3>::value) {
                if (x.moved) break;
                VT_CHECK(std::hash<B>{}(x.b) == std::hash<T>{}(*x.b), "hash", "the hash of a box is not that of its content");
            }
            break;
        case 15: { // replaced by part of itself: the content outlives the box
            auto w = y.v;
            y.b    = B{y.b.get()};
            y.id   = ids++;
            VT_CHECK(E::get(*y.b) == w, "model", "a box made of its own content");
            break;
        }
        case 16: { // a container of boxes
            immer::vector<B, MP, 2, 1> c;
            auto t = c.transient();
            for (auto& z : s)
                if (!z.moved)
                    t.push_back(z.b);
            still("a vector of boxes");
            c = t.persistent();
            auto d = c.push_back(y.b).set(0, y.b);
            VT_CHECK(E::get(*d[0]) == y.v && E::get(*d.back()) == y.v && E::get(*c[0]) != ~u64{}, "model", "a vector of boxes");
            break;
        }
        default: {
            if constexpr (std::is_same<T, tracked<>>::value) {
                // construction that fails
                fault().arm(1 + r.below(3));
                bool threw = false;
                try {
                    T t = E::make(v);
                    B b{t};
                    x.b = b; x.v = v; x.id = ids++; x.moved = false;
                } catch (const injected&) { threw = true; }
                catch (const std::bad_alloc&) { threw = true; }
                fault().disarm();
                if (threw)
                    stats().add("failed_constructions");
            }
        }
        }
        verify(op);
        stats().add("evaluations");
    }
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    {
        immer::vector<B, MP, 2, 1> a;
        auto t1 = a.transient();
        immer::vector<TB, MP, 2, 1> b;
        auto t2 = b.transient();
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        if (i % 4 == 3)
            round_trees(r, 60);
        else
            round_boxes(r, 200);
        stats().sample(status().text);
        expect_quiescent<MP>("after all boxes are gone");
    });
    stats().add("element_copies", life().copies);
    stats().add("heap_allocations", mon_heap<>::st().allocs + arena_heap<>::st().allocs);
    stats().dump();
}
