// First uses of the containers, made by several threads at once (P19).
//   VT_MP policy
// What the library sets up on first use (the empty nodes, default values,
// lists of free blocks) is different for every element type: each iteration
// has a type of its own, which nothing has used before in the process, and
// threads that start together and use it.
#include "../engine/core.hpp"
#include "../engine/heaps.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <functional>
#include <thread>
#include <utility>

using namespace vt;
using MP       = VT_MP;
constexpr int TYPES = VT_TYPES;

template <int N>
struct elem_n
{
    int id = 7; // what a default value is like
    elem_n() = default;
    elem_n(int v) : id{v} {}
    friend bool operator==(const elem_n& a, const elem_n& b) { return a.id == b.id; }
    friend bool operator!=(const elem_n& a, const elem_n& b) { return a.id != b.id; }
};
namespace std {
template <int N>
struct hash<elem_n<N>>
{
    size_t operator()(const elem_n<N>& x) const { return size_t(x.id) * 0x9e3779b97f4a7c15ull >> 7; }
};
} // namespace std
template <int N>
struct row_n
{
    elem_n<N> id;
    int val = 11;
    friend bool operator==(const row_n& a, const row_n& b) { return a.id == b.id && a.val == b.val; }
};

struct env_t
{
    status_t st{};
    stats_t local;
    u64 ops = 0;
};

template <typename C>
static void same(const C& c, int n, int from, const char* what)
{
    VT_CHECK(int(c.size()) == n, "first-use", "%s has %d elements, expected %d", what, int(c.size()), n);
    int i = from;
    for (auto& x : c) {
        VT_CHECK(x.id == i, "first-use", "%s has %d for %d", what, x.id, i);
        ++i;
    }
    VT_CHECK(i == from + n, "first-use", "iteration of %s ended at %d of %d", what, i - from, n);
}

// what a thread does with one kind of container, beginning with its first use
template <int N>
static void use(int kind, rng& r, env_t& e)
{
    using E = elem_n<N>;
    auto n  = int(r.below(r.chance(1, 3) ? 3 : 80));
    bool tr = r.chance(1, 2);
    note("type %d, container %d, %d elements%s", N, kind, n, tr ? ", transient first" : "");
    stats().see(mix(u64(kind) * 1000 + u64(n)) + tr);
    auto seq = [&](auto c, const char* what) {
        using C = decltype(c);
        if (tr) {
            auto t = C{}.transient();
            for (int i = 0; i < n; ++i) t.push_back(E{i});
            c = t.persistent();
        } else
            for (int i = 0; i < n; ++i)
                c = r.chance(1, 2) ? c.push_back(E{i}) : std::move(c).push_back(E{i});
        same(c, n, 0, what);
        auto d = c.take(0);
        same(d, 0, 0, what);
        VT_CHECK(d == C{}, "first-use", "an empty %s is not equal to a new one", what);
    };
    switch (kind) {
    case 0: seq(immer::vector<E, MP, 3, 1>{}, "vector"); break;
    case 1: {
        using F = immer::flex_vector<E, MP, 3, 1>;
        seq(F{}, "flex_vector");
        F f, g;
        for (int i = 0; i < n; ++i) { f = f.push_back(E{i}); g = g.push_back(E{n + i}); }
        same(f + g, 2 * n, 0, "concatenation");
        same((f + g).drop(n), n, n, "drop");
        break;
    }
    case 2: seq(immer::array<E, MP>{}, "array"); break;
    case 3: {
        using S = immer::set<E, std::hash<E>, std::equal_to<E>, MP, 4>;
        S s;
        VT_CHECK(s.count(E{1}) == 0 && s.begin() == s.end(), "first-use", "an empty set has elements");
        if (tr) {
            auto t = S{}.transient();
            for (int i = 0; i < n; ++i) t.insert(E{i});
            s = t.persistent();
        } else
            for (int i = 0; i < n; ++i) s = s.insert(E{i});
        VT_CHECK(int(s.size()) == n, "first-use", "a set has %d elements, expected %d", int(s.size()), n);
        for (int i = 0; i < n; ++i) VT_CHECK(s.count(E{i}), "first-use", "a set lost %d", i);
        for (int i = 0; i < n; ++i) s = s.erase(E{i});
        VT_CHECK(s == S{}, "first-use", "an emptied set is not equal to a new one");
        break;
    }
    case 4: {
        using M = immer::map<E, E, std::hash<E>, std::equal_to<E>, MP, 4>;
        M m;
        VT_CHECK(m[E{3}].id == 7 && !m.find(E{3}), "first-use", "an absent key has a value other than the default");
        if (tr) {
            auto t = M{}.transient();
            for (int i = 0; i < n; ++i) t.set(E{i}, E{-i});
            VT_CHECK(t[E{-1}].id == 7, "first-use", "an absent key has a value other than the default");
            m = t.persistent();
        } else
            for (int i = 0; i < n; ++i) m = m.update(E{i}, [&](E d) { VT_CHECK(d.id == 7, "first-use", "update from %d", d.id); return E{-i}; });
        VT_CHECK(int(m.size()) == n, "first-use", "a map has %d elements, expected %d", int(m.size()), n);
        for (int i = 0; i < n; ++i) VT_CHECK(m.at(E{i}).id == -i, "first-use", "a map has %d for %d", m.at(E{i}).id, -i);
        for (int i = 0; i < n; ++i) m = std::move(m).erase(E{i});
        VT_CHECK(m == M{}, "first-use", "an emptied map is not equal to a new one");
        break;
    }
    case 5: {
        using R = row_n<N>;
        using TB = immer::table<R, immer::table_key_fn, std::hash<E>, std::equal_to<E>, MP, 4>;
        TB t;
        VT_CHECK(t[E{3}].val == 11, "first-use", "an absent key has a row other than the default");
        if (tr) {
            auto x = TB{}.transient();
            for (int i = 0; i < n; ++i) x.insert(R{E{i}, i});
            t = x.persistent();
        } else
            for (int i = 0; i < n; ++i) t = t.insert(R{E{i}, i});
        for (int i = 0; i < n; ++i) VT_CHECK(t.at(E{i}).val == i, "first-use", "a table has %d for %d", t.at(E{i}).val, i);
        VT_CHECK(int(t.size()) == n, "first-use", "a table has %d elements, expected %d", int(t.size()), n);
        break;
    }
    default: {
        using B = immer::box<E, MP>;
        B b;
        VT_CHECK(b->id == 7, "first-use", "a new box holds %d", b->id);
        immer::atom<E, MP> a;
        VT_CHECK(a.load()->id == 7, "first-use", "a new atom holds %d", a.load()->id);
        a.update([](E x) { return E{x.id + 1}; });
        VT_CHECK(a.load()->id == 8, "first-use", "an atom holds %d", a.load()->id);
    }
    }
    ++e.ops;
    stats().add("first_uses");
}

static std::atomic<int> g_here{0};

template <int N>
static void round(rng& r)
{
    auto nt = 2 + int(r.below(5));
    // all with the same container, or each with an order of its own
    bool together = r.chance(1, 2);
    auto shift    = int(r.below(7));
    g_here        = 0;
    note("type %d, %d threads", N, nt);
    std::vector<env_t> env(nt);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) {
        auto seed = r.next();
        ts.emplace_back([&, i, seed] {
            auto& e         = env[i];
            thread_status() = &e.st;
            thread_stats()  = &e.local;
            rng q{seed};
            auto at = together ? shift : int(q.below(7));
            auto by = together ? 1 : 1 + int(q.below(6));
            // relaxed: the gate itself orders nothing
            g_here.fetch_add(1, std::memory_order_relaxed);
            while (g_here.load(std::memory_order_relaxed) < nt) ;
            for (int k = 0; k < 7; ++k)
                use<N>((at + k * by) % 7, q, e);
            arena_heap<>::pin();
            thread_status() = nullptr;
            thread_stats()  = nullptr;
        });
    }
    for (auto& t : ts)
        t.join();
    for (auto& e : env) {
        stats().merge(e.local);
        stats().add("evaluations", e.ops);
    }
    stats().sample(status().text);
}

template <int... Ns>
static void dispatch(int n, rng& r, std::integer_sequence<int, Ns...>)
{
    (void) std::initializer_list<int>{(n == Ns ? (round<Ns>(r), 0) : 0)...};
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    args.run([&](rng& r, u64 i) { dispatch(int(i % TYPES), r, std::make_integer_sequence<int, TYPES>{}); });
    stats().dump();
}
