// Documented uses that once did not compile (P03, P29). A build of this file
// that fails is itself the violation; it runs what it compiled, too.
//   VT_WHAT which uses
#include "../engine/heaps.hpp"
#include "../engine/ranges.hpp"
#include "../engine/tracked.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

using namespace vt;

#if VT_WHAT == 3
// an array of simple elements from iterators that are not pointers
template <typename T>
void uses(rng& r)
{
    auto n = r.below(70), base = r.below(200);
    auto f = [&](std::size_t i) { return elem<T>::make(base + i); };
    auto how = unsigned(r.below(8));
    auto a   = from_range<immer::array<T>, true>(n, f, how);
    VT_CHECK(a.size() == n, "range", "an array of %zu from a range of %zu", a.size(), std::size_t(n));
    for (std::size_t i = 0; i < n; ++i)
        VT_CHECK(a[i] == f(i), "range", "element %zu of an array from a range is another", i);
    stats().add("evaluations");
    stats().see(mix(n * 8 + how));
}
void all(rng& r)
{
    uses<int>(r);
    uses<unsigned char>(r);
    uses<std::string>(r);
}
#else
// operations on expiring values without in-place updates
template <typename V>
void uses(rng& r)
{
    auto n = 1 + r.below(200);
    V v;
    std::vector<int> m;
    for (u64 i = 0; i < n; ++i)
        v = std::move(v).push_back(int(i)), m.push_back(int(i));
    auto a = r.below(n), b = a + r.below(n - a + 1);
    v = std::move(v).erase(a, b);
    m.erase(m.begin() + a, m.begin() + b);
    v = std::move(v).insert(a, 7);
    m.insert(m.begin() + a, 7);
    v = std::move(v).set(a, 8);
    v = std::move(v).update(a, [](int x) { return x + 1; });
    m[a] = 9;
    v = std::move(v).erase(a);
    m.erase(m.begin() + a);
    auto w = v;
    v = std::move(v) + w;
    v = std::move(v).take(m.size()).drop(m.size() / 2);
    m.erase(m.begin(), m.begin() + m.size() / 2);
    VT_CHECK(v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin()), "model", "an expiring value of %zu presents others than the model of %zu", v.size(), m.size());
    stats().add("evaluations");
    stats().see(mix(n * 1000 + a));
}
void all(rng& r)
{
    uses<immer::flex_vector<int, mp_norv, 2, 1>>(r);
    uses<immer::flex_vector<int, mp_mon, 2, 1>>(r);
}
#endif

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    args.run([&](rng& r, u64 i) {
        note("documented uses");
        all(r);
    });
    stats().dump();
}
