// The experimental vector (P32).
//   VT_T element type, VT_MP policy, VT_B branching
#include "../engine/heaps.hpp"
#include "../engine/tracked.hpp"
#include <immer/experimental/dvektor.hpp>

using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using E  = elem<T>;
using D  = immer::dvektor<T, VT_B, MP>;
using M  = std::vector<u64>;
using It = typename D::iterator;

struct slot
{
    D d;
    M m;
};

static void same_at(const D& d, const M& m, std::size_t i)
{
    auto x = E::get(d[i]);
    VT_CHECK(x == m[i], "model", "index %zu of %zu gives %llu, %llu expected", i, m.size(), (unsigned long long) x, (unsigned long long) m[i]);
}

static void same(const D& d, const M& m)
{
    VT_CHECK(d.size() == m.size(), "model", "size %zu, %zu expected", d.size(), m.size());
    VT_CHECK(d.empty() == m.empty(), "model", "empty() of %zu elements", m.size());
    for (std::size_t i = 0; i < m.size(); ++i)
        same_at(d, m, i);
}

static void read(It i, const M& m, std::size_t at, const char* how)
{
    auto x = E::get(*i);
    VT_CHECK(x == m[at], "iterator", "an iterator moved %s is at %llu instead of %llu at %zu of %zu", how, (unsigned long long) x, (unsigned long long) m[at], at, m.size());
}

// iterators of d, which may be given up while they are in use
static void walk(rng& r, D d, const M& m)
{
    auto b = d.begin(), e = d.end();
    VT_CHECK(e - b == std::ptrdiff_t(m.size()), "iterator", "end() - begin() is %td for %zu elements", e - b, m.size());
    VT_CHECK((b == e) == m.empty(), "iterator", "begin() and end() of %zu elements compare wrongly", m.size());
    if (r.chance(1, 3))
        d = D{};
    switch (r.below(4)) {
    case 0: {
        std::size_t n = 0;
        for (auto i = b; i != e; ++i, ++n) {
            VT_CHECK(n < m.size(), "iterator", "does not end after %zu elements", m.size());
            read(i, m, n, "forwards");
        }
        VT_CHECK(n == m.size(), "iterator", "ends after %zu of %zu elements", n, m.size());
        break;
    }
    case 1: {
        std::size_t n = m.size();
        for (auto i = e; i != b;) {
            --i;
            VT_CHECK(n > 0, "iterator", "does not end backwards after %zu elements", m.size());
            read(i, m, --n, "backwards");
        }
        VT_CHECK(n == 0, "iterator", "ends backwards before %zu elements", n);
        break;
    }
    case 2: { // in jumps, steps and turns, to both ends
        auto i         = r.chance(1, 2) ? b : e;
        std::size_t at = i == e ? m.size() : 0;
        for (auto k = r.below(40); k > 0; --k) {
            auto to = r.chance(1, 6) ? m.size() : r.chance(1, 6) ? 0 : r.below(m.size() + 1);
            switch (r.below(4)) {
            case 0: i += std::ptrdiff_t(to) - std::ptrdiff_t(at), at = to; break;
            case 1: i = i - (std::ptrdiff_t(at) - std::ptrdiff_t(to)), at = to; break;
            case 2:
                if (at < m.size())
                    ++i, ++at;
                break;
            default:
                if (at > 0)
                    --i, --at;
            }
            VT_CHECK(i - b == std::ptrdiff_t(at) && e - i == std::ptrdiff_t(m.size() - at), "iterator", "distances are wrong at %zu of %zu", at, m.size());
            VT_CHECK((i == e) == (at == m.size()) && (i == b) == (at == 0), "iterator", "comparison with the ends is wrong at %zu of %zu", at, m.size());
            if (at < m.size()) {
                read(i, m, at, "about");
                auto f = r.below(m.size());
                auto x = E::get(i[std::ptrdiff_t(f) - std::ptrdiff_t(at)]);
                VT_CHECK(x == m[f], "iterator", "subscript of an iterator at %zu gives %llu for %zu", at, (unsigned long long) x, std::size_t(f));
            }
        }
        break;
    }
    default:
        if (d.size()) {
            std::size_t n = m.size();
            for (auto i = d.rbegin(); i != d.rend(); ++i) {
                VT_CHECK(n > 0, "iterator", "does not end in reverse after %zu elements", m.size());
                auto x = E::get(*i);
                VT_CHECK(x == m[--n], "iterator", "the reverse iterator is at another than element %zu of %zu", n, m.size());
            }
            VT_CHECK(n == 0, "iterator", "ends in reverse before %zu elements", n);
        }
    }
    stats().add("walks");
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    {
        D d{};
        d = d.push_back(E::make(1)).push_back(E::make(2));
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64) {
        auto n   = 5 + r.below(60);
        auto lim = 1 + r.below(u64(1) << (1 + r.below(VT_B == 5 ? 11 : 8)));
        u64 last = 0, fresh = 1;
        {
            std::vector<slot> pool(1);
            for (u64 k = 0; k < n; ++k) {
                slot s     = r.pick(pool);
                auto op    = s.m.empty() ? 0 : r.below(5);
                auto i     = s.m.empty() ? 0 : r.chance(1, 5) ? s.m.size() - 1 : r.chance(1, 5) ? 0 : r.below(s.m.size());
                bool fails = r.chance(1, 4);
                auto c     = op == 0 ? 1 + r.below(lim) : 1 + r.below(4);
                static const char* nm[] = {"push_back", "assoc", "update", "assoc and push_back", "read"};
                note("%s size=%zu i=%zu count=%llu", nm[op], s.m.size(), std::size_t(i), (unsigned long long) c);
                stats().see(mix(op << 50 ^ s.m.size() << 30 ^ i << 12 ^ last));
                last = i;
                for (u64 q = 0; q < c; ++q) {
                    auto v      = E::norm(fresh++);
                    auto before = life().live.load();
                    bool threw  = false;
                    bool push   = op == 0 || (op == 3 && q % 2);
                    if (fails)
                        fault().arm(1 + r.below(30));
                    try {
                        if (push) {
                            s.d = s.d.push_back(E::make(v));
                        } else if (op == 1 || op == 3) {
                            s.d = s.d.assoc(i, E::make(v));
                        } else if (op == 2) {
                            u64 seen = 0, calls = 0;
                            s.d = s.d.update(i, [&](const T& x) {
                                seen = E::get(x);
                                ++calls;
                                fault().point(fault().on_fn, "fn");
                                return E::make(v);
                            });
                            VT_CHECK(seen == s.m[i] && calls == 1, "callback", "the function of update was called %llu times, with %llu instead of %llu", (unsigned long long) calls, (unsigned long long) seen, (unsigned long long) s.m[i]);
                        }
                    } catch (const injected&) {
                        threw = true;
                    } catch (const std::bad_alloc&) {
                        threw = true;
                    }
                    fault().disarm();
                    if (threw) {
                        stats().add("failures_injected");
                        if (E::tracked_type)
                            VT_CHECK(life().live.load() == before, "element-leak", "%lld elements alive after the failed operation, %lld before", (long long) life().live.load(), (long long) before);
                    } else if (push) {
                        s.m.push_back(v);
                    } else if (op != 4) {
                        s.m[i] = v;
                    }
                    if (op == 3)
                        i = r.below(s.m.size());
                    stats().add("evaluations");
                    if (s.m.size())
                        same_at(s.d, s.m, r.below(s.m.size()));
                }
                same(s.d, s.m);
                walk(r, s.d, s.m);
                auto& o = r.pick(pool);
                same(o.d, o.m);
                if (r.chance(1, 2))
                    walk(r, o.d, o.m);
                stats().max("size", s.m.size());
                if (pool.size() < 8)
                    pool.push_back(std::move(s));
                else
                    r.pick(pool) = std::move(s);
            }
            stats().sample(status().text);
            for (auto& s : pool)
                same(s.d, s.m);
        }
        expect_quiescent<MP>("after all versions are gone");
    });
    stats().dump();
}
