// atom under concurrent use (P21).
//   VT_T element type, VT_MP policy, VT_GC use libgc
// Every round records a history of calls with tickets taken before and after
// each, and decides whether it is linearizable; plus counting, token and
// container rounds on the whole history.
#if VT_GC
#define GC_THREADS
#include <gc/gc.h>
#define IMMER_HAS_LIBGC 1
#define IMMER_TAGGED_NODE 0
#include <immer/heap/gc_heap.hpp>
#include <cstdlib>
#include <new>
void* operator new(std::size_t n)
{
    auto p = GC_malloc_uncollectable(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    return p;
}
void operator delete(void* p) noexcept { GC_free(p); }
void operator delete(void* p, std::size_t) noexcept { GC_free(p); }
#endif
#include "seq_world.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/vector.hpp>
#include <functional>
#include <set>
#include <thread>

#ifndef VT_SOLO
#define VT_SOLO 0
#endif
using namespace vt;
#if VT_GC
using mp_real_gc = immer::memory_policy<immer::heap_policy<immer::gc_heap>, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy, false>;
#endif
using T  = VT_T;
using MP = VT_MP;
using E  = elem<T>;
using B  = immer::box<T, MP>;
using A  = immer::atom<T, MP>;
constexpr int MAXT = 6;
// policies without locks are for one thread
inline int how_many(rng& r) { return VT_SOLO ? 1 : 2 + int(r.below(MAXT - 1)); }

static std::atomic<u64> g_clock{1};
static u64 tick()
{
    std::atomic_signal_fence(std::memory_order_seq_cst);
    auto t = g_clock.fetch_add(1, std::memory_order_relaxed);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    return t;
}

struct gate
{
    std::atomic<int> n{0};
    void wait(int all)
    {
        n.fetch_add(1, std::memory_order_relaxed);
        while (n.load(std::memory_order_relaxed) < all)
            ::sched_yield();
    }
};

struct env_t
{
    status_t st{};
    stats_t local;
};

template <typename Fn>
void in_threads(rng& r, int nt, Fn&& fn)
{
    std::vector<env_t> env(nt);
    std::vector<std::thread> ts;
    gate g;
    static const unsigned masks[] = {0, 1, 7, 63, 1023};
    auto mask = masks[r.below(5)];
    auto on   = r.chance(4, 5);
    for (int i = 0; i < nt; ++i) {
        auto seed = r.next();
        ts.emplace_back([&, i, seed] {
#if VT_GC
            GC_stack_base sb;
            GC_get_stack_base(&sb);
            GC_register_my_thread(&sb);
#endif
            thread_status()    = &env[i].st;
            thread_stats()     = &env[i].local;
            chaos_state().s    = on ? mix(seed ^ 77) | 1 : 0;
            chaos_state().mask = mask;
            rng tr{seed};
            g.wait(nt);
            fn(i, tr);
            chaos_state().s = 0;
            env[i].local.add("delays", chaos_state().hits);
            chaos_state().hits = 0;
            arena_heap<>::pin();
            thread_status() = nullptr;
            thread_stats()  = nullptr;
#if VT_GC
            GC_unregister_my_thread();
#endif
        });
    }
    for (auto& t : ts)
        t.join();
    for (auto& e : env)
        stats().merge(e.local);
}

static void maybe_collect(rng& r)
{
#if VT_GC
    if (r.chance(1, 150))
        GC_gcollect();
#endif
}

// ------------------------------------------------------- linearizability

enum kind_t { LOAD, STORE, EXCHANGE, UPDATE };
struct rec
{
    u64 call, ret, arg, res;
    // LOAD: res; STORE: arg; EXCHANGE: arg, res; UPDATE: arg written, res seen
    kind_t kind;
    int thread;
};

struct conf
{
    u64 done; // bit per thread: its pending call took effect
    u64 value;
    bool operator<(const conf& o) const { return done != o.done ? done < o.done : value < o.value; }
};

// All configurations reachable after each return: a call that returned must
// have taken effect between its call and its return.
static void check_linearizable(std::vector<rec>& h, u64 initial)
{
    struct event { u64 at; int op; bool call; };
    std::vector<event> ev;
    for (int i = 0; i < int(h.size()); ++i) {
        ev.push_back({h[i].call, i, true});
        ev.push_back({h[i].ret, i, false});
    }
    std::sort(ev.begin(), ev.end(), [](auto& a, auto& b) { return a.at < b.at; });
    std::set<conf> cs{{0, initial}};
    int pending[MAXT + 1];
    std::fill_n(pending, MAXT + 1, -1);
    u64 most = 0;
    for (auto& e : ev) {
        auto& o = h[e.op];
        if (e.call) {
            pending[o.thread] = e.op;
            continue;
        }
        // close under taking effect
        std::vector<conf> todo(cs.begin(), cs.end());
        while (!todo.empty()) {
            auto c = todo.back();
            todo.pop_back();
            for (int t = 0; t < MAXT; ++t) {
                if (pending[t] < 0 || c.done >> t & 1)
                    continue;
                auto& p = h[pending[t]];
                auto n  = c;
                n.done |= u64(1) << t;
                if (p.kind != STORE && p.res != c.value)
                    continue;
                if (p.kind != LOAD)
                    n.value = p.arg;
                if (cs.insert(n).second)
                    todo.push_back(n);
            }
        }
        most = std::max<u64>(most, cs.size());
        std::set<conf> next;
        for (auto c : cs)
            if (c.done >> o.thread & 1) {
                c.done &= ~(u64(1) << o.thread);
                next.insert(c);
            }
        if (next.empty()) {
            static const char* nm[] = {"load", "store", "exchange", "update"};
            // show what was going on
            std::string s;
            for (auto& x : h)
                if (x.call <= o.ret && x.ret + 12 >= o.call) {
                    char b[160];
                    std::snprintf(b, sizeof b, "\n  thread %d %s [%llu,%llu] arg %llu result %llu", x.thread, nm[x.kind], (unsigned long long) x.call, (unsigned long long) x.ret, (unsigned long long) x.arg, (unsigned long long) x.res);
                    s += b;
                }
            std::printf("history around the failure:%s\n", s.c_str());
            fail("not-linearizable", "thread %d: %s returning %llu at %llu fits no order of the calls; %zu orders until then", o.thread, nm[o.kind], (unsigned long long) o.res, (unsigned long long) o.ret, cs.size());
        }
        cs.swap(next);
        pending[o.thread] = -1;
    }
    stats().max("configurations", most);
    u64 overlaps = 0;
    // overlapping pairs in time show that calls were really concurrent
    std::sort(h.begin(), h.end(), [](auto& a, auto& b) { return a.call < b.call; });
    u64 sig = 0;
    for (std::size_t i = 0; i < h.size(); ++i) {
        for (std::size_t j = i + 1; j < h.size() && h[j].call < h[i].ret; ++j) {
            ++overlaps;
            sig = mix(sig ^ (u64(h[i].kind) << 8 | u64(h[j].kind) << 4 | u64(h[j].ret < h[i].ret)));
            if (h[i].kind != LOAD && h[j].kind != LOAD)
                stats().add("overlapping_writes");
        }
        if (i % 4 == 3) {
            stats().see(sig);
        }
    }
    stats().add("overlapping_calls", overlaps);
}

static void round_lin(rng& r)
{
    int nt     = how_many(r);
    auto len   = 5 + r.below(40);
    u64 next0  = 1000;
    B initial{E::make(E::norm(7))};
    A a{initial};
    std::vector<std::vector<rec>> hs(nt);
    u64 wl = 1 + r.below(6), ws = 1 + r.below(4), we = 1 + r.below(6), wu = 1 + r.below(6);
    note("linearizability, %d threads, %llu calls each", nt, (unsigned long long) len);
    in_threads(r, nt, [&](int me, rng& tr) {
        std::vector<std::pair<B, u64>> kept;
        u64 fresh = next0 + u64(me) * 100000;
        auto& h   = hs[me];
        h.reserve(len);
        auto keep = [&](const B& b, u64 v) {
            if (E::get(*b) != v)
                fail("torn", "a box from the atom changed under its holder");
            if (tr.chance(1, 4))
                kept.emplace_back(b, v);
        };
        for (u64 i = 0; i < len; ++i) {
            auto k = tr.below(wl + ws + we + wu);
            auto v = E::norm(fresh++);
            rec x{};
            x.thread = me;
            x.arg    = v;
            if (k < wl) {
                x.kind = LOAD;
                x.call = tick();
                if (tr.chance(1, 3)) {
                    T t    = a; // conversion
                    x.ret  = tick();
                    x.res  = E::get(t);
                } else {
                    auto b = a.load();
                    x.ret  = tick();
                    x.res  = E::get(*b);
                    keep(b, x.res);
                }
            } else if ((k -= wl) < ws) {
                x.kind = STORE;
                B b{E::make(v)};
                auto how = tr.below(3);
                x.call   = tick();
                if (how == 0)
                    a.store(b);
                else if (how == 1)
                    a.store(std::move(b));
                else
                    a = b;
                x.ret = tick();
                if (how != 1)
                    keep(b, v);
            } else if ((k -= ws) < we) {
                x.kind = EXCHANGE;
                B b{E::make(v)};
                x.call = tick();
                auto o = tr.chance(1, 2) ? a.exchange(b) : a.exchange(B{b});
                x.ret  = tick();
                x.res  = E::get(*o);
                keep(o, x.res);
                keep(b, v);
            } else {
                x.kind   = UPDATE;
                u64 seen = 0, calls = 0;
                x.call   = tick();
                auto n   = a.update([&](const T& t) {
                    seen = E::get(t);
                    ++calls;
                    return E::make(v);
                });
                x.ret = tick();
                x.res = seen;
                if (E::get(*n) != v)
                    fail("update-result", "update returned %llu, its function %llu", (unsigned long long) E::get(*n), (unsigned long long) v);
                if (calls == 0)
                    fail("update-calls", "update did not call its function");
                if (calls > 1)
                    stats().add("retried_updates");
                keep(n, v);
            }
            h.push_back(x);
            maybe_collect(tr);
        }
        for (auto& p : kept)
            if (E::get(*p.first) != p.second)
                fail("handed-out", "a value handed out by the atom changed from %llu to %llu", (unsigned long long) p.second, (unsigned long long) E::get(*p.first));
    });
    std::vector<rec> all;
    for (auto& h : hs)
        all.insert(all.end(), h.begin(), h.end());
    stats().add("evaluations", all.size());
    // the value left behind is a load after everything
    {
        rec x{};
        x.kind = LOAD;
        x.call = tick();
        x.res  = E::get(*a.load());
        x.ret  = tick();
        x.thread = 0;
        all.push_back(x);
    }
    stats().sample(status().text);
    check_linearizable(all, E::norm(7));
    VT_CHECK(E::get(*initial) == E::norm(7), "handed-out", "the initial box changed");
}

// calls by "another thread" in the middle of an update, at the one place where
// they can be put deterministically: inside its function
static void round_nested(rng& r)
{
    A a{B{E::make(7)}};
    std::vector<rec> h;
    std::vector<std::pair<B, u64>> boxes;
    u64 fresh = 1000, n = 10 + r.below(30);
    note("calls inside the function of update");
    auto inner = [&](rng& r) {
        for (auto k = r.below(4); k > 0; --k) {
            rec x{};
            x.thread = 1;
            auto v   = E::norm(fresh++);
            x.call   = tick();
            B b{E::make(v)};
            if (!boxes.empty() && r.chance(1, 2)) // possibly the same box again
                std::tie(b, v) = r.pick(boxes);
            x.arg = v;
            switch (r.below(4)) {
            case 0: x.kind = LOAD; x.res = E::get(*a.load()); break;
            case 1: x.kind = STORE; a.store(b); boxes.emplace_back(b, v); break;
            case 2: {
                x.kind = EXCHANGE;
                auto o = a.exchange(b);
                x.res  = E::get(*o);
                boxes.emplace_back(o, x.res);
                break;
            }
            default: {
                x.kind = UPDATE;
                x.arg  = E::norm(fresh++);
                auto o = a.update([&](const T& t) { x.res = E::get(t); return E::make(x.arg); });
                boxes.emplace_back(o, x.arg);
            }
            }
            x.ret = tick();
            h.push_back(x);
        }
    };
    for (u64 i = 0; i < n; ++i) {
        rec x{};
        x.thread    = 0;
        x.kind      = UPDATE;
        unsigned go = unsigned(r.below(4));
        u64 calls   = 0;
        x.call      = tick();
        auto b      = a.update([&](const T& t) {
            ++calls;
            x.res = E::get(t);
            x.arg = E::norm(fresh++);
            auto w = x.arg;
            if (go) {
                --go;
                inner(r);
            }
            VT_CHECK(E::get(t) == x.res, "handed-out", "the value given to the function of update changed");
            return E::make(w);
        });
        x.ret = tick();
        VT_CHECK(E::get(*b) == x.arg, "update-result", "update returned %llu, its function %llu", (unsigned long long) E::get(*b), (unsigned long long) x.arg);
        h.push_back(x);
        if (calls > 1)
            stats().add("retried_updates");
        boxes.emplace_back(b, x.arg);
    }
    rec x{};
    x.kind = LOAD;
    x.call = tick();
    x.res  = E::get(*a.load());
    x.ret  = tick();
    h.push_back(x);
    stats().add("evaluations", h.size());
    check_linearizable(h, E::norm(7));
    for (auto& p : boxes)
        VT_CHECK(E::get(*p.first) == p.second, "handed-out", "a box changed");
}

// every increment counts; every token is somewhere exactly once
static void round_count(rng& r)
{
    int nt   = how_many(r);
    auto len = 20 + r.below(150);
    A a{B{E::make(0)}};
    std::vector<std::vector<u64>> got(nt);
    note("counting, %d threads, %llu updates each", nt, (unsigned long long) len);
    in_threads(r, nt, [&](int me, rng& tr) {
        u64 last = 0;
        for (u64 i = 0; i < len; ++i) {
            auto n = a.update([](const T& t) { return E::make(E::get(t) + 1); });
            auto v = E::get(*n);
            VT_CHECK(v > last, "update-order", "update returned %llu after %llu", (unsigned long long) v, (unsigned long long) last);
            last = v;
            got[me].push_back(v);
            if (tr.chance(1, 5)) {
                auto w = E::get(*a.load());
                VT_CHECK(w >= last, "load-order", "load returned %llu after an update had returned %llu", (unsigned long long) w, (unsigned long long) last);
                last = w;
            }
            maybe_collect(tr);
        }
    });
    auto f = E::get(*a.load());
    VT_CHECK(f == len * nt, "lost-update", "%llu updates left the count at %llu", (unsigned long long) (len * nt), (unsigned long long) f);
    std::vector<u64> all;
    for (auto& g : got)
        all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    for (u64 i = 0; i < all.size(); ++i)
        VT_CHECK(all[i] == i + 1, "lost-update", "result %llu was returned by two updates or none", (unsigned long long) (i + 1));
    stats().add("evaluations", len * nt);
    stats().add("counted_updates", len * nt);
}

static void round_tokens(rng& r)
{
    int nt   = how_many(r);
    auto len = 20 + r.below(150);
    A a{B{E::make(0)}};
    std::vector<B> mine;
    for (int i = 0; i < nt; ++i)
        mine.push_back(B{E::make(i + 1)});
    note("tokens, %d threads, %llu exchanges each", nt, (unsigned long long) len);
    in_threads(r, nt, [&](int me, rng& tr) {
        auto x = mine[me];
        mine[me] = B{E::make(99)};
        for (u64 i = 0; i < len; ++i) {
            x = a.exchange(std::move(x));
            auto v = E::get(*x);
            VT_CHECK(v <= u64(nt), "token", "exchange returned %llu", (unsigned long long) v);
            maybe_collect(tr);
        }
        mine[me] = x;
    });
    std::vector<int> seen(nt + 1);
    ++seen[E::get(*a.load())];
    for (auto& b : mine) {
        VT_CHECK(E::get(*b) <= u64(nt), "token", "a token was replaced by something else");
        ++seen[E::get(*b)];
    }
    for (int i = 0; i <= nt; ++i)
        VT_CHECK(seen[i] == 1, "token", "token %d is in %d places", i, seen[i]);
    stats().add("evaluations", len * nt);
}

// an atom of a container: appends from all threads
static void round_container(rng& r)
{
    using V  = immer::vector<T, MP, 2, 1>;
    int nt   = how_many(r);
    auto len = 10 + r.below(60);
    immer::atom<V, MP> a{};
    note("container, %d threads, %llu appends each", nt, (unsigned long long) len);
    in_threads(r, nt, [&](int me, rng& tr) {
        std::vector<immer::box<V, MP>> old;
        std::vector<std::size_t> sizes;
        for (u64 i = 0; i < len; ++i) {
            auto v = E::norm(u64(me) * 1000 + i);
            auto b = a.update([&](V x) { return std::move(x).push_back(E::make(v)); });
            VT_CHECK(b->size() > 0 && E::get((*b)[b->size() - 1]) == v, "container", "the appended element is not at the end");
            if (tr.chance(1, 6)) {
                old.push_back(a.load());
                sizes.push_back(old.back()->size());
                VT_CHECK(sizes.back() >= b->size(), "container", "a load lost elements");
            }
            maybe_collect(tr);
        }
        for (std::size_t i = 0; i < old.size(); ++i)
            VT_CHECK(old[i]->size() == sizes[i], "container", "an old value changed");
    });
    V f = *a.load();
    VT_CHECK(f.size() == len * nt, "lost-update", "%llu appends left %llu elements", (unsigned long long) (len * nt), (unsigned long long) f.size());
    std::map<u64, u64> seen;
    for (auto& x : f) {
        auto v = E::get(x);
        VT_CHECK(v % 1000 == seen[v / 1000]++, "lost-update", "elements of one thread are out of order");
    }
    stats().add("evaluations", len * nt);
}

// ---------------------------------------------- calls back into the atom
// Elements whose destructor (or whose copy, or the function of update) uses
// the atom again.  The atom's lock must not be held while user code runs; a
// second locking by its holder is caught here instead of hanging.
template <typename Lock>
struct owned_lock
{
    Lock l;
    std::atomic<std::thread::id> owner{};
    bool try_lock()
    {
        if (!l.try_lock())
            return false;
        owner.store(std::this_thread::get_id(), std::memory_order_relaxed);
        return true;
    }
    void lock()
    {
        if (owner.load(std::memory_order_relaxed) == std::this_thread::get_id())
            fail("self-deadlock", "the atom's lock is taken again by the thread that holds it");
        l.lock();
        owner.store(std::this_thread::get_id(), std::memory_order_relaxed);
        stats().add("locks_taken");
    }
    void unlock()
    {
        owner.store(std::thread::id{}, std::memory_order_relaxed);
        l.unlock();
    }
    struct scoped_lock
    {
        owned_lock& l;
        explicit scoped_lock(owned_lock& x) : l{x} { l.lock(); }
        scoped_lock(const scoped_lock&) = delete;
        ~scoped_lock() { l.unlock(); }
    };
};

struct caller
{
    T x;
    static std::function<void(const caller&, bool)>*& hook()
    {
        thread_local std::function<void(const caller&, bool)>* h = nullptr;
        return h;
    }
    explicit caller(u64 v) : x(E::make(v)) {}
    caller(const caller& o) : x(o.x) { call(true); }
    caller& operator=(const caller&) = delete;
    ~caller() { call(false); }
    u64 get() const { return E::get(x); }
    void call(bool copy)
    {
        if (auto h = hook()) {
            hook() = nullptr; // not from within
            (*h)(*this, copy);
            hook() = h;
        }
    }
};

template <bool Refcounted, typename P = MP>
struct reentrant
{
    using lock_t = std::conditional_t<std::is_same<typename P::lock, immer::no_lock_policy>::value, immer::spinlock_policy, typename P::lock>;
    using mp     = immer::memory_policy<typename P::heap, typename P::refcount, owned_lock<lock_t>>;
    using box_t  = immer::box<caller, mp>;
    using atom_t = immer::atom<caller, mp>;

    static void run(rng& r)
    {
        int nt   = VT_SOLO ? 1 : 1 + int(r.below(4));
        auto len = 5 + r.below(40);
        note("calls back into the atom, %d threads, %llu calls each", nt, (unsigned long long) len);
        atom_t a{box_t{u64(1)}};
        in_threads(r, nt, [&](int me, rng& tr) {
            u64 fresh = 1000 + 10000 * u64(me), current = 1, calls = 0;
            bool exact = false;
            std::vector<box_t> kept;
            std::function<void(const caller&, bool)> hook = [&](const caller& c, bool copy) {
                ++calls;
                switch (tr.below(4)) {
                case 0: {
                    u64 v = fresh++;
                    auto o = a.exchange(box_t{v});
                    kept.push_back(o);
                    current = v;
                    break;
                }
                case 1: a.store(box_t{current = fresh++}); break;
                default: {
                    auto b = a.load();
                    VT_CHECK(copy || &*b != &c, "destroyed-inside", "a value is destroyed while the atom holds it");
                    if (exact && !copy)
                        VT_CHECK(b->get() == current, "callback-value", "the atom holds %llu, %llu expected, when the value it replaced is destroyed", (unsigned long long) b->get(), (unsigned long long) current);
                    kept.push_back(b);
                }
                }
            };
            for (u64 i = 0; i < len; ++i) {
                auto v = fresh++;
                // nobody else keeps most of the values: replacing one destroys it
                if (kept.size() > 3 || tr.chance(1, 2))
                    kept.clear();
                auto k         = tr.below(6);
                current        = v;
                exact          = nt == 1 && k < 4;
                caller::hook() = nullptr;
                {
                    box_t b{v};
                    caller::hook() = &hook;
                    switch (k) {
                    case 0: a.store(std::move(b)); break;
                    case 1: a.store(b); break;
                    case 2: a = std::move(b); break;
                    case 3: { auto o = a.exchange(std::move(b)); break; }
                    case 4: {
                        bool first = true;
                        u64 w      = 0;
                        auto o     = a.update([&](const caller& c) {
                            auto h         = caller::hook();
                            caller::hook() = nullptr;
                            if (first && tr.chance(1, 3))
                                hook(c, true); // as another thread would
                            first          = false;
                            w              = fresh++;
                            current        = w;
                            caller::hook() = h;
                            return caller{w};
                        });
                        VT_CHECK(o->get() == w, "update-result", "update returned %llu, its function %llu", (unsigned long long) o->get(), (unsigned long long) w);
                        break;
                    }
                    default: { caller c = a; (void) c; }
                    }
                    caller::hook() = nullptr;
                }
                if (nt == 1) {
                    // a function that throws changes nothing and locks nothing
                    auto before = a.load();
                    try {
                        auto o = a.update([&](const caller&) -> caller { throw 17; });
                        (void) o;
                        fail("update-throw", "the exception of update's function is lost");
                    } catch (int) {
                    }
                    VT_CHECK(a.load()->get() == before->get(), "update-throw", "an update whose function throws changed the atom");
                }
            }
            kept.clear();
            stats().add("calls_back", calls);
        });
        stats().add("evaluations", len * nt);
    }
};
template <typename P>
struct reentrant<false, P>
{
    static void run(rng& r) { round_nested(r); }
};

int main(int argc, char** argv)
{
#if VT_GC
    GC_INIT();
    GC_allow_register_threads();
#endif
    args_t args{argc, argv};
    {
        A a{B{E::make(1)}};
        immer::vector<T, MP, 2, 1> v;
        auto t = v.transient();
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        switch (i % 10) {
        case 6: reentrant<!std::is_same<typename MP::refcount, immer::no_refcount_policy>::value>::run(r); break;
        case 3: round_nested(r); break;
        case 0: round_count(r); break;
        case 1: round_tokens(r); break;
        case 2: round_container(r); break;
        default: round_lin(r);
        }
        expect_quiescent<MP>("after the atom and all threads are gone");
    });
    stats().dump();
}
