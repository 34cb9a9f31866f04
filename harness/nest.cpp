// nested values (P07 P08 P15 P16): documents, whose elements are documents in
// containers of every kind, with models. Parts replace the whole that owns
// them, values contain themselves as they were, and functions given to update
// use the value being updated.
//   VT_T element type, VT_MP policy, VT_B VT_BL VT_HB branching
#include "assoc_world.hpp"
#include "seq_world.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <memory>
#include <set>

using namespace vt;
using T  = VT_T;
using MP = VT_MP;
using E  = elem<T>;
constexpr bool counted = is_counted<MP>::value;

struct doc;
using D    = immer::box<doc, MP>;
using list = immer::flex_vector<D, MP, VT_B, VT_BL>;
using vec  = immer::vector<D, MP, VT_B, VT_BL>;
using arr  = immer::array<D, MP>;
using dict = immer::map<T, D, vhash<T>, vequal<T>, MP, VT_HB>;
struct entry
{
    T id;
    D d;
    bool operator==(const entry& o) const;
    bool operator!=(const entry& o) const { return !(*this == o); }
};
using tab = immer::table<entry, immer::table_key_fn, vhash<T>, vequal<T>, MP, VT_HB>;

struct doc
{
    T label = E::make(0);
    list l;
    vec v;
    arr a;
    dict m;
    tab t;
    bool operator==(const doc& o) const { return label == o.label && l == o.l && v == o.v && a == o.a && m == o.m && t == o.t; }
    bool operator!=(const doc& o) const { return !(*this == o); }
};
bool entry::operator==(const entry& o) const { return id == o.id && d == o.d; }

// the models
struct mdoc;
using P    = std::shared_ptr<const mdoc>;
using mseq = std::vector<P>;
using mtab = std::map<u64, P>;
struct mdoc
{
    u64 label = E::norm(0);
    mseq l, v, a;
    mtab m, t;
    u64 weight = 1, depth = 1; // as a tree
    void weigh()
    {
        weight = depth = 1;
        auto sub = [&](const P& p) { weight = std::min<u64>(weight + p->weight, 1u << 30), depth = std::max(depth, p->depth + 1); };
        for (auto* s : {&l, &v, &a})
            for (auto& p : *s)
                sub(p);
        for (auto* s : {&m, &t})
            for (auto& p : *s)
                sub(p.second);
    }
};
static bool equal(const P& x, const P& y)
{
    if (x == y)
        return true;
    if (x->label != y->label || x->weight != y->weight)
        return false;
    auto seqs = [](const mseq& a, const mseq& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), equal); };
    auto maps = [](const mtab& a, const mtab& b) {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto&& p, auto&& q) { return p.first == q.first && equal(p.second, q.second); });
    };
    return seqs(x->l, y->l) && seqs(x->v, y->v) && seqs(x->a, y->a) && maps(x->m, y->m) && maps(x->t, y->t);
}

struct verifier
{
    std::set<std::pair<const doc*, const mdoc*>> done;
    const char* op;
    template <typename S>
    void seq(const S& s, const mseq& m, const char* what)
    {
        VT_CHECK(s.size() == m.size(), "model", "after %s %s of a document has %zu elements, expected %zu", op, what, std::size_t(s.size()), m.size());
        std::size_t i = 0;
        immer::for_each(s, [&](const D& d) {
            if (i < m.size())
                (*this)(d, m[i]);
            ++i;
        });
        VT_CHECK(i == m.size(), "model", "after %s a traversal of %s sees %zu elements of %zu", op, what, i, m.size());
        if (i)
            (*this)(s[i / 2], m[i / 2]), (*this)(s[i - 1], m[i - 1]);
    }
    void operator()(const D& d, const P& p)
    {
        if (!done.emplace(&d.get(), p.get()).second)
            return;
        VT_CHECK(E::get(d->label) == p->label, "model", "after %s a document presents %llu, expected %llu", op, (unsigned long long) E::get(d->label), (unsigned long long) p->label);
        seq(d->l, p->l, "a flex_vector");
        seq(d->v, p->v, "a vector");
        seq(d->a, p->a, "an array");
        VT_CHECK(d->m.size() == p->m.size() && d->t.size() == p->t.size(), "model", "after %s a map or table of a document has another size", op);
        std::size_t n = 0;
        for (auto& e : d->m) {
            auto it = p->m.find(E::get(e.first));
            VT_CHECK(it != p->m.end(), "model", "after %s a map presents another key", op);
            (*this)(e.second, it->second), ++n;
        }
        for (auto& e : d->t) {
            auto it = p->t.find(E::get(e.id));
            VT_CHECK(it != p->t.end(), "model", "after %s a table presents another key", op);
            (*this)(e.d, it->second), ++n;
        }
        VT_CHECK(n == p->m.size() + p->t.size(), "model", "after %s a map or table is traversed in another number of steps", op);
    }
};

struct ndoc
{
    D d;
    P p;
};
constexpr u64 max_weight = 1500, max_depth = 40;

struct world
{
    rng& r;
    std::vector<ndoc> s;
    u64 fresh = 1;
    bool rv   = true;     // in place
    const char* op = "";
    u64 reentered = 0;

    u64 num() { return E::norm(r.chance(1, 3) ? r.below(12) : fresh++); }
    ndoc leaf()
    {
        auto v = num();
        doc x;
        x.label = E::make(v);
        auto m   = std::make_shared<mdoc>();
        m->label = v;
        return {D{std::move(x)}, m};
    }
    void verify()
    {
        verifier v{{}, op};
        for (auto& x : s)
            v(x.d, x.p);
    }
    // something to put in, small enough
    ndoc something(u64 budget)
    {
        auto x = r.pick(s);
        return x.p->weight < budget && x.p->depth < max_depth / 2 ? x : leaf();
    }

    // ---- changes below
    template <typename S>
    void change_in_seq(S& s, mseq& m, u64 depth, u64 budget)
    {
        auto i  = r.below(m.size());
        auto fn = [&](auto&& c) {
            D e = std::forward<decltype(c)>(c);
            return edit(std::move(e), m[i], depth - 1, budget);
        };
        switch (r.below(rv ? 6 : 3)) {
        case 0: {
            auto n = m.size();
            auto w = m;
            s      = s.update(i, [&](auto&& c) {
                // the value being updated is there as it was
                ++reentered;
                VT_CHECK(s.size() == n && E::get(s[n - 1]->label) == w[n - 1]->label && E::get(s[0]->label) == w[0]->label, "reentrant", "in a function given to update the value is not what it was");
                auto x = s.push_back(s[0]);
                VT_CHECK(x.size() == n + 1 && x[n] == s[0], "reentrant", "in a function given to update a value derived is wrong");
                return fn(std::forward<decltype(c)>(c));
            });
            break;
        }
        case 1: s = s.set(i, fn(s[i])); break;
        case 2: {
            S q = s;
            q   = q.update(i, fn);
            s   = q;
            break;
        }
        case 3: s = std::move(s).update(i, fn); break;
        case 4: {
            auto t = s.transient();
            t.update(i, fn);
            s = std::move(t).persistent();
            break;
        }
        default: {
            auto t = std::move(s).transient();
            D c    = t[i];
            t.set(i, leaf().d);
            t.set(i, fn(std::move(c)));
            s = t.persistent();
            break;
        }
        }
    }
    template <typename M>
    void change_in_map(M& c, mtab& m, u64 depth, u64 budget)
    {
        constexpr bool is_tab = std::is_same<M, tab>::value;
        auto it = m.begin();
        std::advance(it, r.below(m.size()));
        auto k   = it->first;
        auto sub = [&](D d) { return edit(std::move(d), it->second, depth - 1, budget); };
        auto fn  = [&](auto&& x) {
            if constexpr (is_tab) {
                entry e = std::forward<decltype(x)>(x);
                e.d     = sub(std::move(e.d));
                return e;
            } else {
                D d = std::forward<decltype(x)>(x);
                return sub(std::move(d));
            }
        };
        auto put = [&](D d) {
            if constexpr (is_tab)
                return entry{E::make(k), std::move(d)};
            else
                return std::make_pair(E::make(k), std::move(d));
        };
        auto at = [&](const M& c) -> const D& {
            if constexpr (is_tab)
                return c.at(E::make(k)).d;
            else
                return c.at(E::make(k));
        };
        switch (r.below(rv ? 7 : 4)) {
        case 0: {
            auto n = m.size();
            auto w = it->second->label;
            c      = c.update(E::make(k), [&](auto&& x) {
                ++reentered;
                VT_CHECK(c.size() == n && E::get(at(c)->label) == w, "reentrant", "in a function given to update the value is not what it was");
                auto y = c.erase(E::make(k));
                VT_CHECK(y.size() == n - 1 && !y.count(E::make(k)), "reentrant", "in a function given to update a value derived is wrong");
                return fn(std::forward<decltype(x)>(x));
            });
            break;
        }
        case 1: c = c.insert(put(sub(at(c)))); break;
        case 2: c = c.update_if_exists(E::make(k), fn); break;
        case 3: {
            M q = c;
            c   = q.update(E::make(k), fn);
            break;
        }
        case 4: c = std::move(c).update(E::make(k), fn); break;
        case 5: {
            auto t = c.transient();
            t.update_if_exists(E::make(k), fn);
            c = std::move(t).persistent();
            break;
        }
        default: {
            auto t = std::move(c).transient();
            D d    = [&] {
                if constexpr (is_tab)
                    return t.at(E::make(k)).d;
                else
                    return t.at(E::make(k));
            }();
            t.erase(E::make(k));
            t.insert(put(sub(std::move(d))));
            c = t.persistent();
            break;
        }
        }
    }

    template <typename S>
    void change_seq(S& s, mseq& m, const ndoc& x)
    {
        constexpr bool flex = std::is_same<S, list>::value;
        auto n = m.size();
        auto i = r.below(n + 1);
        switch (r.below(flex ? 9 : 5)) {
        case 0:
        case 1:
            rv && r.chance(1, 2) ? void(s = std::move(s).push_back(x.d)) : void(s = s.push_back(x.d));
            m.push_back(x.p);
            break;
        case 2:
            rv && r.chance(1, 2) ? void(s = std::move(s).take(i)) : void(s = s.take(i));
            m.resize(i);
            break;
        case 3:
            if (n) {
                i %= n;
                auto j = r.below(n);
                // an element of the value itself
                rv && r.chance(1, 2) ? void(s = std::move(s).set(i, s[j])) : void(s = s.set(i, s[j]));
                m[i] = m[j];
            }
            break;
        case 4: { // transient, and the persistent values of its steps
            auto t = s.transient();
            std::vector<std::pair<S, mseq>> steps;
            for (int k = 0; k < 6; ++k) {
                if (m.size() && r.chance(1, 3)) {
                    auto j = r.below(m.size());
                    t.set(j, x.d), m[j] = x.p;
                } else
                    t.push_back(x.d), m.push_back(x.p);
                if (r.chance(1, 3))
                    steps.emplace_back(t.persistent(), m);
            }
            verifier v{{}, "a transient of documents"};
            s = rv ? std::move(t).persistent() : t.persistent();
            for (auto& y : steps)
                v.seq(y.first, y.second, "a step of a transient");
            if (steps.size() && r.chance(1, 3))
                s = steps[0].first, m = steps[0].second;
            break;
        }
        default:
            if constexpr (flex) {
                switch (r.below(4)) {
                case 0:
                    rv && r.chance(1, 2) ? void(s = std::move(s).push_front(x.d)) : void(s = s.push_front(x.d));
                    m.insert(m.begin(), x.p);
                    break;
                case 1:
                    rv && r.chance(1, 2) ? void(s = std::move(s).drop(i)) : void(s = s.drop(i));
                    m.erase(m.begin(), m.begin() + i);
                    break;
                case 2: {
                    auto j = i + r.below(n - i + 1);
                    rv && r.chance(1, 2) ? void(s = std::move(s).erase(i, j)) : void(s = s.erase(i, j));
                    m.erase(m.begin() + i, m.begin() + j);
                    break;
                }
                case 3:
                    rv && r.chance(1, 2) ? void(s = std::move(s).insert(i, x.d)) : void(s = s.insert(i, x.d));
                    m.insert(m.begin() + i, x.p);
                    break;
                default: break;
                }
            }
        }
    }
    template <typename M>
    void change_map(M& c, mtab& m, const ndoc& x)
    {
        auto k = E::norm(r.below(24));
        auto e = [&] {
            if constexpr (std::is_same<M, tab>::value)
                return entry{E::make(k), x.d};
            else
                return std::make_pair(E::make(k), x.d);
        };
        switch (r.below(5)) {
        case 0:
        case 1:
            rv && r.chance(1, 2) ? void(c = std::move(c).insert(e())) : void(c = c.insert(e()));
            m[k] = x.p;
            break;
        case 2:
            rv && r.chance(1, 2) ? void(c = std::move(c).erase(E::make(k))) : void(c = c.erase(E::make(k)));
            m.erase(k);
            break;
        case 3:
            if (m.size()) { // the key is the one in the value itself
                auto& el = *c.begin();
                auto& kr = [&]() -> const T& {
                    if constexpr (std::is_same<M, tab>::value)
                        return el.id;
                    else
                        return el.first;
                }();
                auto kk = E::get(kr);
                rv && r.chance(1, 2) ? void(c = std::move(c).erase(kr)) : void(c = c.erase(kr));
                m.erase(kk);
            }
            break;
        default: {
            auto t = c.transient();
            for (int i = 0; i < 4; ++i) {
                k = E::norm(r.below(24));
                if (r.chance(1, 3))
                    t.erase(E::make(k)), m.erase(k);
                else
                    t.insert(e()), m[k] = x.p;
            }
            c = rv ? std::move(t).persistent() : t.persistent();
        }
        }
    }

    void change(doc& x, mdoc& m, u64 depth, u64 budget)
    {
        if (depth) {
            for (int tries = 0; tries < 4; ++tries) {
                switch (r.below(5)) {
                case 0: if (m.l.size()) return change_in_seq(x.l, m.l, depth, budget); break;
                case 1: if (m.v.size()) return change_in_seq(x.v, m.v, depth, budget); break;
                case 2: if (m.a.size()) return change_in_seq(x.a, m.a, depth, budget); break;
                case 3: if (m.m.size()) return change_in_map(x.m, m.m, depth, budget); break;
                default: if (m.t.size()) return change_in_map(x.t, m.t, depth, budget); break;
                }
            }
        }
        auto y = something(budget / 8);
        switch (r.below(8)) {
        case 0: {
            auto v  = num();
            x.label = E::make(v);
            m.label = v;
            break;
        }
        case 1:
        case 2: {
            if (r.chance(1, 4)) { // concatenation with the list of another
                auto left = r.chance(1, 2);
                if (m.l.size() + y.p->l.size() > 300)
                    break;
                if (left) {
                    rv && r.chance(1, 2) ? void(x.l = std::move(x.l) + y.d->l) : void(x.l = x.l + y.d->l);
                    m.l.insert(m.l.end(), y.p->l.begin(), y.p->l.end());
                } else {
                    rv && r.chance(1, 2) ? void(x.l = y.d->l + std::move(x.l)) : void(x.l = y.d->l + x.l);
                    m.l.insert(m.l.begin(), y.p->l.begin(), y.p->l.end());
                }
                break;
            }
            change_seq(x.l, m.l, y);
            break;
        }
        case 3: change_seq(x.v, m.v, y); break;
        case 4: change_seq(x.a, m.a, y); break;
        case 5: change_map(x.m, m.m, y); break;
        case 6: change_map(x.t, m.t, y); break;
        default: // containers of one kind made of those of another
            switch (r.below(4)) {
            case 0: x.l = list(x.v); m.l = m.v; break;
            case 1: x.v = vec(x.l.begin(), x.l.end()); m.v = m.l; break;
            case 2: {
                auto l = x.l;
                x.l    = list(x.a.begin(), x.a.end());
                x.a    = arr(l.begin(), l.end());
                std::swap(m.l, m.a);
                break;
            }
            default: x = doc{}; m = mdoc{}; break;
            }
        }
    }

    D edit(D d, P& p, u64 depth, u64 budget)
    {
        auto q = std::make_shared<mdoc>(*p);
        D e    = [&] {
            switch (r.below(rv ? 4 : 2)) {
            case 0: {
                doc x = *d;
                change(x, *q, depth, budget);
                return D{std::move(x)};
            }
            case 1:
                return d.update([&](const doc& x) {
                    doc y = x;
                    change(y, *q, depth, budget);
                    return y;
                });
            case 2:
                return D{std::move(d).update([&](auto&& x) {
                    doc y = std::forward<decltype(x)>(x);
                    change(y, *q, depth, budget);
                    return y;
                })};
            default:
                // left as it is meanwhile
                d = std::move(d).update([&](auto&& x) {
                    doc y = x;
                    change(y, *q, depth, budget);
                    return y;
                });
                return d;
            }
        }();
        q->weigh();
        p = q;
        return e;
    }

    // ---- parts that replace the whole
    template <typename S, typename Sub>
    void descend_seq(S w, mseq m, Sub&& sub, ndoc& to)
    {
        // w has what it owns only from here
        auto style = r.below(5);
        u64 steps  = 0;
        while (m.size() && r.chance(4, 5)) {
            auto i = r.below(m.size());
            auto next = sub(m[i]);
            switch (style) {
            case 0: w = sub(w[i]); break;
            case 1: { S q{sub(w[i])}; w = std::move(q); break; }
            case 2: { auto t = w.transient(); w = S{}; w = sub(t[i]); break; }
            case 3: { const S& q = sub(w[i]); w = q; break; }
            default: { auto it = w.begin(); std::advance(it, i); w = sub(*it); break; }
            }
            m = next;
            ++steps;
            verifier v{{}, op};
            v.seq(w, m, "a container that has become a part of itself");
        }
        stats().max("steps_down", steps);
        doc x;
        auto q = std::make_shared<mdoc>();
        sub(x) = w;
        sub(*q) = m;
        q->weigh();
        to = {D{std::move(x)}, q};
    }
    struct in_l { list& operator()(doc& d) const { return d.l; } const list& operator()(const D& d) const { return d->l; } mseq& operator()(mdoc& d) const { return d.l; } const mseq& operator()(const P& d) const { return d->l; } };
    struct in_v { vec& operator()(doc& d) const { return d.v; } const vec& operator()(const D& d) const { return d->v; } mseq& operator()(mdoc& d) const { return d.v; } const mseq& operator()(const P& d) const { return d->v; } };
    struct in_a { arr& operator()(doc& d) const { return d.a; } const arr& operator()(const D& d) const { return d->a; } mseq& operator()(mdoc& d) const { return d.a; } const mseq& operator()(const P& d) const { return d->a; } };
    template <typename M>
    void descend_map(M w, mtab m)
    {
        while (m.size()) {
            auto it = m.begin();
            std::advance(it, r.below(m.size()));
            auto k = E::make(it->first);
            if constexpr (std::is_same<M, tab>::value) {
                auto n = it->second->t;
                if (r.chance(1, 2))
                    w = w.find(k)->d->t;
                else
                    w = w[k].d->t;
                m = n;
            } else {
                auto n = it->second->m;
                if (r.chance(1, 2))
                    w = w.find(k)->get().m;
                else
                    w = w.at(k)->m;
                m = n;
            }
            VT_CHECK(w.size() == m.size(), "model", "a map that has become a part of itself has another size");
            for (auto& e : m)
                VT_CHECK(w.count(E::make(e.first)) == 1, "model", "a map that has become a part of itself lacks a key");
        }
    }
    void descend_doc(ndoc& x)
    {
        for (int n = 0; n < 6; ++n) {
            auto& d = x.d;
            auto p  = x.p;
            auto at = [&](const mseq& m) { return r.below(m.size()); };
            auto on = [&](const mtab& m) { auto it = m.begin(); std::advance(it, r.below(m.size())); return it; };
            switch (r.below(5)) {
            case 0: if (p->l.size()) { auto i = at(p->l); d = d->l[i], x.p = p->l[i]; } break;
            case 1: if (p->v.size()) { auto i = at(p->v); d = D{d->v[i]}, x.p = p->v[i]; } break;
            case 2: if (p->a.size()) { auto i = at(p->a); d = d->a[i], x.p = p->a[i]; } break;
            case 3: if (p->m.size()) { auto it = on(p->m); d = *d->m.find(E::make(it->first)), x.p = it->second; } break;
            default: if (p->t.size()) { auto it = on(p->t); d = d->t.find(E::make(it->first))->d, x.p = it->second; } break;
            }
            verifier v{{}, "a document has become a part of itself"};
            v(x.d, x.p);
        }
    }

    void step()
    {
        ++status().op;
        rv      = r.chance(3, 4);
        auto& x = r.pick(s);
        auto& y = r.pick(s);
        auto k  = r.below(24);
        note("nested op=%llu weight=%llu depth=%llu", (unsigned long long) k, (unsigned long long) x.p->weight, (unsigned long long) x.p->depth);
        stats().see(mix(k * 7919 + x.p->weight * 131 + x.p->depth));
        stats().max("document_weight", x.p->weight);
        stats().max("document_depth", x.p->depth);
        if (x.p->weight > max_weight || x.p->depth > max_depth) {
            op = "a new document";
            x  = leaf();
            return;
        }
        switch (k) {
        case 0: op = "a new document"; x = leaf(); break;
        case 1:
            op = "a document becoming a part of itself";
            descend_doc(x);
            break;
        case 2: {
            op = "a container becoming a part of itself";
            ndoc to = leaf();
            auto d = x.d;
            auto p = x.p;
            if (r.chance(1, 2))
                x = leaf(); // maybe no other owner
            switch (r.below(5)) {
            case 0: { auto w = d->l; d = D{}; descend_seq(std::move(w), p->l, in_l{}, to); break; }
            case 1: { auto w = d->v; d = D{}; descend_seq(std::move(w), p->v, in_v{}, to); break; }
            case 2: { auto w = d->a; d = D{}; descend_seq(std::move(w), p->a, in_a{}, to); break; }
            case 3: { auto w = d->m; d = D{}; descend_map(std::move(w), p->m); break; }
            default: { auto w = d->t; d = D{}; descend_map(std::move(w), p->t); break; }
            }
            y = to;
            break;
        }
        case 3: { // a value that contains what it was
            op = "a value put into itself";
            if (x.p->weight * 2 > max_weight)
                break;
            auto q   = std::make_shared<mdoc>(*x.p);
            auto old = x.p;
            if (r.chance(1, 2)) {
                x.d = x.d.update([&](doc z) { z.l = z.l.push_back(x.d); return z; });
                q->l.push_back(old);
            } else {
                x.d = x.d.update([&](doc z) { z.m = std::move(z.m).set(E::make(3), x.d); return z; });
                q->m[E::norm(3)] = old;
            }
            q->weigh();
            x.p = q;
            break;
        }
        case 4:
        case 5: {
            op = "comparing documents";
            bool eq = equal(x.p, y.p);
            VT_CHECK((x.d == y.d) == eq && (x.d != y.d) == !eq, "comparison", "documents that are %s compare as if not", eq ? "equal" : "different");
            VT_CHECK((x.d->m == y.d->m) == (x.p->m.size() == y.p->m.size() && std::equal(x.p->m.begin(), x.p->m.end(), y.p->m.begin(), [](auto&& a, auto&& b) { return a.first == b.first && equal(a.second, b.second); })), "comparison", "maps of documents are compared wrong");
            u64 removed = 0, added = 0, changed = 0;
            immer::diff(
                x.d->m, y.d->m, [&](auto&&) { ++added; }, [&](auto&&) { ++removed; }, [&](auto&&, auto&&) { ++changed; });
            u64 ma = 0, mr = 0, mc = 0;
            for (auto& e : x.p->m) {
                auto it = y.p->m.find(e.first);
                if (it == y.p->m.end())
                    ++mr;
                else
                    mc += !equal(e.second, it->second);
            }
            for (auto& e : y.p->m)
                ma += !x.p->m.count(e.first);
            VT_CHECK(ma == added && mr == removed && mc == changed, "comparison", "the difference of maps of documents is wrong");
            break;
        }
        case 6: {
            op = "swapping and moving documents";
            if (&x == &y) {
                auto& z = x.d;
                x.d     = std::move(z);
                break;
            }
            if (r.chance(1, 2))
                std::swap(x, y);
            else {
                auto z = std::move(x);
                x      = std::move(y);
                y      = std::move(z);
            }
            break;
        }
        case 7: { // in the middle of something that fails
            op = "a change that failed";
            rv = false;
            auto z = x;
            auto p = x.p;
            fault().arm(1 + r.below(60));
            try {
                z.d = edit(x.d, p, r.below(5), max_weight);
                z.p = p;
            } catch (const injected&) { stats().add("failed_changes"); }
            catch (const std::bad_alloc&) { stats().add("failed_changes"); }
            fault().disarm();
            if (r.chance(1, 2))
                x = z;
            break;
        }
        default: {
            op     = "a change deep in a document";
            auto depth = r.below(7);
            if (r.chance(1, 2)) {
                auto p = x.p;
                y.d    = edit(x.d, p, depth, max_weight);
                y.p    = p;
            } else { // the only owner, maybe
                ndoc z = std::move(x);
                x      = leaf();
                z.d    = edit(std::move(z.d), z.p, depth, max_weight);
                x      = std::move(z);
            }
        }
        }
        verify();
        stats().add("evaluations");
    }
};

static void chain(rng& r)
{
    // as deep as it is long: releases recurse
    note("a chain of documents");
    D d;
    u64 n = 50 + r.below(200);
    for (u64 i = 0; i < n; ++i) {
        doc x;
        x.label = E::make(i);
        switch (r.below(5)) {
        case 0: x.l = x.l.push_back(d); break;
        case 1: x.v = x.v.push_back(d); break;
        case 2: x.a = x.a.push_back(d); break;
        case 3: x.m = x.m.set(E::make(1), d); break;
        default: x.t = x.t.insert(entry{E::make(1), d}); break;
        }
        d = D{x};
    }
    D half = d;
    for (u64 i = n; i-- > n / 2;) {
        VT_CHECK(E::get(half->label) == E::norm(i), "model", "a chain of documents presents another label");
        auto& h = half.get();
        half    = h.l.size() ? h.l[0] : h.v.size() ? h.v[0] : h.a.size() ? h.a[0] : h.m.size() ? h.m.at(E::make(1)) : h.t.at(E::make(1)).d;
    }
    d = D{};
    VT_CHECK(E::get(half->label) == E::norm(n / 2 - 1), "model", "the rest of a chain presents another label");
}

int main(int argc, char** argv)
{
    args_t args{argc, argv};
    fault().on_fn = false;
    {
        doc x;
        D d;
        entry e{E::make(0), d};
        x.l.transient(), x.v.transient(), x.a.transient(), x.m.transient(), x.t.transient();
        x.m[E::make(1)], x.t[E::make(1)];
        x.m.update(E::make(1), [](auto y) { return y; });
    }
    warmed_up<MP>();
    args.run([&](rng& r, u64 i) {
        hash_mode().mode = r.below(9);
        hash_mode().salt = r.next();
        if (i % 16 == 15)
            chain(r);
        else {
            world w{r, {}};
            for (int k = 0; k < 4; ++k)
                w.s.push_back(w.leaf());
            for (int k = 0; k < 120; ++k)
                w.step();
            stats().add("reentrant_uses", w.reentered);
        }
        stats().sample(status().text);
        expect_quiescent<MP>("after all documents are gone");
    });
    stats().add("element_copies", life().copies);
    stats().add("heap_allocations", mon_heap<>::st().allocs + arena_heap<>::st().allocs);
    stats().dump();
}
