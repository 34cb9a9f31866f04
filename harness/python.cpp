// The Python binding (P33), in an embedded interpreter.
// The objects it is given are lists that only the pool and the vectors refer
// to, so references that are lost or kept show in their counts; the memory of
// the interpreter comes from malloc, so ASan sees what happens to it.
//   VT_CYCLES only collections of cycles of vectors that share structure
#ifndef VT_CYCLES
#define VT_CYCLES 0
#endif
#include <extra/python/src/immer-raw.cpp>

#include "../engine/core.hpp"

// inside vt, so that no name of the binding's own gets mixed up with these
namespace vt {
namespace binding {
using M = std::vector<std::size_t>; // positions in the pool of objects

static PyObject* cls = nullptr;
static std::vector<PyObject*> objs;

struct slot
{
    PyObject* v;
    M m;
};

static PyObject* ok(PyObject* o, const char* what)
{
    if (!o) {
        PyErr_Print();
        fail("exception", "%s raised an exception", what);
    }
    if (PyErr_Occurred())
        fail("exception", "%s returned a result with an exception set", what);
    return o;
}

static void raises(PyObject* o, PyObject* type, const char* what, long long at, std::size_t size)
{
    if (o)
        fail("no-exception", "%s at %lld of %zu raised no exception", what, at, size);
    if (!PyErr_ExceptionMatches(type))
        fail("wrong-exception", "%s at %lld of %zu raised another exception", what, at, size);
    PyErr_Clear();
}

static PyObject* item(PyObject* v, Py_ssize_t i)
{
    auto k = PyLong_FromSsize_t(i);
    auto r = PyObject_GetItem(v, k);
    Py_DECREF(k);
    return r;
}

static void is_obj(PyObject* o, const M& m, std::size_t i, const char* what)
{
    ok(o, what);
    if (o != objs[m[i]])
        fail("model", "%s gives another object at %zu of %zu", what, i, m.size());
    Py_DECREF(o);
}

static void same(const slot& s)
{
    auto n = PyObject_Length(s.v);
    VT_CHECK(n == Py_ssize_t(s.m.size()), "model", "length %zd, %zu expected", n, s.m.size());
    auto l = ok(PyObject_CallMethod(s.v, "tolist", nullptr), "tolist");
    VT_CHECK(PyList_Check(l) && PyList_Size(l) == n, "model", "tolist gives another length");
    for (Py_ssize_t i = 0; i < n; ++i)
        VT_CHECK(PyList_GetItem(l, i) == objs[s.m[i]], "model", "tolist gives another object at %zd of %zd", i, n);
    Py_DECREF(l);
}

static void probe(rng& r, const slot& s)
{
    auto n = Py_ssize_t(s.m.size());
    for (auto k = 1 + r.below(4); k > 0; --k) {
        auto i = Py_ssize_t(r.below(2 * n + 5)) - n - 2;
        auto p = i < 0 ? i + n : i;
        if (p >= 0 && p < n)
            is_obj(item(s.v, i), s.m, p, "subscript");
        else
            raises(item(s.v, i), PyExc_IndexError, "subscript", i, n);
        if (p >= 0 && p < n)
            is_obj(PySequence_GetItem(s.v, i), s.m, p, "item");
        else
            raises(PySequence_GetItem(s.v, i), PyExc_IndexError, "item", i, n);
    }
    stats().add("probes");
}

// what is not implemented says so, and does nothing else
static void unimplemented(rng& r, const slot& s)
{
    auto n = (long long) s.m.size();
    switch (r.below(6)) {
    case 0: raises(PyObject_CallMethod(s.v, "extend", "O", s.v), PyExc_RuntimeError, "extend", 0, n); break;
    case 1: raises(PyObject_GetIter(s.v), PyExc_RuntimeError, "iter", 0, n); break;
    case 2: raises(PySequence_Repeat(s.v, 2), PyExc_RuntimeError, "repeat", 0, n); break;
    case 3: raises(PyObject_RichCompare(s.v, Py_None, Py_EQ), PyExc_RuntimeError, "comparison", 0, n); break;
    case 4: {
        auto h = PyObject_Hash(s.v);
        VT_CHECK(h == -1 && PyErr_Occurred(), "no-exception", "hash gives %zd, with an exception %s", h, PyErr_Occurred() ? "pending" : "missing");
        PyErr_Clear();
        break;
    }
    default: {
        auto sl = PySlice_New(nullptr, nullptr, nullptr);
        raises(PyObject_GetItem(s.v, sl), PyExc_RuntimeError, "slice", 0, n);
        Py_DECREF(sl);
        raises(PyObject_GetItem(s.v, cls), PyExc_TypeError, "subscript of another type", 0, n);
    }
    }
}

static slot derive(rng& r, const slot& s)
{
    auto o = r.below(objs.size());
    auto n = s.m.size();
    slot t{nullptr, s.m};
    if (n == 0 || r.chance(1, 2)) {
        note("append size=%zu", n);
        auto c = r.chance(1, 3) ? 1 + r.below(70) : 1;
        stats().see(mix(n << 20 ^ c));
        t.v    = s.v;
        Py_INCREF(t.v);
        while (c--) {
            auto v = ok(PyObject_CallMethod(t.v, "append", "O", objs[o]), "append");
            Py_DECREF(t.v);
            t.v = v;
            t.m.push_back(o);
            o = r.below(objs.size());
        }
    } else {
        auto i = Py_ssize_t(r.below(2 * n + 5)) - Py_ssize_t(n) - 2;
        if (r.chance(1, 6))
            i = Py_ssize_t(n);
        auto p = i < 0 ? i + Py_ssize_t(n) : i;
        note("set size=%zu i=%zd", n, i);
        stats().see(mix(n << 20 ^ u64(i) << 1 ^ 1));
        t.v = PyObject_CallMethod(s.v, "set", "nO", i, objs[o]);
        if (p >= 0 && p < Py_ssize_t(n)) {
            ok(t.v, "set");
            t.m[p] = o;
        } else {
            raises(t.v, PyExc_IndexError, "set", i, n);
            t.v = s.v;
            Py_INCREF(t.v);
        }
    }
    return t;
}

// cycles of vectors and lists are found by the collector, or kept; nothing
// that is in use is taken
static void collect(rng& r)
{
    note("collection");
    auto a = ok(PyList_New(0), "list"), held = ok(PyList_New(0), "list");
    PyList_Append(held, Py_None);
    slot s{ok(PyObject_CallObject(cls, nullptr), "Vector()"), {}};
    auto push = [&](PyObject*& v, PyObject* o) {
        auto w = ok(PyObject_CallMethod(v, "append", "O", o), "append");
        Py_DECREF(v);
        v = w;
    };
    push(s.v, held);
    auto n = 40 + r.below(30);
    for (u64 i = 0; i < n; ++i)
        push(s.v, Py_None);
    // several vectors that share the leaf with `held`
    bool cyclic = VT_CYCLES || r.chance(1, 2);
    auto k      = VT_CYCLES ? 2 : cyclic ? 1 : 1 + r.below(3);
    for (u64 i = 0; i < k; ++i) {
        auto w = ok(PyObject_CallMethod(s.v, "append", "O", a), "append");
        PyList_Append(a, w);
        Py_DECREF(w);
    }
    if (!cyclic)
        PyList_SetSlice(a, 0, PyList_Size(a), nullptr);
    Py_DECREF(s.v);
    Py_DECREF(a);
    PyGC_Collect();
    if (PyList_Size(held) != 1)
        fail("collected-in-use", "the collector cleared a list that is in use (vectors sharing it: %llu)", (unsigned long long) k);
    Py_DECREF(held);
    PyGC_Collect();
    stats().add("collections");
}

// vectors of vectors of vectors: releasing them does not exhaust the stack
static void deep(rng& r)
{
    auto n = 1000 + r.below(60000);
    note("nesting of %llu", (unsigned long long) n);
    auto v = ok(PyObject_CallObject(cls, nullptr), "Vector()");
    for (u64 i = 0; i < n; ++i) {
        auto e = ok(PyObject_CallObject(cls, nullptr), "Vector()");
        auto w = ok(PyObject_CallMethod(e, "append", "O", v), "append");
        Py_DECREF(e);
        Py_DECREF(v);
        v = w;
    }
    Py_DECREF(v);
    stats().add("nestings");
}

static int run(int argc, char** argv)
{
    args_t args{argc, argv};
    setenv("PYTHONMALLOC", "malloc", 1);
    PyImport_AppendInittab("immer_python_module", PyInit_immer_python_module);
    Py_InitializeEx(0);
    auto mod = ok(PyImport_ImportModule("immer_python_module"), "import");
    cls      = ok(PyObject_GetAttrString(mod, "Vector"), "Vector");
    args.run([&](rng& r, u64 it) {
        if (VT_CYCLES) {
            collect(r);
            stats().add("evaluations");
            return;
        }
        if (it % 40 == 7)
            deep(r);
        if (it % 4 == 3)
            collect(r);
        for (auto k = 1 + r.below(10); k > 0; --k)
            objs.push_back(ok(PyList_New(0), "list"));
        {
            std::vector<slot> pool{{ok(PyObject_CallObject(cls, nullptr), "Vector()"), {}}};
            std::vector<PyObject*> weak;
            for (auto k = 5 + r.below(60); k > 0; --k) {
                auto& s = r.pick(pool);
                auto t  = derive(r, s);
                same(t);
                same(s);
                probe(r, t);
                if (r.chance(1, 4))
                    unimplemented(r, s);
                if (r.chance(1, 20))
                    weak.push_back(ok(PyWeakref_NewRef(t.v, nullptr), "weakref"));
                if (r.chance(1, 20)) {
                    auto x = ok(PyObject_Repr(t.v), "repr");
                    std::string e = "immer.vector([";
                    for (std::size_t i = 0; i < t.m.size(); ++i)
                        e += i ? ", []" : "[]";
                    VT_CHECK(e + "])" == PyUnicode_AsUTF8(x), "model", "repr of %zu elements is %s", t.m.size(), PyUnicode_AsUTF8(x));
                    Py_DECREF(x);
                }
                if (r.chance(1, 30))
                    PyGC_Collect();
                stats().add("evaluations");
                stats().max("size", t.m.size());
                if (pool.size() < 8) {
                    pool.push_back(t);
                } else {
                    auto& x = r.pick(pool);
                    Py_DECREF(x.v);
                    x = t;
                }
            }
            stats().sample(status().text);
            for (auto& s : pool) {
                same(s);
                Py_DECREF(s.v);
            }
            for (auto w : weak) {
                VT_CHECK(PyWeakref_GetObject(w) == Py_None || Py_REFCNT(PyWeakref_GetObject(w)) > 0, "weakref", "a weak reference to a vector that is gone");
                Py_DECREF(w);
            }
        }
        for (auto o : objs) {
            VT_CHECK(Py_REFCNT(o) == 1, "reference-leak", "an object has %zd references after the vectors are gone, 1 expected", Py_REFCNT(o));
            Py_DECREF(o);
        }
        objs.clear();
    });
    stats().dump();
    std::fflush(nullptr);
    std::_Exit(0);
}

} // namespace binding
} // namespace vt

int main(int argc, char** argv) { return vt::binding::run(argc, argv); }
