// Minimal, header-only stand-in for pybind11: enough to compile pyBBN's own
// extension sources, unmodified, into genuine CPython extension modules.
// Nothing in here knows anything about pyBBN.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

#define PYBIND11_EXPORT __attribute__((visibility("default")))

namespace pybind11 {

struct error_already_set : std::runtime_error {
    error_already_set() : std::runtime_error("python error") {}
};
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };

typedef Py_ssize_t ssize_t_;

class object {
public:
    PyObject *m_ptr = nullptr;
    object() {}
    object(PyObject *p, bool steal) : m_ptr(p) { if (!steal) Py_XINCREF(p); }
    object(const object &o) : m_ptr(o.m_ptr) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : m_ptr(o.m_ptr) { o.m_ptr = nullptr; }
    object &operator=(object o) { std::swap(m_ptr, o.m_ptr); return *this; }
    ~object() { Py_XDECREF(m_ptr); }
    PyObject *ptr() const { return m_ptr; }
    PyObject *release() { PyObject *p = m_ptr; m_ptr = nullptr; return p; }
    explicit operator bool() const { return m_ptr != nullptr; }
};
typedef object handle;
inline object steal(PyObject *p) { if (!p) throw error_already_set(); return object(p, true); }
struct none : object { none() : object(Py_None, false) {} };

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct gil_scoped_release { gil_scoped_release() : s(PyEval_SaveThread()) {} ~gil_scoped_release() { PyEval_RestoreThread(s); } PyThreadState *s; };
struct gil_scoped_acquire { gil_scoped_acquire() : s(PyGILState_Ensure()) {} ~gil_scoped_acquire() { PyGILState_Release(s); } PyGILState_STATE s; };
template <typename... T> struct call_guard {};

// ---------------------------------------------------------------- registry
struct type_record { PyTypeObject *type; };
inline std::map<std::type_index, type_record> &registry() {
    static std::map<std::type_index, type_record> r;
    return r;
}
struct instance { PyObject_HEAD void *value; void (*dtor)(void *); };
struct enum_instance { PyObject_HEAD long value; };

// ---------------------------------------------------------------- casters
template <typename T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

template <typename T, typename Enable = void> struct caster {   // registered classes
    static bool load(PyObject *o, T *&out, bool) {
        auto it = registry().find(typeid(T));
        if (it == registry().end()) return false;
        if (!PyObject_TypeCheck(o, it->second.type)) return false;
        out = static_cast<T *>(reinterpret_cast<instance *>(o)->value);
        return out != nullptr;
    }
    static PyObject *cast(const T &v) {
        auto it = registry().find(typeid(T));
        if (it == registry().end()) throw cast_error("unregistered type");
        PyObject *o = it->second.type->tp_alloc(it->second.type, 0);
        if (!o) throw error_already_set();
        auto *inst = reinterpret_cast<instance *>(o);
        inst->value = new T(v);
        inst->dtor = [](void *p) { delete static_cast<T *>(p); };
        return o;
    }
};

// Holder abstracts over "by value" casters and "pointer into instance" casters
template <typename T, typename Enable = void> struct holder {
    T *p = nullptr;
    bool load(PyObject *o) { return caster<T>::load(o, p, true); }
    T &get() { return *p; }
};

template <typename T> struct value_holder {
    T v{};
    bool load(PyObject *o) { return caster<T>::load(o, v); }
    T &get() { return v; }
};

template <> struct caster<double> {
    static bool load(PyObject *o, double &v) {
        double d = PyFloat_AsDouble(o);
        if (d == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            if (!PyNumber_Check(o)) return false;
            PyObject *f = PyNumber_Float(o);
            if (!f) { PyErr_Clear(); return false; }
            d = PyFloat_AsDouble(f);
            Py_DECREF(f);
        }
        v = d;
        return true;
    }
    static PyObject *cast(double v) { return PyFloat_FromDouble(v); }
};
template <> struct caster<float> {
    static bool load(PyObject *o, float &v) { double d; if (!caster<double>::load(o, d)) return false; v = (float) d; return true; }
    static PyObject *cast(float v) { return PyFloat_FromDouble(v); }
};
template <> struct caster<bool> {
    static bool load(PyObject *o, bool &v) {
        int r = PyObject_IsTrue(o);
        if (r < 0) { PyErr_Clear(); return false; }
        v = r; return true;
    }
    static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};
template <typename T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static bool load(PyObject *o, T &v) {
        if (PyFloat_Check(o)) return false;
        PyObject *n = PyNumber_Index(o);
        if (!n) {
            PyErr_Clear();
            if (!PyNumber_Check(o)) return false;
            n = PyNumber_Long(o);
            if (!n) { PyErr_Clear(); return false; }
        }
        if (std::is_unsigned<T>::value) {
            unsigned long long x = PyLong_AsUnsignedLongLong(n);
            Py_DECREF(n);
            if (PyErr_Occurred()) { PyErr_Clear(); return false; }
            v = (T) x;
        } else {
            long long x = PyLong_AsLongLong(n);
            Py_DECREF(n);
            if (PyErr_Occurred()) { PyErr_Clear(); return false; }
            v = (T) x;
            if ((long long) v != x) return false;
        }
        return true;
    }
    static PyObject *cast(T v) {
        return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v);
    }
};
template <> struct caster<std::string> {
    static bool load(PyObject *o, std::string &v) {
        if (!PyUnicode_Check(o)) return false;
        Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n);
        if (!s) { PyErr_Clear(); return false; }
        v.assign(s, n); return true;
    }
    static PyObject *cast(const std::string &v) { return PyUnicode_FromStringAndSize(v.data(), v.size()); }
};
template <> struct caster<const char *> {
    static PyObject *cast(const char *v) { return PyUnicode_FromString(v); }
};
template <> struct caster<object> {
    static bool load(PyObject *o, object &v) { v = object(o, false); return true; }
    static PyObject *cast(const object &v) { Py_XINCREF(v.ptr()); return v.ptr(); }
};
template <> struct caster<none> { static PyObject *cast(const none &) { Py_RETURN_NONE; } };
template <typename E> struct caster<E, typename std::enable_if<std::is_enum<E>::value>::type> {
    static bool load(PyObject *o, E &v) {
        auto it = registry().find(typeid(E));
        if (it == registry().end() || !PyObject_TypeCheck(o, it->second.type)) return false;
        v = static_cast<E>(reinterpret_cast<enum_instance *>(o)->value);
        return true;
    }
    static PyObject *cast(E v) {
        auto it = registry().find(typeid(E));
        if (it == registry().end()) throw cast_error("unregistered enum");
        PyObject *o = it->second.type->tp_alloc(it->second.type, 0);
        if (!o) throw error_already_set();
        reinterpret_cast<enum_instance *>(o)->value = static_cast<long>(v);
        return o;
    }
};

template <> struct holder<double> : value_holder<double> {};
template <> struct holder<float> : value_holder<float> {};
template <> struct holder<std::string> : value_holder<std::string> {};
template <> struct holder<object> : value_holder<object> {};
template <typename T> struct holder<T, typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type> : value_holder<T> {};

template <typename T> struct vec_holder_base {
    T v{};
    T &get() { return v; }
};

inline bool is_seq(PyObject *o) {
    return PySequence_Check(o) && !PyUnicode_Check(o) && !PyBytes_Check(o);
}

template <typename T> struct holder<std::vector<T>> : vec_holder_base<std::vector<T>> {
    bool load(PyObject *o) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        if (n < 0) { PyErr_Clear(); return false; }
        this->v.clear(); this->v.reserve(n);
        for (Py_ssize_t i = 0; i < n; ++i) {
            PyObject *item = PySequence_GetItem(o, i);
            if (!item) { PyErr_Clear(); return false; }
            holder<T> h; bool ok = h.load(item);
            if (ok) this->v.push_back(h.get());
            Py_DECREF(item);
            if (!ok) return false;
        }
        return true;
    }
};
template <typename T, size_t N> struct holder<std::array<T, N>> : vec_holder_base<std::array<T, N>> {
    bool load(PyObject *o) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        if (n < 0) { PyErr_Clear(); return false; }
        if ((size_t) n != N) return false;
        for (Py_ssize_t i = 0; i < n; ++i) {
            PyObject *item = PySequence_GetItem(o, i);
            if (!item) { PyErr_Clear(); return false; }
            holder<T> h; bool ok = h.load(item);
            if (ok) this->v[i] = h.get();
            Py_DECREF(item);
            if (!ok) return false;
        }
        return true;
    }
};
template <typename A, typename B> struct holder<std::pair<A, B>> : vec_holder_base<std::pair<A, B>> {
    bool load(PyObject *o) {
        if (!is_seq(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
        object a(PySequence_GetItem(o, 0), true), b(PySequence_GetItem(o, 1), true);
        holder<A> ha; holder<B> hb;
        if (!ha.load(a.ptr()) || !hb.load(b.ptr())) return false;
        this->v.first = ha.get(); this->v.second = hb.get();
        return true;
    }
};

template <typename T> struct caster<std::vector<T>> {
    static PyObject *cast(const std::vector<T> &v) {
        PyObject *l = PyList_New(v.size());
        for (size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, i, caster<T>::cast(v[i]));
        return l;
    }
};
template <typename T, size_t N> struct caster<std::array<T, N>> {
    static PyObject *cast(const std::array<T, N> &v) {
        PyObject *l = PyList_New(N);
        for (size_t i = 0; i < N; ++i) PyList_SET_ITEM(l, i, caster<T>::cast(v[i]));
        return l;
    }
};
template <typename A, typename B> struct caster<std::pair<A, B>> {
    static PyObject *cast(const std::pair<A, B> &v) {
        PyObject *t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, caster<A>::cast(v.first));
        PyTuple_SET_ITEM(t, 1, caster<B>::cast(v.second));
        return t;
    }
};
template <typename... A> struct caster<std::tuple<A...>> {
    template <size_t... I> static PyObject *impl(const std::tuple<A...> &v, std::index_sequence<I...>) {
        PyObject *t = PyTuple_New(sizeof...(A));
        int dummy[] = {0, (PyTuple_SET_ITEM(t, I, (caster<bare<A>>::cast(std::get<I>(v)))), 0)...};
        (void) dummy;
        return t;
    }
    static PyObject *cast(const std::tuple<A...> &v) { return impl(v, std::index_sequence_for<A...>{}); }
};

template <typename T> object cast(const T &v) { return steal(caster<bare<T>>::cast(v)); }
template <typename T> T cast(const object &o) {
    holder<bare<T>> h;
    if (!h.load(o.ptr())) throw cast_error("Unable to cast Python instance");
    return h.get();
}

// ---------------------------------------------------------------- arguments
struct arg_v { std::string name; std::function<PyObject *()> make; };
struct arg {
    const char *name;
    explicit arg(const char *n) : name(n) {}
    template <typename T> arg_v operator=(T v) const {
        return arg_v{name, [v]() { return caster<T>::cast(v); }};
    }
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
};
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }

struct function_record {
    std::string name, doc;
    std::vector<std::string> names;
    std::vector<PyObject *> defaults;   // nullptr: required
    std::function<PyObject *(PyObject **)> impl;   // returns (PyObject*)1 on load failure
    size_t nargs = 0;
    bool method = false;
    PyMethodDef def;
};

inline void process(function_record &r, const arg &a) { r.names.push_back(a.name); r.defaults.push_back(nullptr); }
inline void process(function_record &r, const arg_v &a) { r.names.push_back(a.name); r.defaults.push_back(a.make()); }
inline void process(function_record &r, const char *d) { r.doc = d; }
inline void process(function_record &, return_value_policy) {}
template <typename... T> void process(function_record &, const call_guard<T...> &) {}
inline void process_all(function_record &) {}
template <typename H, typename... T> void process_all(function_record &r, H &&h, T &&...t) { process(r, h); process_all(r, std::forward<T>(t)...); }

inline PyObject *translate_exception() {
    try { throw; }
    catch (const error_already_set &) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "error_already_set"); }
    catch (const value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (const std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (const std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception"); }
    return nullptr;
}

inline PyObject *invoke(function_record *r, PyObject *args, PyObject *kwargs) {
    std::vector<PyObject *> slots(r->nargs + 1, nullptr);
    Py_ssize_t npos = PyTuple_GET_SIZE(args);
    size_t off = r->method ? 1 : 0;    // names do not include self
    if ((size_t) npos > r->nargs) {
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (too many)", r->name.c_str());
        return nullptr;
    }
    for (Py_ssize_t i = 0; i < npos; ++i) slots[i] = PyTuple_GET_ITEM(args, i);
    size_t used = 0;
    for (size_t i = npos; i < r->nargs; ++i) {
        if (i < off) continue;
        size_t k = i - off;
        if (k >= r->names.size()) continue;
        PyObject *v = kwargs ? PyDict_GetItemString(kwargs, r->names[k].c_str()) : nullptr;
        if (v) { ++used; slots[i] = v; }
        else slots[i] = r->defaults[k];
    }
    for (size_t i = 0; i < r->nargs; ++i) if (!slots[i]) {
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (missing #%zd)", r->name.c_str(), (Py_ssize_t) i);
        return nullptr;
    }
    if (kwargs && (size_t) PyDict_Size(kwargs) != used) {
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (unexpected keyword)", r->name.c_str());
        return nullptr;
    }
    try {
        PyObject *res = r->impl(slots.data());
        if (res == reinterpret_cast<PyObject *>(1)) {
            PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str());
            return nullptr;
        }
        return res;
    } catch (...) { return translate_exception(); }
}

inline PyObject *trampoline(PyObject *self, PyObject *args, PyObject *kwargs) {
    return invoke(static_cast<function_record *>(PyCapsule_GetPointer(self, nullptr)), args, kwargs);
}

template <typename R> struct ret {
    template <typename F, typename... A> static PyObject *call(F &f, A &&...a) { return caster<bare<R>>::cast(f(std::forward<A>(a)...)); }
};
template <> struct ret<void> {
    template <typename F, typename... A> static PyObject *call(F &f, A &&...a) { f(std::forward<A>(a)...); Py_RETURN_NONE; }
};

template <typename R, typename... A, typename F, size_t... I>
std::function<PyObject *(PyObject **)> wrap_impl(F f, std::index_sequence<I...>) {
    return [f](PyObject **slots) mutable -> PyObject * {
        std::tuple<holder<bare<A>>...> hs;
        bool oks[] = {true, std::get<I>(hs).load(slots[I])...};
        for (bool ok : oks) if (!ok) return reinterpret_cast<PyObject *>(1);
        (void) slots;
        return ret<R>::call(f, std::get<I>(hs).get()...);
    };
}
template <typename R, typename... A, typename F> void fill(function_record &r, F f, R (*)(A...)) {
    r.nargs = sizeof...(A);
    r.impl = wrap_impl<R, A...>(f, std::index_sequence_for<A...>{});
}
template <typename T> struct strip;
template <typename C, typename R, typename... A> struct strip<R (C::*)(A...) const> { typedef R (*type)(A...); };
template <typename C, typename R, typename... A> struct strip<R (C::*)(A...)> { typedef R (*type)(A...); };

template <typename R, typename... A> void bind(function_record &r, R (*f)(A...)) { fill(r, f, static_cast<R (*)(A...)>(nullptr)); }
template <typename R, typename C, typename... A> void bind(function_record &r, R (C::*f)(A...)) {
    auto l = [f](C &c, A... a) -> R { return (c.*f)(a...); };
    fill(r, l, static_cast<R (*)(C &, A...)>(nullptr));
}
template <typename R, typename C, typename... A> void bind(function_record &r, R (C::*f)(A...) const) {
    auto l = [f](const C &c, A... a) -> R { return (c.*f)(a...); };
    fill(r, l, static_cast<R (*)(const C &, A...)>(nullptr));
}
template <typename L, typename = decltype(&L::operator())> void bind(function_record &r, L l) {
    fill(r, l, static_cast<typename strip<decltype(&L::operator())>::type>(nullptr));
}

inline PyObject *make_function(function_record *r, PyObject *modname) {
    r->def.ml_name = r->name.c_str();
    r->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(trampoline));
    r->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    r->def.ml_doc = r->doc.c_str();
    PyObject *cap = PyCapsule_New(r, nullptr, nullptr);
    PyObject *f = PyCFunction_NewEx(&r->def, cap, modname);
    Py_DECREF(cap);
    if (!f) throw error_already_set();
    return f;
}

class module_ : public object {
public:
    explicit module_(PyObject *m) : object(m, false) {}
    template <typename F, typename... E> module_ &def(const char *name, F &&f, E &&...e) {
        auto *r = new function_record();
        r->name = name;
        process_all(*r, std::forward<E>(e)...);
        bind(*r, typename std::decay<F>::type(std::forward<F>(f)));
        PyObject *fn = make_function(r, nullptr);
        if (PyModule_AddObject(ptr(), name, fn) < 0) throw error_already_set();
        return *this;
    }
    object attr_get(const char *n) const { return steal(PyObject_GetAttrString(ptr(), n)); }
    struct attr_proxy {
        PyObject *o; std::string n;
        template <typename T> void operator=(const T &v) { object x = pybind11::cast(v); PyObject_SetAttrString(o, n.c_str(), x.ptr()); }
        void operator=(const char *v) { object x(PyUnicode_FromString(v), true); PyObject_SetAttrString(o, n.c_str(), x.ptr()); }
    };
    attr_proxy attr(const char *n) const { return attr_proxy{ptr(), n}; }
    const char *&doc() { static const char *d = ""; return d; }
};
typedef module_ module;

template <typename... A> struct init_t {};
template <typename... A> init_t<A...> init() { return init_t<A...>(); }

template <typename T, typename... Opt> class class_ : public object {
    static std::vector<function_record *> &inits() { static std::vector<function_record *> v; return v; }
    static int tp_init(PyObject *self, PyObject *args, PyObject *kwargs) {
        for (auto *r : inits()) {
            PyErr_Clear();
            PyObject *cap = invoke(r, args, kwargs);
            if (!cap) continue;
            auto *inst = reinterpret_cast<instance *>(self);
            if (inst->value && inst->dtor) inst->dtor(inst->value);
            inst->value = PyCapsule_GetPointer(cap, nullptr);
            inst->dtor = [](void *p) { delete static_cast<T *>(p); };
            Py_DECREF(cap);
            return 0;
        }
        if (!PyErr_Occurred()) PyErr_SetString(PyExc_TypeError, "No constructor defined!");
        return -1;
    }
    static void tp_dealloc(PyObject *self) {
        auto *inst = reinterpret_cast<instance *>(self);
        if (inst->value && inst->dtor) inst->dtor(inst->value);
        PyTypeObject *t = Py_TYPE(self);
        t->tp_free(self);
        Py_DECREF(t);
    }
public:
    template <typename... E> class_(const object &scope, const char *name, E &&...) {
        PyObject *mn = PyObject_GetAttrString(scope.ptr(), "__name__");
        auto *full = new std::string(std::string(mn ? PyUnicode_AsUTF8(mn) : "m") + "." + name);
        Py_XDECREF(mn);
        PyType_Slot slots[] = {
            {Py_tp_init, reinterpret_cast<void *>(&class_::tp_init)},
            {Py_tp_dealloc, reinterpret_cast<void *>(&class_::tp_dealloc)},
            {Py_tp_new, reinterpret_cast<void *>(PyType_GenericNew)},
            {0, nullptr}};
        PyType_Spec spec = {full->c_str(), sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        m_ptr = PyType_FromSpec(&spec);
        if (!m_ptr) throw error_already_set();
        registry()[typeid(T)] = type_record{reinterpret_cast<PyTypeObject *>(m_ptr)};
        if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) < 0) throw error_already_set();
    }
    template <typename... A, typename... E> class_ &def(init_t<A...>, E &&...e) {
        auto *r = new function_record();
        r->name = "__init__";
        process_all(*r, std::forward<E>(e)...);
        auto l = [](A... a) -> object { return object(PyCapsule_New(new T{a...}, nullptr, nullptr), true); };
        fill(*r, l, static_cast<object (*)(A...)>(nullptr));
        inits().push_back(r);
        return *this;
    }
    template <typename F, typename... E> class_ &def(const char *name, F &&f, E &&...e) {
        auto *r = new function_record();
        r->name = name; r->method = true;
        process_all(*r, std::forward<E>(e)...);
        bind(*r, typename std::decay<F>::type(std::forward<F>(f)));
        object fn(make_function(r, nullptr), true);
        object im(PyInstanceMethod_New(fn.ptr()), true);
        PyObject_SetAttrString(ptr(), name, im.ptr());
        return *this;
    }
    void add_property(const char *name, PyObject *get, PyObject *set) {
        object g(get, true), s(set, true);
        object p(set ? PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get, set, nullptr)
                     : PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get, nullptr), true);
        PyObject_SetAttrString(ptr(), name, p.ptr());
    }
    template <typename D, typename... E> class_ &def_readonly(const char *name, D T::*pm, const E &...) {
        auto *r = new function_record(); r->name = name;
        auto l = [pm](const T &c) -> D { return c.*pm; };
        fill(*r, l, static_cast<D (*)(const T &)>(nullptr));
        add_property(name, make_function(r, nullptr), nullptr);
        return *this;
    }
    template <typename D, typename... E> class_ &def_readwrite(const char *name, D T::*pm, const E &...) {
        auto *r = new function_record(); r->name = name;
        auto l = [pm](const T &c) -> D { return c.*pm; };
        fill(*r, l, static_cast<D (*)(const T &)>(nullptr));
        auto *w = new function_record(); w->name = name;
        auto l2 = [pm](T &c, D d) { c.*pm = d; };
        fill(*w, l2, static_cast<void (*)(T &, D)>(nullptr));
        add_property(name, make_function(r, nullptr), make_function(w, nullptr));
        return *this;
    }
};

template <typename E> class enum_ : public object {
    object scope;
    std::vector<std::pair<std::string, E>> entries;
    static PyObject *e_int(PyObject *o) { return PyLong_FromLong(reinterpret_cast<enum_instance *>(o)->value); }
    static Py_hash_t e_hash(PyObject *o) { long v = reinterpret_cast<enum_instance *>(o)->value; return v == -1 ? -2 : v; }
    static PyObject *e_cmp(PyObject *a, PyObject *b, int op) {
        if (op != Py_EQ && op != Py_NE) Py_RETURN_NOTIMPLEMENTED;
        bool eq = Py_TYPE(a) == Py_TYPE(b) &&
            reinterpret_cast<enum_instance *>(a)->value == reinterpret_cast<enum_instance *>(b)->value;
        return PyBool_FromLong((op == Py_EQ) == eq);
    }
    static PyObject *e_repr(PyObject *o) {
        PyObject *d = PyObject_GetAttrString(reinterpret_cast<PyObject *>(Py_TYPE(o)), "__entries");
        PyObject *k = e_int(o);
        PyObject *n = d ? PyDict_GetItem(d, k) : nullptr;
        PyObject *r = PyUnicode_FromFormat("%s.%S", strrchr(Py_TYPE(o)->tp_name, '.') ? strrchr(Py_TYPE(o)->tp_name, '.') + 1 : Py_TYPE(o)->tp_name, n ? n : k);
        Py_XDECREF(d); Py_DECREF(k);
        return r;
    }
    static PyObject *e_name(PyObject *o, void *) {
        PyObject *d = PyObject_GetAttrString(reinterpret_cast<PyObject *>(Py_TYPE(o)), "__entries");
        PyObject *k = e_int(o);
        PyObject *n = d ? PyDict_GetItem(d, k) : nullptr;
        Py_XINCREF(n); Py_XDECREF(d); Py_DECREF(k);
        if (!n) Py_RETURN_NONE;
        return n;
    }
    static PyObject *e_value(PyObject *o, void *) { return e_int(o); }
    static PyObject *e_new(PyTypeObject *t, PyObject *args, PyObject *) {
        long v; if (!PyArg_ParseTuple(args, "l", &v)) return nullptr;
        PyObject *o = t->tp_alloc(t, 0);
        if (o) reinterpret_cast<enum_instance *>(o)->value = v;
        return o;
    }
public:
    template <typename... X> enum_(const object &s, const char *name, X &&...) : scope(s) {
        PyObject *mn = PyObject_GetAttrString(scope.ptr(), "__name__");
        auto *full = new std::string(std::string(mn ? PyUnicode_AsUTF8(mn) : "m") + "." + name);
        Py_XDECREF(mn);
        static PyGetSetDef gs[] = {{"name", &enum_::e_name, nullptr, nullptr, nullptr}, {"value", &enum_::e_value, nullptr, nullptr, nullptr}, {nullptr, nullptr, nullptr, nullptr, nullptr}};
        PyType_Slot slots[] = {
            {Py_tp_new, reinterpret_cast<void *>(&enum_::e_new)},
            {Py_nb_int, reinterpret_cast<void *>(&enum_::e_int)},
            {Py_nb_index, reinterpret_cast<void *>(&enum_::e_int)},
            {Py_tp_hash, reinterpret_cast<void *>(&enum_::e_hash)},
            {Py_tp_richcompare, reinterpret_cast<void *>(&enum_::e_cmp)},
            {Py_tp_repr, reinterpret_cast<void *>(&enum_::e_repr)},
            {Py_tp_getset, reinterpret_cast<void *>(gs)},
            {0, nullptr}};
        PyType_Spec spec = {full->c_str(), sizeof(enum_instance), 0, Py_TPFLAGS_DEFAULT, slots};
        m_ptr = PyType_FromSpec(&spec);
        if (!m_ptr) throw error_already_set();
        registry()[typeid(E)] = type_record{reinterpret_cast<PyTypeObject *>(m_ptr)};
        object d(PyDict_New(), true);
        PyObject_SetAttrString(m_ptr, "__entries", d.ptr());
        if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) < 0) throw error_already_set();
    }
    enum_ &value(const char *name, E v, const char * = nullptr) {
        object o = steal(caster<E>::cast(v));
        PyObject_SetAttrString(m_ptr, name, o.ptr());
        object d = steal(PyObject_GetAttrString(m_ptr, "__entries"));
        object k(PyLong_FromLong(static_cast<long>(v)), true), n(PyUnicode_FromString(name), true);
        PyDict_SetItem(d.ptr(), k.ptr(), n.ptr());
        entries.emplace_back(name, v);
        return *this;
    }
    enum_ &export_values() {
        for (auto &e : entries) {
            object o = steal(caster<E>::cast(e.second));
            PyObject_SetAttrString(scope.ptr(), e.first.c_str(), o.ptr());
        }
        return *this;
    }
};

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                              \
    static void pybind11_init_##name(pybind11::module_ &);                           \
    extern "C" PYBIND11_EXPORT PyObject *PyInit_##name() {                           \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,         \
                                  nullptr, nullptr, nullptr, nullptr, nullptr};      \
        PyObject *m_ = PyModule_Create(&def);                                        \
        if (!m_) return nullptr;                                                     \
        try { pybind11::module_ mod(m_); pybind11_init_##name(mod); }                \
        catch (...) { Py_DECREF(m_); return pybind11::translate_exception(); }       \
        return m_;                                                                   \
    }                                                                                \
    static void pybind11_init_##name(pybind11::module_ &variable)
