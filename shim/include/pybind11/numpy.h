#pragma once
#include "pybind11.h"

namespace pybind11 {

inline object np_call(const char *fn, std::initializer_list<object> args) {
    object np = steal(PyImport_ImportModule("numpy"));
    object f = steal(PyObject_GetAttrString(np.ptr(), fn));
    object t(PyTuple_New(args.size()), true);
    size_t i = 0;
    for (auto &a : args) { Py_INCREF(a.ptr()); PyTuple_SET_ITEM(t.ptr(), i++, a.ptr()); }
    return steal(PyObject_Call(f.ptr(), t.ptr(), nullptr));
}

struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };

template <typename T, int Flags = 16> class array_t : public object {
    static_assert(std::is_same<T, double>::value, "only double arrays are supported by the stand-in");
    void view() {
        Py_buffer b;
        if (PyObject_GetBuffer(m_ptr, &b, PyBUF_CONTIG) < 0) throw error_already_set();
        data_ = static_cast<T *>(b.buf);
        shape_.assign(b.shape, b.shape + b.ndim);
        n_ = b.len / sizeof(T);
        PyBuffer_Release(&b);
    }
public:
    T *data_ = nullptr; std::vector<Py_ssize_t> shape_; size_t n_ = 0;
    array_t() {}
    explicit array_t(size_t n) : array_t(std::vector<Py_ssize_t>{(Py_ssize_t) n}) {}
    explicit array_t(const std::vector<Py_ssize_t> &shape) {
        object s = pybind11::cast(shape);
        object t(PyList_AsTuple(s.ptr()), true);
        object a = np_call("empty", {t});
        m_ptr = a.release();
        view();
    }
    static bool from(PyObject *o, array_t &out) {
        object d(PyUnicode_FromString("float64"), true);
        try {
            object a = np_call("array", {object(o, false), d});
            object c = np_call("require", {a, d, object(PyUnicode_FromString("C"), true)});
            Py_XDECREF(out.m_ptr);
            out.m_ptr = c.release();
            out.view();
        } catch (const error_already_set &) { PyErr_Clear(); return false; }
        return true;
    }
    Py_ssize_t ndim() const { return shape_.size(); }
    Py_ssize_t size() const { return n_; }
    Py_ssize_t shape(size_t i) const { return shape_[i]; }
    const T *data() const { return data_; }
    T *mutable_data() { return data_; }
    const T &at(size_t i) const { return data_[i]; }
    T &mutable_at(size_t i) { return data_[i]; }
    T operator[](size_t i) const { return data_[i]; }
};
template <typename T, int F> struct caster<array_t<T, F>> {
    static PyObject *cast(const array_t<T, F> &a) { Py_INCREF(a.ptr()); return a.ptr(); }
};
template <typename T, int F> struct holder<array_t<T, F>> : vec_holder_base<array_t<T, F>> {
    bool load(PyObject *o) { return array_t<T, F>::from(o, this->v); }
};

template <typename F> struct vectorized {
    F f;
    object operator()(const array_t<double> &in) {
        if (in.ndim() == 0) return pybind11::cast(static_cast<double>(f(in.data()[0])));
        array_t<double> out(in.shape_);
        for (size_t i = 0; i < in.n_; ++i) out.data_[i] = f(in.data()[i]);
        return out;
    }
};
template <typename F> vectorized<F> vectorize(F f) { return vectorized<F>{f}; }

}  // namespace pybind11
