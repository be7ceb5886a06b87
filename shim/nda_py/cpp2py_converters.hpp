// Stand-in for nda's converters between its arrays and NumPy's
#pragma once
#include <cpp2py/cpp2py.hpp>
#include <nda/nda.hpp>
#include <numpy/arrayobject.h>
namespace cpp2py {
  template <typename T> constexpr int npy_of = std::is_same_v<T, double> ? NPY_DOUBLE : std::is_same_v<T, std::complex<double>> ? NPY_CDOUBLE : std::is_same_v<T, long> ? NPY_LONG : std::is_same_v<T, int> ? NPY_INT : -1;
  // a view shares its memory with the NumPy array
  template <typename T, int R, typename L, char A, typename O> struct py_converter<nda::basic_array_view<T, R, L, A, nda::default_accessor, O>> {
    using c_type = nda::basic_array_view<T, R, L, A, nda::default_accessor, O>; using V = std::remove_const_t<T>;
    static PyObject *c2py(c_type v) { npy_intp d[R], st[R]; for (int i = 0; i < R; ++i) { d[i] = v.shape()[i]; st[i] = v.indexmap().strides()[i] * long(sizeof(V)); } return PyArray_New(&PyArray_Type, R, d, npy_of<V>, st, const_cast<V *>(v.data()), 0, std::is_const_v<T> ? 0 : NPY_ARRAY_WRITEABLE, nullptr); }
    static bool is_convertible(PyObject *o, bool r) { if (!PyArray_Check(o)) return details::refuse(r, "not a numpy array"); auto *a = (PyArrayObject *)o; if (PyArray_NDIM(a) != R) return details::refuse(r, "wrong rank"); if (PyArray_TYPE(a) != npy_of<V>) return details::refuse(r, "wrong type of elements"); return true; }
    static c_type py2c(PyObject *o) { auto *a = (PyArrayObject *)o; std::array<long, R> d, st; for (int i = 0; i < R; ++i) { d[i] = PyArray_DIM(a, i); st[i] = PyArray_STRIDE(a, i) / long(sizeof(V)); } return c_type{nda::idx_map<R>(d, st), (V *)PyArray_DATA(a)}; } };
  // an array is copied
  template <typename T, int R, typename L, char A, typename C> struct py_converter<nda::basic_array<T, R, L, A, C>> {
    using c_type = nda::basic_array<T, R, L, A, C>; using view = nda::basic_array_view<T, R, nda::C_stride_layout, A, nda::default_accessor, nda::borrowed<>>; using conv = py_converter<view>;
    static PyObject *c2py(c_type const &v) { pyref p = conv::c2py(view(const_cast<c_type &>(v))); return PyArray_NewCopy((PyArrayObject *)(PyObject *)p, NPY_CORDER); }
    static bool is_convertible(PyObject *o, bool r) { return conv::is_convertible(o, r); }
    static c_type py2c(PyObject *o) { return c_type{conv::py2c(o)}; } };
} // namespace cpp2py
