// Stand-in for cpp2py (TRIQS/cpp2py, not available here): references to Python objects and converters of basic types.
// Written from its documented interface: py_converter<T>::{c2py, is_convertible, py2c}, pyref, convert_to_python, convert_from_python.
#pragma once
#include <Python.h>
#include <array>
#include <complex>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace cpp2py {
  class pyref {
    PyObject *ob = nullptr;
    public:
    pyref() = default;
    pyref(PyObject *o) : ob(o) {} // takes the reference over
    pyref(pyref const &p) : ob(p.ob) { Py_XINCREF(ob); }
    pyref(pyref &&p) noexcept : ob(std::exchange(p.ob, nullptr)) {}
    pyref &operator=(pyref p) { std::swap(ob, p.ob); return *this; }
    ~pyref() { Py_XDECREF(ob); }
    operator PyObject *() const { return ob; }
    PyObject *new_ref() const { Py_XINCREF(ob); return ob; }
    explicit operator bool() const { return ob; }
    bool is_null() const { return ob == nullptr; }
    bool is_None() const { return ob == Py_None; }
    pyref attr(char const *s) const { return ob ? PyObject_GetAttrString(ob, s) : nullptr; }
    template <typename... A> pyref operator()(A const &...a) const { return PyObject_CallFunctionObjArgs(ob, (PyObject *)(a)..., nullptr); }
    static pyref module(std::string const &m) { return PyImport_ImportModule(m.c_str()); }
    static pyref string(std::string const &s) { return PyUnicode_FromString(s.c_str()); }
    template <typename... P> static pyref make_tuple(P const &...p) { return PyTuple_Pack(sizeof...(P), static_cast<PyObject *>(p)...); }
    static pyref get_class(char const *m, char const *c, bool raise) { pyref mod = module(m); pyref r = mod.attr(c); if (r.is_null()) { if (!raise) PyErr_Clear(); } return r; }
    static bool check_is_instance(PyObject *o, PyObject *cls, bool raise) { int i = PyObject_IsInstance(o, cls); if (i == -1) { if (!raise) PyErr_Clear(); return false; } if (i) return true; if (raise) PyErr_SetString(PyExc_TypeError, (std::string("the object is not an instance of the class: it is a ") + Py_TYPE(o)->tp_name).c_str()); return false; }
  };
  inline pyref borrowed(PyObject *o) { Py_XINCREF(o); return o; }

  template <typename T> struct is_view : std::false_type {};
  template <typename T> struct py_converter;
  template <typename T> PyObject *convert_to_python(T &&x) { return py_converter<std::decay_t<T>>::c2py(std::forward<T>(x)); }
  template <typename T> decltype(auto) convert_from_python(PyObject *o) { return py_converter<std::decay_t<T>>::py2c(o); }
  namespace details { inline bool refuse(bool raise, char const *what) { if (PyErr_Occurred()) PyErr_Clear(); if (raise) PyErr_SetString(PyExc_TypeError, what); return false; } }

  template <> struct py_converter<bool> { static PyObject *c2py(bool b) { return PyBool_FromLong(b); } static bool is_convertible(PyObject *o, bool r) { return PyBool_Check(o) ? true : details::refuse(r, "not a bool"); } static bool py2c(PyObject *o) { return o == Py_True; } };
  template <typename I> struct int_converter { static PyObject *c2py(I i) { if constexpr (std::is_signed_v<I>) return PyLong_FromLongLong(i); else return PyLong_FromUnsignedLongLong(i); } static bool is_convertible(PyObject *o, bool r) { return PyIndex_Check(o) ? true : details::refuse(r, "not an integer"); } static I py2c(PyObject *o) { if constexpr (std::is_signed_v<I>) { pyref i = PyNumber_Index(o); return I(PyLong_AsLongLong(i)); } else { pyref i = PyNumber_Index(o); return I(PyLong_AsUnsignedLongLong(i)); } } };
  template <> struct py_converter<int> : int_converter<int> {};
  template <> struct py_converter<long> : int_converter<long> {};
  template <> struct py_converter<unsigned> : int_converter<unsigned> {};
  template <> struct py_converter<unsigned long> : int_converter<unsigned long> {};
  template <> struct py_converter<double> { static PyObject *c2py(double x) { return PyFloat_FromDouble(x); } static bool is_convertible(PyObject *o, bool r) { return PyFloat_Check(o) || PyLong_Check(o) ? true : details::refuse(r, "not a float"); } static double py2c(PyObject *o) { return PyFloat_AsDouble(o); } };
  template <> struct py_converter<std::complex<double>> { static PyObject *c2py(std::complex<double> x) { return PyComplex_FromDoubles(x.real(), x.imag()); } static bool is_convertible(PyObject *o, bool r) { return PyComplex_Check(o) || PyFloat_Check(o) || PyLong_Check(o) ? true : details::refuse(r, "not a complex number"); } static std::complex<double> py2c(PyObject *o) { auto c = PyComplex_AsCComplex(o); return {c.real, c.imag}; } };
  template <> struct py_converter<std::string> { static PyObject *c2py(std::string const &s) { return PyUnicode_FromStringAndSize(s.data(), long(s.size())); } static bool is_convertible(PyObject *o, bool r) { return PyUnicode_Check(o) ? true : details::refuse(r, "not a string"); } static std::string py2c(PyObject *o) { return PyUnicode_AsUTF8(o); } };
  template <typename T> struct py_converter<std::vector<T>> {
    static PyObject *c2py(std::vector<T> const &v) { pyref l = PyList_New(0); for (auto const &x : v) { pyref y = py_converter<T>::c2py(x); if (y.is_null()) return nullptr; if (PyList_Append(l, y)) return nullptr; } return l.new_ref(); }
    static bool is_convertible(PyObject *o, bool r) { if (!PySequence_Check(o) || PyUnicode_Check(o)) return details::refuse(r, "not a sequence"); pyref s = PySequence_Fast(o, "not a sequence"); if (s.is_null()) return details::refuse(r, "not a sequence"); for (long i = 0; i < PySequence_Fast_GET_SIZE((PyObject *)s); ++i) if (!py_converter<T>::is_convertible(PySequence_Fast_GET_ITEM((PyObject *)s, i), r)) return false; return true; }
    static std::vector<T> py2c(PyObject *o) { pyref s = PySequence_Fast(o, "not a sequence"); std::vector<T> v; for (long i = 0; i < PySequence_Fast_GET_SIZE((PyObject *)s); ++i) v.push_back(py_converter<T>::py2c(PySequence_Fast_GET_ITEM((PyObject *)s, i))); return v; } };
  template <typename T, size_t N> struct py_converter<std::array<T, N>> {
    static PyObject *c2py(std::array<T, N> const &v) { return py_converter<std::vector<T>>::c2py({v.begin(), v.end()}); }
    static bool is_convertible(PyObject *o, bool r) { return py_converter<std::vector<T>>::is_convertible(o, r) && (PySequence_Size(o) == long(N) || details::refuse(r, "wrong number of elements")); }
    static std::array<T, N> py2c(PyObject *o) { auto v = py_converter<std::vector<T>>::py2c(o); std::array<T, N> a; for (size_t i = 0; i < N; ++i) a[i] = v.at(i); return a; } };
  template <typename... T> struct py_converter<std::tuple<T...>> { using t = std::tuple<T...>;
    template <size_t... I> static PyObject *c2(t const &x, std::index_sequence<I...>) { std::array<pyref, sizeof...(T)> a{pyref(py_converter<T>::c2py(std::get<I>(x)))...}; for (auto &y : a) if (y.is_null()) return nullptr; return PyTuple_Pack(sizeof...(T), static_cast<PyObject *>(a[I])...); }
    template <size_t... I> static bool ok(PyObject *s, bool r, std::index_sequence<I...>) { return (py_converter<T>::is_convertible(PySequence_Fast_GET_ITEM(s, I), r) && ...); }
    template <size_t... I> static t from(PyObject *s, std::index_sequence<I...>) { return t{py_converter<T>::py2c(PySequence_Fast_GET_ITEM(s, I))...}; }
    static PyObject *c2py(t const &x) { return c2(x, std::index_sequence_for<T...>{}); }
    static bool is_convertible(PyObject *o, bool r) { if (!PySequence_Check(o)) return details::refuse(r, "not a sequence"); pyref s = PySequence_Fast(o, "not a sequence"); if (s.is_null() || PySequence_Fast_GET_SIZE((PyObject *)s) != sizeof...(T)) return details::refuse(r, "wrong number of elements"); return ok(s, r, std::index_sequence_for<T...>{}); }
    static t py2c(PyObject *o) { pyref s = PySequence_Fast(o, "not a sequence"); return from(s, std::index_sequence_for<T...>{}); } };
  template <typename... T> struct py_converter<std::variant<T...>> { using v = std::variant<T...>;
    static PyObject *c2py(v const &x) { return std::visit([](auto const &y) { return py_converter<std::decay_t<decltype(y)>>::c2py(y); }, x); }
    static bool is_convertible(PyObject *o, bool r) { return (py_converter<T>::is_convertible(o, false) || ...) || details::refuse(r, "none of the types of the variant"); }
    static v py2c(PyObject *o) { v x; (void)((py_converter<T>::is_convertible(o, false) && (x = v(py_converter<T>::py2c(o)), true)) || ...); return x; } };
  template <typename T, typename U> struct py_converter_generic_cast_construct {
    static PyObject *c2py(T const &x) { return py_converter<U>::c2py(U(x)); }
    static bool is_convertible(PyObject *o, bool r) { return py_converter<U>::is_convertible(o, r); }
    static T py2c(PyObject *o) { return T(py_converter<U>::py2c(o)); } };
} // namespace cpp2py
