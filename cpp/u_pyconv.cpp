// Converters between C++ and Python objects
#include "pyemb.hpp"
#include "gfx.hpp"
#include "fock.hpp"
#include <nda_py/cpp2py_converters.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/lattice/bravais_lattice.hpp>
#include <triqs/utility/real_or_complex.hpp>
#ifndef VP_PART
#define VP_PART 0
#endif
using namespace triqs::gfs; using namespace triqs::mesh;
namespace cpp2py {
  template <> struct py_converter<triqs::lattice::bravais_lattice> : pye::wrapped<triqs::lattice::bravais_lattice> {};
  template <> struct py_converter<triqs::operators::many_body_operator> : pye::wrapped<triqs::operators::many_body_operator> {};
  // meshes: by their parameters
  template <typename M, int NP> struct mesh_conv {
    static bool is_convertible(PyObject *o, bool r) { return pyref::check_is_instance(o, pyref::get_class("triqs.gf", py_converter<M>::name, true), r); }
    static pyref make(std::vector<pyref> a) { pyref t = PyTuple_New(a.size()); for (size_t i = 0; i < a.size(); ++i) PyTuple_SetItem(t, i, a[i].new_ref()); return PyObject_Call(pyref::get_class("triqs.gf", py_converter<M>::name, true), t, nullptr); }
    static double d(PyObject *o, char const *n) { return PyFloat_AsDouble(borrowed(o).attr(n)); }
    static long l(PyObject *o, char const *n) { return PyLong_AsLong(borrowed(o).attr(n)); }
    static statistic_enum st(PyObject *o) { return std::string(PyUnicode_AsUTF8(borrowed(o).attr("statistic"))) == "Fermion" ? Fermion : Boson; }
    static pyref f(double x) { return PyFloat_FromDouble(x); }
    static pyref i(long x) { return PyLong_FromLong(x); }
    static pyref s(statistic_enum x) { return PyUnicode_FromString(x == Fermion ? "Fermion" : "Boson"); }
  };
  template <> struct py_converter<imfreq> : mesh_conv<imfreq, 3> { static constexpr char const *name = "MeshImFreq"; static PyObject *c2py(imfreq const &m) { return make({f(m.beta()), s(m.statistic()), i(m.last_index() + 1)}).new_ref(); } static imfreq py2c(PyObject *o) { return {d(o, "beta"), st(o), l(o, "n_iw")}; } };
  template <> struct py_converter<imtime> : mesh_conv<imtime, 3> { static constexpr char const *name = "MeshImTime"; static PyObject *c2py(imtime const &m) { return make({f(m.beta()), s(m.statistic()), i(m.size())}).new_ref(); } static imtime py2c(PyObject *o) { return {d(o, "beta"), st(o), l(o, "_n")}; } };
  template <> struct py_converter<legendre> : mesh_conv<legendre, 3> { static constexpr char const *name = "MeshLegendre"; static PyObject *c2py(legendre const &m) { return make({f(m.beta()), s(m.statistic()), i(m.size())}).new_ref(); } static legendre py2c(PyObject *o) { return {d(o, "beta"), st(o), l(o, "_n")}; } };
  template <> struct py_converter<refreq> : mesh_conv<refreq, 3> { static constexpr char const *name = "MeshReFreq"; static PyObject *c2py(refreq const &m) { return make({f(m.w_min()), f(m.w_max()), i(m.size())}).new_ref(); } static refreq py2c(PyObject *o) { return {d(o, "lo"), d(o, "hi"), l(o, "_n")}; } };
  template <> struct py_converter<retime> : mesh_conv<retime, 3> { static constexpr char const *name = "MeshReTime"; static PyObject *c2py(retime const &m) { return make({f(m.t_min()), f(m.t_max()), i(m.size())}).new_ref(); } static retime py2c(PyObject *o) { return {d(o, "lo"), d(o, "hi"), l(o, "_n")}; } };
}
#include <triqs/cpp2py_converters/gf.hpp>
#include <triqs/cpp2py_converters/fundamental_operator_set.hpp>
#include <triqs/cpp2py_converters/operators_real_complex.hpp>
#include <triqs/cpp2py_converters/real_or_complex.hpp>
namespace c = cpp2py; using c::py_converter; using c::pyref; using pye::ev; using pye::yes; using pye::run;
// the test of convertibility: answers as expected, and leaves an error exactly if asked to and the answer is no
template <typename T> static void refusal(PyObject *o, bool expect, char const *what) {
  for (bool raise : {false, true}) {
    bool ok;
    try { ok = py_converter<T>::is_convertible(o, raise); } catch (std::exception const &e) { VP_FAIL(what, ": the test of convertibility throws ", e.what()); }
    bool err = PyErr_Occurred(); std::string t = err ? pye::error() : "";
    VP_REQUIRE(ok == expect, what, ": convertible ", ok, " ", t);
    VP_REQUIRE(err == (raise and !expect), what, ": error set: ", err, " ", t);
    if (err) VP_REQUIRE(t.starts_with("TypeError") or t.starts_with("ValueError") or t.starts_with("AttributeError"), what, ": error ", t);
  }
}
template <typename M> std::string cls() { if constexpr (requires { py_converter<M>::name; }) return py_converter<M>::name; else return "MeshProduct"; }
template <typename M> bool mesh_as(PyObject *o, M const &m) { if (!py_converter<M>::is_convertible(o, false)) return false; return py_converter<M>::py2c(o) == m; }
template <typename M> struct meshgen { static M get(vp::Src &s) { return gfx::mesh_of<M>(s); } };
template <> struct meshgen<imfreq> { static imfreq get(vp::Src &s) { return {s.pick({1., 10., s.generic(0.5, 20)}), s.boolean() ? Fermion : Boson, s.integer(1, 4)}; } };
template <typename... M> struct meshgen<prod<M...>> { static prod<M...> get(vp::Src &s) { return prod<M...>(std::tuple<M...>{meshgen<M>::get(s)...}); } };
template <typename... G> struct list {};
using P2 = prod<imfreq, imfreq>; using P3 = prod<imtime, legendre>; using P4 = prod<refreq, retime, imfreq>;
using kinds = list<gf<imfreq, scalar_valued>, gf<imfreq, matrix_valued>, gf<imtime, scalar_real_valued>, gf<imtime, matrix_valued>, gf<imtime, matrix_real_valued>, gf<refreq, tensor_valued<3>>, gf<retime, scalar_valued>, gf<legendre, matrix_valued>, gf<P2, scalar_valued>, gf<P3, matrix_valued>, gf<P4, scalar_valued>>;
template <typename F, typename... G> void nth(list<G...>, int k, F &&f) { int i = 0; ((i++ == k ? f((G *)nullptr) : void()), ...); }
template <typename F, typename... G> void each(list<G...>, F &&f) { (f((G *)nullptr), ...); }
template <typename... G> constexpr int count(list<G...>) { return sizeof...(G); }
template <typename A, typename B> struct same_kind : std::false_type {};
template <typename M, typename T1, typename T2> struct same_kind<gf<M, T1>, gf<M, T2>> : std::bool_constant<std::is_same_v<typename T1::scalar_t, typename T2::scalar_t> and gf<M, T1>::data_rank == gf<M, T2>::data_rank> {};
template <typename M, typename T> gf<M, T> random_gf(vp::Src &s, std::array<long, T::rank> sh) { return gfx::function<M, T>(s, meshgen<M>::get(s), sh); }
template <typename M, typename T> gf<M, T> random_gf(vp::Src &s) { return random_gf<M, T>(s, gfx::shape<T>(s, 3, false)); }
template <typename A> void bump(A &&a, double x) { for (auto &y : a) y += x; }
template <typename A, typename B> bool equal(A const &a, B const &b) { return gfx::dist(gfx::flat(a), gfx::flat(b)) == 0; }
static void clean(char const *what) { if (PyErr_Occurred()) VP_FAIL(what, ": leaves the error ", pye::error()); }
struct Counts { std::vector<PyObject *> o; std::vector<long> n; Counts(std::vector<PyObject *> v) : o(v) { for (auto *x : o) n.push_back(Py_REFCNT(x)); } void check(char const *w) { for (size_t i = 0; i < o.size(); ++i) VP_REQUIRE(Py_REFCNT(o[i]) == n[i], w, ": references to object ", i, ": ", Py_REFCNT(o[i]), " instead of ", n[i]); } };

#if VP_PART == 0 || VP_PART == 1
VP_TEST(functions_across) { pye::init(); int k = s.integer(0, count(kinds{}) - 1); s.say("kind ", k);
  nth(kinds{}, k, [&]<typename M, typename T>(gf<M, T> *) {
    auto g = random_gf<M, T>(s); s.nontrivial(g.data().size() > 2); auto d0 = gfx::flat(g.data());
    bool byview = s.boolean(); pyref o = byview ? py_converter<gf_view<M, T>>::c2py(g()) : py_converter<gf<M, T>>::c2py(g);
    if (o.is_null()) VP_FAIL("not converted to Python: ", pye::error());
    clean("to Python");
    VP_REQUIRE(yes("type(g) is Gf and type(g.mesh).__name__ == n", {{"g", o}, {"n", pyref::string(cls<M>())}}), "class of the Python object");
    pyref m = o.attr("_mesh"), d = o.attr("_data");
    VP_REQUIRE(mesh_as(m, g.mesh()), "mesh in Python");
    auto pd = py_converter<typename gf_view<M, T>::data_t>::py2c(d);
    VP_REQUIRE(pd.shape() == g.data().shape() and equal(pd, g.data()), "data in Python");
    VP_REQUIRE(yes("g.data.dtype == (np.float64 if r else np.complex128) and g.target_shape == g.data.shape[rk:]", {{"g", o}, {"r", std::is_same_v<typename T::scalar_t, double> ? Py_True : Py_False}, {"rk", pyref(PyLong_FromLong(n_variables<M>))}}), "type of the data");
    if (byview) { bump(g.data(), 7); VP_REQUIRE(equal(pd, g.data()), "what is written in a function whose view is in Python is not seen there"); d0 = gfx::flat(g.data()); }
    // back
    Counts cn({o, m, d, py_converter<gf<M, T>>::is_convertible(o, false) ? Py_None : Py_None});
    { auto h = py_converter<gf<M, T>>::py2c(o); auto v = py_converter<gf_view<M, T>>::py2c(o); auto cv = py_converter<gf_const_view<M, T>>::py2c(o); clean("from Python");
      VP_REQUIRE(h.mesh() == g.mesh() and v.mesh() == g.mesh() and cv.mesh() == g.mesh(), "mesh comes back");
      VP_REQUIRE(equal(h.data(), g.data()) and equal(v.data(), g.data()) and equal(cv.data(), g.data()), "data come back");
      run("g.data[...] += 1", {{"g", o}});
      VP_REQUIRE(equal(v.data(), pd) and equal(cv.data(), pd), "a view sees what Python writes"); VP_REQUIRE(gfx::flat(h.data()) == d0, "a function is independent of what Python writes");
      bump(v.data(), 2); VP_REQUIRE(yes("np.array_equal(g.data, d)", {{"g", o}, {"d", d}}) and equal(pd, v.data()), "Python sees what is written through a view");
      auto was = gfx::flat(pd); bump(h.data(), 5); VP_REQUIRE(gfx::flat(pd) == was, "Python is independent of what is written in a function"); }
    cn.check("conversion to C++");
    // a strided part of it
    if constexpr (T::rank == 2 and n_variables<M> == 1) { long a = s.integer(0, g.target_shape()[0] - 1), b = s.integer(0, g.target_shape()[1] - 1);
      pyref q = ev("g[a:, b:]", {{"g", o}, {"a", pyref(PyLong_FromLong(a))}, {"b", pyref(PyLong_FromLong(b))}}); auto v = py_converter<gf_view<M, T>>::py2c(q);
      VP_REQUIRE(equal(v.data(), pd(range::all, nda::range(a, pd.shape()[1]), nda::range(b, pd.shape()[2]))), "part of the matrix"); auto was = pd(0, a, b); v.data()(0, 0, 0) += 3; VP_REQUIRE(pd(0, a, b) == was + 3., "part of the matrix written"); }
    // destroyed with the last reference
    pyref w = ev("(weakref.ref(g), weakref.ref(g._data))", {{"g", o}}); d = pyref(), m = pyref(); o = pyref(); VP_REQUIRE(yes("w[0]() is None and w[1]() is None", {{"w", w}}), "the Python object outlives its last reference");
  }); }
VP_TEST(functions_refused) { pye::init(); int k = s.integer(0, count(kinds{}) - 1); s.nontrivial();
  nth(kinds{}, k, [&]<typename M, typename T>(gf<M, T> *p) {
    auto g = random_gf<M, T>(s); pyref o = py_converter<gf<M, T>>::c2py(g); if (o.is_null()) VP_FAIL(pye::error());
    int what = s.integer(0, 5); s.say("kind ", k, " change ", what); bool dt = false, none = false; // none: no C++ function at all
    if (what == 1) { run("g._data = g._data.astype(np.float32)", {{"g", o}}); dt = true; } if (what == 2) { run("g._data = list(g._data)", {{"g", o}}); dt = true; }
    if (what == 3) { o = ev("g.data", {{"g", o}}); none = true; } if (what == 4) { o = ev("BlockGf(name_list=['a'], block_list=[g])", {{"g", o}}); none = true; } if (what == 5) { o = pyref::string("Gf"); none = true; }
    each(kinds{}, [&]<typename G>(G *) { bool ok = !dt and !none and same_kind<gf<M, T>, G>::value; refusal<G>(o, ok, "function"); refusal<typename G::view_type>(o, ok, "view"); refusal<typename G::const_view_type>(o, ok, "const view"); });
  }); }
#endif
#if VP_PART == 0 || VP_PART == 2
static std::vector<std::string> names(vp::Src &s, int n) { std::vector<std::string> r; while (int(r.size()) < n) { auto x = s.pick({std::string("up"), std::string("down"), std::string("a"), std::string("0"), std::string("1"), std::string("e g"), std::string("b_2"), std::string("\xc3\xa9")}); if (std::find(r.begin(), r.end(), x) != r.end()) x += std::to_string(r.size()); r.push_back(x); } return r; }
using bkinds = list<gf<imfreq, matrix_valued>, gf<imtime, matrix_real_valued>, gf<refreq, scalar_valued>, gf<P2, scalar_valued>>;
VP_TEST(blocks_across) { pye::init(); int k = s.integer(0, 3);
  nth(bkinds{}, k, [&]<typename M, typename T>(gf<M, T> *) { using B = block_gf<M, T>; using V = block_gf_view<M, T>;
    int n = s.integer(1, 4); auto nm = names(s, n); std::vector<gf<M, T>> v; for (int i = 0; i < n; ++i) v.push_back(random_gf<M, T>(s)); B g{nm, v}; s.nontrivial(n > 1); s.say(nm);
    bool byview = s.boolean(); pyref o = byview ? py_converter<V>::c2py(V(g)) : py_converter<B>::c2py(V(g)); if (o.is_null()) VP_FAIL("not converted: ", pye::error());
    pyref pn = c::convert_to_python(nm);
    VP_REQUIRE(yes("type(g) is BlockGf and [str(i) for i in g.indices] == n and [b.name for _, b in g] and all(type(b) is Gf for _, b in g)", {{"g", o}, {"n", pn}}), "names and class in Python");
    refusal<B>(o, true, "block function"); refusal<V>(o, true, "view"); refusal<block_gf_const_view<M, T>>(o, true, "const view");
    each(bkinds{}, [&]<typename M2, typename T2>(gf<M2, T2> *) { refusal<block_gf<M2, T2>>(o, (std::is_same_v<gf<M, T>, gf<M2, T2>>), "block function of another kind"); }); refusal<block2_gf_view<M, T>>(o, false, "block function with two names"); refusal<gf_view<M, T>>(o, false, "one function");
    if (byview) { int i = s.integer(0, n - 1); bump(g[i].data(), 7); v[i] = g[i]; auto w = py_converter<V>::py2c(o); for (int j = 0; j < n; ++j) VP_REQUIRE(equal(w[j].data(), g[j].data()), "what is written in block ", i, " of a function whose view is in Python is not seen there: block ", j); }
    pyref gl = o.attr("_BlockGf__GFlist"); Counts cn({o, gl});
    { auto h = py_converter<B>::py2c(o); auto w = py_converter<V>::py2c(o); auto cw = py_converter<block_gf_const_view<M, T>>::py2c(o); clean("from Python");
      VP_REQUIRE(h.block_names() == nm and w.block_names() == nm and cw.block_names() == nm, "names come back"); VP_REQUIRE(h.size() == n and w.size() == n, "number of blocks");
      for (int i = 0; i < n; ++i) VP_REQUIRE(h[i].mesh() == v[i].mesh() and equal(h[i].data(), v[i].data()) and w[i].mesh() == v[i].mesh() and equal(w[i].data(), v[i].data()) and equal(cw[i].data(), v[i].data()), "block ", i);
      int i = s.integer(0, n - 1); run("g[n].data[...] += 1", {{"g", o}, {"n", pyref::string(nm[i])}});
      for (int j = 0; j < n; ++j) { auto r = v[j]; if (j == i) bump(r.data(), 1); VP_REQUIRE(equal(w[j].data(), r.data()), "a view sees what Python writes in block ", i, ": block ", j); VP_REQUIRE(equal(h[j].data(), v[j].data()), "a function is independent"); }
      bump(w[i].data(), 2); VP_REQUIRE(yes("np.array_equal(g[n].data, d)", {{"g", o}, {"n", pyref::string(nm[i])}, {"d", pyref(py_converter<typename gf_view<M, T>::data_t>::c2py(w[i].data()))}}), "Python sees what is written through a view"); }
    cn.check("conversion to C++");
    int what = s.integer(0, 4); s.say("change ", what); // refused
    if (what == 0) run("g._BlockGf__GFlist = g._BlockGf__GFlist[:-1] + ['x']", {{"g", o}}); if (what == 1) run("g._BlockGf__indices = list(g._BlockGf__indices)[:-1] + [3]", {{"g", o}}); if (what == 2) run("g._BlockGf__indices = 5", {{"g", o}}); if (what == 3) o = gl; if (what == 4) o = ev("g._BlockGf__GFlist[0]", {{"g", o}});
    refusal<B>(o, false, "malformed block function"); refusal<V>(o, false, "malformed block function (view)");
  }); }
VP_TEST(blocks2_across) { pye::init(); int k = s.integer(0, 3);
  nth(bkinds{}, k, [&]<typename M, typename T>(gf<M, T> *) { using B = block2_gf<M, T>; using V = block2_gf_view<M, T>;
    int n1 = s.integer(1, 3), n2 = s.integer(1, 3); auto a1 = names(s, n1), a2 = names(s, n2); std::vector<std::vector<gf<M, T>>> v(n1); for (auto &x : v) for (int i = 0; i < n2; ++i) x.push_back(random_gf<M, T>(s)); B g{{a1, a2}, v}; s.nontrivial(n1 != n2); s.say(a1, a2);
    bool byview = s.boolean(); pyref o = byview ? py_converter<V>::c2py(V(g)) : py_converter<B>::c2py(V(g)); if (o.is_null()) VP_FAIL("not converted: ", pye::error());
    VP_REQUIRE(yes("type(g) is Block2Gf and list(g.indices1) == n1 and list(g.indices2) == n2 and all(type(b) is Gf for _, b in g)", {{"g", o}, {"n1", pyref(c::convert_to_python(a1))}, {"n2", pyref(c::convert_to_python(a2))}}), "names and class in Python");
    refusal<B>(o, true, "block function"); refusal<V>(o, true, "view"); refusal<block2_gf_const_view<M, T>>(o, true, "const view");
    each(bkinds{}, [&]<typename M2, typename T2>(gf<M2, T2> *) { refusal<block2_gf<M2, T2>>(o, (std::is_same_v<gf<M, T>, gf<M2, T2>>), "block function of another kind"); }); refusal<block_gf_view<M, T>>(o, false, "block function with one name");
    if (byview) { int i = s.integer(0, n1 - 1), k = s.integer(0, n2 - 1); bump(g(i, k).data(), 7); v[i][k] = g(i, k); auto w = py_converter<V>::py2c(o); for (int j = 0; j < n1; ++j) for (int l = 0; l < n2; ++l) VP_REQUIRE(equal(w(j, l).data(), g(j, l).data()), "what is written in block ", i, ", ", k, " of a function whose view is in Python is not seen there: block ", j, ", ", l); }
    pyref gl = o.attr("_Block2Gf__GFlist"); Counts cn({o, gl});
    { auto h = py_converter<B>::py2c(o); auto w = py_converter<V>::py2c(o); auto cw = py_converter<block2_gf_const_view<M, T>>::py2c(o); clean("from Python");
      for (auto *b : {&h.block_names(), &w.block_names(), &cw.block_names()}) VP_REQUIRE((*b)[0] == a1 and (*b)[1] == a2, "names come back"); VP_REQUIRE(h.size1() == n1 and h.size2() == n2 and w.size1() == n1 and w.size2() == n2, "number of blocks");
      for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) VP_REQUIRE(h(i, j).mesh() == v[i][j].mesh() and equal(h(i, j).data(), v[i][j].data()) and equal(w(i, j).data(), v[i][j].data()) and equal(cw(i, j).data(), v[i][j].data()), "block ", i, ",", j);
      int i = s.integer(0, n1 - 1), j = s.integer(0, n2 - 1); pyref p1 = pyref::string(a1[i]), p2 = pyref::string(a2[j]); run("g[a, b].data[...] += 1", {{"g", o}, {"a", p1}, {"b", p2}});
      for (int x = 0; x < n1; ++x) for (int y = 0; y < n2; ++y) { auto r = v[x][y]; if (x == i and y == j) bump(r.data(), 1); VP_REQUIRE(equal(w(x, y).data(), r.data()), "a view sees what Python writes"); VP_REQUIRE(equal(h(x, y).data(), v[x][y].data()), "a function is independent"); }
      bump(w(i, j).data(), 2); VP_REQUIRE(yes("np.array_equal(g[a, b].data, d)", {{"g", o}, {"a", p1}, {"b", p2}, {"d", pyref(py_converter<typename gf_view<M, T>::data_t>::c2py(w(i, j).data()))}}), "Python sees what is written through a view"); }
    cn.check("conversion to C++");
    int what = s.integer(0, 4); s.say("change ", what); // refused
    if (what == 0) run("g._Block2Gf__GFlist[-1][-1] = 'x'", {{"g", o}}); if (what == 1) run("g._Block2Gf__indices1 = g._Block2Gf__indices1[:-1] + (3,)", {{"g", o}}); if (what == 2) run("g._Block2Gf__indices2 = g._Block2Gf__indices2[:-1] + (3.5,)", {{"g", o}}); if (what == 3) o = gl; if (what == 4) o = ev("Block2Gf([3], ['a'], [[g._Block2Gf__GFlist[0][0]]])", {{"g", o}});
    refusal<B>(o, false, "malformed block function"); refusal<V>(o, false, "malformed block function (view)");
  }); }
#endif
#if VP_PART == 0 || VP_PART == 3
using mkinds = list<imfreq, imtime, legendre, refreq, retime, P2, P3, P4>;
template <typename V> static void value_is(PyObject *v, V const &x) {
  if constexpr (std::is_same_v<V, matsubara_freq>) VP_REQUIRE(yes("type(v) is gf.MatsubaraFreq and v.n == n and v.beta == b and v.statistic == s and complex(v) == c or abs(complex(v) - c) < 1e-12 * abs(c)", {{"v", v}, {"n", pyref(PyLong_FromLong(x.n))}, {"b", pyref(PyFloat_FromDouble(x.beta))}, {"s", pyref::string(x.statistic == Fermion ? "Fermion" : "Boson")}, {"c", pyref(c::convert_to_python(std::complex<double>(x)))}}), "value of the point");
  else if constexpr (std::is_integral_v<V>) VP_REQUIRE(PyLong_AsLong(v) == long(x), "value of the point");
  else VP_REQUIRE(PyFloat_AsDouble(v) == double(x), "value of the point");
}
VP_TEST(meshes_and_points) { pye::init(); int k = s.integer(0, count(mkinds{}) - 1); s.say("kind ", k);
  nth(mkinds{}, k, [&]<typename M>(M *) { auto m = meshgen<M>::get(s); s.nontrivial(m.size() > 1);
    pyref o = py_converter<M>::c2py(m); if (o.is_null()) VP_FAIL("not converted: ", pye::error());
    each(mkinds{}, [&]<typename N>(N *) { refusal<N>(o, (std::is_same_v<M, N>), "mesh"); });
    VP_REQUIRE(py_converter<M>::py2c(o) == m, "mesh comes back"); VP_REQUIRE(PyObject_Size(o) == long(m.size()), "size");
    long i0 = s.integer(0, m.size() - 1), i = 0;
    for (auto p : m) { if (i++ != i0) continue;
      pyref q = c::convert_to_python(p); if (q.is_null()) VP_FAIL("point not converted: ", pye::error()); clean("point");
      VP_REQUIRE(yes("type(p) is MeshPoint and p.mesh_hash == h", {{"p", q}, {"h", pyref(PyLong_FromUnsignedLongLong(p.mesh_hash()))}}), "class and hash");
      VP_REQUIRE(yes("p.index == i and p.data_index == d", {{"p", q}, {"i", pyref(c::convert_to_python(p.index()))}, {"d", pyref(c::convert_to_python(p.data_index()))}}), "index");
      if constexpr (requires { p.value(); }) { pyref v = q.attr("value"); if constexpr (n_variables<M> == 1) value_is(v, p.value()); else VP_REQUIRE(PyTuple_Check((PyObject *)v) and PyTuple_Size(v) == n_variables<M>, "value of a point of a product"); }
      if constexpr (requires { p.weight(); }) VP_REQUIRE(yes("p.weight == w", {{"p", q}, {"w", pyref(c::convert_to_python(p.weight()))}}), "weight"); else VP_REQUIRE(yes("p.weight is None", {{"p", q}}), "no weight"); }
    if constexpr (n_variables<M> > 1) { int what = s.integer(0, 2); if (what == 0) run("m._mlist = m._mlist[:-1]", {{"m", o}}); if (what == 1) run("m._mlist = tuple(m._mlist[:-1]) + (3,)", {{"m", o}}); if (what == 2) run("m._mlist = 7", {{"m", o}}); refusal<M>(o, false, "malformed product of meshes"); }
  }); }
VP_TEST(frequencies_and_statistics) { pye::init(); matsubara_freq w{s.chance(1, 4) ? s.integer(-(1l << 50), 1l << 50) : s.integer(-20, 20), s.pick({1., 10., s.generic(0.01, 100)}), s.boolean() ? Fermion : Boson}; s.nontrivial(w.n != 0); s.say(w.n, " ", w.beta, " ", int(w.statistic));
  pyref o = c::convert_to_python(w); if (o.is_null()) VP_FAIL(pye::error()); value_is(o, w); refusal<matsubara_freq>(o, true, "frequency"); auto z = py_converter<matsubara_freq>::py2c(o); VP_REQUIRE(z.n == w.n and z.beta == w.beta and z.statistic == w.statistic, "frequency comes back");
  int what = s.integer(0, 5); if (what == 0) run("w.n = 'a'", {{"w", o}}); if (what == 1) run("w.beta = None", {{"w", o}}); if (what == 2) run("w.statistic = 'fermion'", {{"w", o}}); if (what == 3) run("del w.n", {{"w", o}}); if (what == 4) o = ev("complex(w)", {{"w", o}}); if (what == 5) run("w.statistic = 1", {{"w", o}}); s.say("change ", what);
  refusal<matsubara_freq>(o, false, "malformed frequency");
  auto t = s.pick({std::string("Fermion"), std::string("Boson"), std::string("boson"), std::string(""), std::string("Fermio"), std::string("Fermions"), std::string("Fermion "), std::string("\xc3\xa9")}); pyref st = pyref::string(t); bool ok = t == "Fermion" or t == "Boson"; refusal<statistic_enum>(st, ok, "statistic"); if (ok) VP_REQUIRE((py_converter<statistic_enum>::py2c(st) == Fermion) == (t == "Fermion"), "statistic");
  for (auto x : {Fermion, Boson}) { pyref y = c::convert_to_python(x); VP_REQUIRE(py_converter<statistic_enum>::py2c(y) == x, "statistic comes back"); }
  refusal<statistic_enum>(ev(s.pick({std::string("1"), std::string("None"), std::string("b'Fermion'"), std::string("'\\ud800'"), std::string("['Fermion']")})), false, "not a statistic");
  pyref al = c::convert_to_python(all_t{}); VP_REQUIRE(yes("a is all", {{"a", al}}), "all"); refusal<all_t>(al, true, "all"); refusal<all_t>(ev(s.pick({std::string("any"), std::string("None"), std::string("1"), std::string("'all'")})), false, "not all"); }
VP_TEST(lattice_points) { pye::init(); auto L = gfx::lat(s); std::array<long, 3> i{s.integer(-5, 5), s.integer(-5, 5), s.integer(-2, 2)}; using P = triqs::lattice::bravais_lattice::point_t; P p{i, &L}; s.say(i); s.nontrivial(i != std::array<long, 3>{});
  pyref o = c::convert_to_python(p); if (o.is_null()) VP_FAIL(pye::error()); VP_REQUIRE(yes("type(p) is lattice.LatticePoint and tuple(p.index) == tuple(i)", {{"p", o}, {"i", pyref(c::convert_to_python(i))}}), "class and index"); pyref l = o.attr("lattice"); VP_REQUIRE(py_converter<triqs::lattice::bravais_lattice>::py2c(l) == L, "lattice");
  if (s.boolean()) run("p.index = np.array(p.index)", {{"p", o}}); refusal<P>(o, true, "lattice point"); Counts cn({o, l}); { auto q = py_converter<P>::py2c(o); VP_REQUIRE(q.index() == i and q.lattice() == L, "lattice point comes back"); for (int d = 0; d < 3; ++d) VP_REQUIRE(q[d] == p[d], "position of the point"); } cn.check("lattice point");
  int what = s.integer(0, 3); s.say("change ", what); if (what == 0) run("p.index = p.index[:2]", {{"p", o}}); if (what == 1) run("p.index = list(p.index) + [0]", {{"p", o}}); if (what == 2) run("p.index = ['a', 0, 0]", {{"p", o}}); if (what == 3) o = ev("tuple(p.index)", {{"p", o}}); refusal<P>(o, false, "malformed lattice point"); }
#endif
#if VP_PART == 0 || VP_PART == 4
VP_TEST(operators_across) { pye::init(); using namespace triqs::operators; bool cplx = s.boolean(); int n = s.integer(0, 4); many_body_operator o; bool real = true; std::vector<std::pair<std::complex<double>, std::vector<int>>> terms;
  for (int k = 0; k < n; ++k) { many_body_operator t{many_body_operator::scalar_t(1.)}; int m = s.integer(1, 3); for (int j = 0; j < m; ++j) { int a = s.integer(0, 3); std::string sp = s.boolean() ? "up" : "dn"; t = t * (s.boolean() ? c_dag<many_body_operator::scalar_t>(sp, a) : triqs::operators::c<many_body_operator::scalar_t>(sp, a)); } bool z = cplx and s.boolean(); std::complex<double> x{s.real(-2, 2), z ? s.pick({0.5, -1., 0.}) : 0.}; t = t * (z ? many_body_operator::scalar_t(x) : many_body_operator::scalar_t(x.real())); o = o + t; }
  for (auto const &[m, x] : o.get_monomials()) real = real and x.is_real(); s.say(o); s.nontrivial(n > 1); pyref p = py_converter<many_body_operator>::c2py(o);
  refusal<many_body_operator_real>(p, real, "real operator"); refusal<many_body_operator_complex>(p, true, "complex operator");
  auto z = py_converter<many_body_operator_complex>::py2c(p); auto at = [](auto const &op, auto const &m) { for (auto const &[k, x] : op.get_monomials()) if (k == m) return std::complex<double>(x); return std::complex<double>(0); }; long cnt = 0; for (auto const &[m, x] : o.get_monomials()) { ++cnt; VP_REQUIRE(at(z, m) == std::complex<double>(x), "coefficient of the complex operator"); } VP_REQUIRE(long(z.get_monomials().size()) == cnt, "number of terms");
  pyref pz = c::convert_to_python(z); auto oz = py_converter<many_body_operator>::py2c(pz); for (auto const &[m, x] : o.get_monomials()) VP_REQUIRE(at(oz, m) == std::complex<double>(x), "complex operator to Python");
  if (real) { auto r = py_converter<many_body_operator_real>::py2c(p); for (auto const &[m, x] : o.get_monomials()) VP_REQUIRE(at(r, m) == std::complex<double>(x), "coefficient of the real operator"); VP_REQUIRE(long(r.get_monomials().size()) == cnt, "number of terms"); pyref pr = c::convert_to_python(r); refusal<many_body_operator_real>(pr, true, "real operator to Python and back"); auto orr = py_converter<many_body_operator>::py2c(pr); for (auto const &[m, x] : o.get_monomials()) VP_REQUIRE(at(orr, m) == std::complex<double>(x), "real operator to Python"); }
  pyref q = ev(s.pick({std::string("1"), std::string("None"), std::string("'c'"), std::string("2j")})); refusal<many_body_operator_real>(q, false, "not an operator"); refusal<many_body_operator_complex>(q, false, "not an operator"); }
VP_TEST(modes_and_numbers) { pye::init(); using triqs::hilbert_space::fundamental_operator_set; fundamental_operator_set f; int n = s.integer(0, 6); std::set<std::vector<std::variant<long, std::string>>> seen; std::vector<fundamental_operator_set::indices_t> want;
  for (int k = 0; k < n; ++k) { fundamental_operator_set::indices_t ix; int m = s.integer(1, 3); for (int j = 0; j < m; ++j) { if (s.boolean()) ix.push_back(s.integer(-3, 12)); else ix.push_back(s.pick({std::string("up"), std::string("1"), std::string(""), std::string("a b"), std::string("\xc3\xa9")})); } if (std::find(want.begin(), want.end(), ix) != want.end()) continue; want.push_back(ix); }
  f = fundamental_operator_set(want); s.nontrivial(want.size() > 1); s.say("modes ", want.size()); pyref o = c::convert_to_python(f); if (o.is_null()) VP_FAIL(pye::error()); refusal<fundamental_operator_set>(o, true, "set of modes"); auto h = py_converter<fundamental_operator_set>::py2c(o); VP_REQUIRE(h.data() == want, "modes come back in order"); VP_REQUIRE(PyList_Size(o) == long(want.size()), "number of modes");
  for (size_t k = 0; k < want.size(); ++k) for (size_t j = 0; j < want[k].size(); ++j) { pyref e = ev("o[k][j]", {{"o", o}, {"k", pyref(PyLong_FromLong(k))}, {"j", pyref(PyLong_FromLong(j))}}); VP_REQUIRE(want[k][j].index() == 0 ? (PyLong_Check((PyObject *)e) and PyLong_AsLong(e) == std::get<0>(want[k][j])) : (PyUnicode_Check((PyObject *)e) and PyUnicode_AsUTF8(e) == std::get<1>(want[k][j])), "index of a mode"); }
  refusal<fundamental_operator_set>(ev(s.pick({std::string("[['a', 1.5]]"), std::string("3"), std::string("[3]"), std::string("[[None]]")})), false, "not modes");
  using R = triqs::utility::real_or_complex; std::complex<double> z = s.cplx(-3, 3); bool re = s.boolean(); R x = re ? R(z.real()) : R(z); pyref y = c::convert_to_python(x); VP_REQUIRE(re ? PyFloat_Check((PyObject *)y) : PyComplex_Check((PyObject *)y), "type of the number"); refusal<R>(y, true, "number"); R b = py_converter<R>::py2c(y); VP_REQUIRE(b.is_real() == re and std::complex<double>(b) == std::complex<double>(x), "number comes back");
  for (auto [e, r, v] : std::vector<std::tuple<char const *, bool, std::complex<double>>>{{"3", true, 3.}, {"True", true, 1.}, {"-2.5", true, -2.5}, {"1+0j", false, 1.}, {"np.float64(2)", true, 2.}, {"np.complex128(2j)", false, {0, 2}}}) { R q = py_converter<R>::py2c(ev(e)); VP_REQUIRE(q.is_real() == r and std::complex<double>(q) == v, "number ", e); }
  refusal<R>(ev(s.pick({std::string("'1'"), std::string("None"), std::string("[1]")})), false, "not a number"); clean("numbers"); }
#endif
