// Block Green's functions with one and two indices
#include "gfx.hpp"
#include <triqs/gfs/legacy_for_python_api.hpp>
#include <set>
using namespace gfx;
static std::string bname(vp::Src &s, bool odd = true) { return s.pick({std::string("up"), std::string("down"), std::string("a"), std::string("b"), std::string("0"), std::string("1"), std::string("up-dn"), std::string("e g"), std::string("A"), std::string(odd ? "a_b" : "ab")}); }
static std::vector<std::string> bnames(vp::Src &s, int n, bool odd = true) { std::vector<std::string> r; while (int(r.size()) < n) { auto x = bname(s, odd); if (std::find(r.begin(), r.end(), x) != r.end()) x += std::to_string(r.size()); r.push_back(x); } return r; }
static std::vector<std::string> numbers(int n) { std::vector<std::string> r; for (int i = 0; i < n; ++i) r.push_back(std::to_string(i)); return r; }
template <typename T> using Shapes = std::vector<std::array<long, T::rank>>;
// reference: names and data in order
template <typename S> struct Ref { std::vector<std::string> n1, n2; std::vector<std::vector<S>> v; };
template <int A, typename B> decltype(auto) at(B &&b, int k) { if constexpr (A == 1) return b[k]; else return b(k / b.size2(), k % b.size2()); }
template <int A, typename B, typename S> void same(B const &b, Ref<S> const &r, double tol, std::string const &w) {
  VP_REQUIRE(b.size() == int(r.v.size()), w, ": number of blocks ", b.size(), " want ", r.v.size());
  if constexpr (A == 1) { VP_REQUIRE(b.block_names() == r.n1, w, ": names"); VP_REQUIRE(b.data().size() == r.v.size(), w, ": number of functions"); }
  else { VP_REQUIRE(b.block_names().size() == 2 && b.block_names()[0] == r.n1 && b.block_names()[1] == r.n2, w, ": names"); VP_REQUIRE(b.size1() == int(r.n1.size()) && b.size2() == int(r.n2.size()), w, ": numbers of blocks"); }
  for (int k = 0; k < b.size(); ++k) { double mx = 1; for (auto &x : r.v[k]) mx = std::max(mx, std::abs(x)); SAME(flat(at<A>(b, k).data()), r.v[k], tol * mx, w, ": block ", k); } }
template <typename M, typename T, int A> struct World {
  using S = typename T::scalar_t; using G = gf<M, T>; using B = block_gf<M, T, A>; M m; int n1, n2; Shapes<T> sh;
  World(vp::Src &s) : m(mesh_of<M>(s)), n1(int(s.integer(1, 3))), n2(A == 1 ? 1 : int(s.integer(1, 3))) { if constexpr (std::is_same_v<M, imtime>) m = imtime(m.beta(), Boson, m.size()); for (int k = 0; k < n1 * n2; ++k) sh.push_back(shape<T>(s, 2, true)); }
  std::pair<B, Ref<S>> make(vp::Src &s, bool odd = true) { Ref<S> r; r.n1 = bnames(s, n1, odd); r.n2 = A == 1 ? std::vector<std::string>{} : bnames(s, n2, odd); std::vector<G> v; for (auto &x : sh) { v.push_back(function<M, T>(s, m, x)); r.v.push_back(flat(v.back().data())); }
    if constexpr (A == 1) { switch (s.raw(2)) { case 0: return {B(r.n1, v), r}; case 1: return {make_block_gf(r.n1, v), r}; default: { B b(v); VP_REQUIRE(b.block_names() == numbers(n1), "names of unnamed blocks"); b = B(r.n1, std::move(v)); return {b, r}; } } }
    else { std::vector<std::vector<G>> vv; for (int i = 0; i < n1; ++i) vv.push_back(std::vector<G>(v.begin() + i * n2, v.begin() + (i + 1) * n2)); if (s.boolean()) return {B({r.n1, r.n2}, vv), r}; return {make_block2_gf(r.n1, r.n2, vv), r}; } }
  std::vector<S> mul(int k, std::vector<S> const &a, std::vector<S> const &b) { std::vector<S> r(a.size(), S(0)); if constexpr (T::is_matrix) { long n = sh[k][0], q = n * n; for (size_t o = 0; o < a.size(); o += q) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) for (long l = 0; l < n; ++l) r[o + i * n + j] += a[o + i * n + l] * b[o + l * n + j]; } else for (size_t i = 0; i < a.size(); ++i) r[i] = a[i] * b[i]; return r; }
  std::vector<S> number(int k, S z, size_t n) { std::vector<S> r(n, z); if constexpr (T::is_matrix) { long q = sh[k][0]; for (size_t i = 0; i < n; ++i) { long e = long(i) % (q * q); r[i] = e / q == e % q ? z : S(0); } } return r; } };
template <typename M, typename T, int A> static void history(vp::Src &s, char const *w0) {
  World<M, T, A> W(s); using S = typename T::scalar_t; using B = block_gf<M, T, A>; using V = block_gf_view<M, T, A>; using CV = block_gf_const_view<M, T, A>; int N = W.n1 * W.n2;
  std::array<B, 3> b; std::array<Ref<S>, 3> r; for (int i = 0; i < 3; ++i) std::tie(b[i], r[i]) = W.make(s); int steps = int(s.integer(1, 8)); std::string log = w0;
  for (int q = 0; q < steps; ++q) {
    int a = int(s.raw(2)), i = int(s.raw(2)), j = int(s.raw(2)), op = int(s.raw(23)); S z = num<S>(s); if (std::abs(z) < 0.1) z = 1; double u = s.generic(0.5, 2); log += " " + std::to_string(op) + std::to_string(a) + std::to_string(i) + std::to_string(j); Ref<S> o = r[a], x = r[i], y = r[j]; auto &X = b[i]; auto &Y = b[j]; auto &O = b[a];
    auto set = [&](auto f, Ref<S> const *names) { if (names) { o.n1 = names->n1; o.n2 = names->n2; } for (int k = 0; k < N; ++k) { std::vector<S> v(x.v[k].size()); auto p = r[a].v[k]; for (size_t e = 0; e < v.size(); ++e) v[e] = f(k, e, x.v[k][e], y.v[k][e], p[e]); o.v[k] = v; } };
    switch (op) {
      case 0: O = X; o = x; break;
      case 1: O = X + Y; set([](int, size_t, S p, S t, S) { return p + t; }, &x); break;
      case 2: O = X - Y; set([](int, size_t, S p, S t, S) { return p - t; }, &x); break;
      case 3: O = X * z; set([&](int, size_t, S p, S, S) { return p * z; }, &x); break;
      case 4: O = z * X; set([&](int, size_t, S p, S, S) { return p * z; }, &x); break;
      case 5: O = X / z; set([&](int, size_t, S p, S, S) { return p / z; }, &x); break;
      case 6: O = -X; set([](int, size_t, S p, S, S) { return -p; }, &x); break;
      case 7: O = X + u * (Y - O); set([&](int, size_t, S p, S t, S c) { return p + u * (t - c); }, &x); break;
      case 8: O += X; set([](int, size_t, S p, S, S c) { return c + p; }, nullptr); break;
      case 9: O -= X; set([](int, size_t, S p, S, S c) { return c - p; }, nullptr); break;
      case 10: O *= z; set([&](int, size_t, S, S, S c) { return c * z; }, nullptr); break;
      case 11: O /= u; set([&](int, size_t, S, S, S c) { return c / u; }, nullptr); break;
      case 12: if constexpr (T::rank == 0 || T::is_matrix) { O = X * Y; auto p = o; for (int k = 0; k < N; ++k) p.v[k] = W.mul(k, x.v[k], y.v[k]); p.n1 = x.n1; p.n2 = x.n2; o = p; } break;
      case 13: { V v(O); v = X; o.v = x.v; break; } // a view changes the data, not the names of what it looks at
      case 14: { V v = O(); v = X() + Y; set([](int, size_t, S p, S t, S) { return p + t; }, nullptr); break; }
      case 15: { V v = O(); v = z; for (int k = 0; k < N; ++k) o.v[k] = W.number(k, z, o.v[k].size()); break; }
      case 16: { O() += X; set([](int, size_t, S p, S, S c) { return c + p; }, nullptr); break; }
      case 17: { int k = int(s.raw(N - 1)); auto g = function<M, T>(s, W.m, W.sh[k]); at<A>(O, k) = g; o.v[k] = flat(g.data()); break; }
      case 18: { int k = int(s.raw(N - 1)); V v(O); at<A>(v, k) *= u; for (auto &e : o.v[k]) e *= u; CV c(O); SAME(flat(at<A>(c, k).data()), o.v[k], 1e-12 * (1 + std::abs(o.v[k][0])), log, ": constant view"); break; }
      case 19: for (auto &g : O) g *= u; for (auto &v : o.v) for (auto &e : v) e *= u; break;
      case 20: { int k = 0; auto const &C = O; for (auto const &g : C) { SAME(flat(g.data()), o.v[k], 1e-12 * 1e6, log, ": block met by the loop"); ++k; } VP_REQUIRE(k == N, log, ": length of a loop"); auto it = O.begin(); for (k = 0; it != O.end(); ++k) { auto old = it++; VP_REQUIRE(&*old == &at<A>(O, k), log, ": iterator"); } VP_REQUIRE(k == N, log, ": end of the iteration"); k = 0; for (auto jt = O.cbegin(); jt != O.cend(); ++jt, ++k) SAME(flat((*jt).data()), flat(at<A>(O, k).data()), 0, log, ": constant iterator"); VP_REQUIRE(k == N, log, ": end of the constant iteration"); break; }
      case 21: { V v(X); v.rebind(O); v = Y; o.v = y.v; break; }
      case 22: { B c(X); c = Y; same<A>(X, x, 1e-11, log + ": a copy was assigned"); B d(X() ); O = B(d + Y); set([](int, size_t, S p, S t, S) { return p + t; }, &x); break; }
      default: { auto f = s.boolean() ? std::string("f") : std::string("g"); h5::file h{}; bool clash = false; if constexpr (A == 2) { std::set<std::string> all; for (auto &p : x.n1) for (auto &t : x.n2) clash |= !all.insert(p + "_" + t).second; } if constexpr (std::is_same_v<M, imfreq>) clash |= W.m.positive_only(); if (clash) break; h5::write(h, f, s.boolean() ? X : B(X())); h5::read(h, f, O); o = x; break; } }
    r[a] = o; double mx = 1; for (int k = 0; k < 3; ++k) { same<A>(b[k], r[k], 1e-11, log + " object " + std::to_string(k)); for (auto &v : r[k].v) for (auto &e : v) mx = std::max(mx, std::abs(e)); } for (int k = 0; k < N; ++k) VP_REQUIRE(at<A>(b[a], k).mesh() == W.m && at<A>(b[a], k).target_shape() == W.sh[k], log, ": mesh and shape of block ", k); if (mx > 1e6) break; }
  s.say(log); s.nontrivial(steps > 2 && N > 1); }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(one_index) { switch (s.raw(2)) { case 0: history<imfreq, matrix_valued, 1>(s, "imfreq matrix"); break; case 1: history<imtime, scalar_real_valued, 1>(s, "imtime real"); break; default: history<prod<discrete, refreq>, tensor_valued<3>, 1>(s, "discrete x refreq rank 3"); } }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(two_indices) { if (s.boolean()) history<imfreq, matrix_valued, 2>(s, "imfreq matrix"); else history<legendre, scalar_valued, 2>(s, "legendre scalar"); }
#endif // part
// maps and functions of all blocks, construction, views of separate functions
template <int A> static void maps(vp::Src &s) {
  World<imfreq, matrix_valued, A> W(s); auto [b, r] = W.make(s); int N = W.n1 * W.n2; auto const &cb = b; std::string w = A == 1 ? "one index" : "two indices"; double u = s.generic(0.5, 2);
  { auto c = map_block_gf([&](gf_const_view<imfreq> g) { return gf<imfreq>(g * u); }, cb); static_assert(std::is_same_v<decltype(c), block_gf<imfreq, matrix_valued, A>>); auto p = r; for (auto &v : p.v) for (auto &e : v) e *= u; same<A>(c, p, 1e-13, w + ": mapped function"); same<A>(b, r, 0, w + ": argument of the map"); auto d = map([&](gf_const_view<imfreq> g) { return gf<imfreq>(g * u); }, b()); same<A>(d, p, 1e-13, w + ": mapped view"); }
  { auto n = map_block_gf([](gf_const_view<imfreq> g) { return g.target_shape()[0]; }, b); if constexpr (A == 1) { VP_REQUIRE(int(n.size()) == N, w, ": results of a map"); for (int k = 0; k < N; ++k) VP_REQUIRE(n[k] == W.sh[k][0], w, ": result of a map"); VP_REQUIRE(b.block_sizes() == std::vector<int>(n.begin(), n.end()), w, ": sizes of the blocks"); } else for (int k = 0; k < N; ++k) VP_REQUIRE(n[k / W.n2][k % W.n2] == W.sh[k][0], w, ": result of a map"); }
  { auto v = map_block_gf([](auto &&g) { return slice_target(g, range(0, 1), range(0, 1)); }, b); static_assert(decltype(v)::is_view); VP_REQUIRE(v.size() == N, w, ": blocks of a view"); int k = int(s.raw(N - 1)); at<A>(v, k) = dc(3.); auto g = at<A>(b, k); for (auto p : W.m) VP_REQUIRE(g[p](0, 0) == dc(3.), w, ": a mapped view does not reach the data"); r.v[k] = flat(at<A>(b, k).data()); same<A>(b, r, 0, w + ": after writing to a mapped view"); auto cv = map_block_gf([](gf_const_view<imfreq> g) { return slice_target(g, range(0, 1), range(0, 1)); }, cb); static_assert(decltype(cv)::is_const); for (int q = 0; q < N; ++q) SAME(flat(at<A>(cv, q).data()), flat(at<A>(v, q).data()), 0, w, ": constant mapped view"); }
  { for (int k = 0; k < N; ++k) for (auto p : W.m) for (long i = 0; i < W.sh[k][0]; ++i) at<A>(b, k)[p](i, i) += 4.; auto c = inverse(b); static_assert(!decltype(c)::is_view); auto c2 = inverse(b()); for (int k = 0; k < N; ++k) { auto e = at<A>(c, k) * at<A>(b, k); gf<imfreq> x{e}; for (auto p : W.m) for (long i = 0; i < W.sh[k][0]; ++i) for (long j = 0; j < W.sh[k][1]; ++j) VP_CLOSE(x[p](i, j), dc(i == j), 1e-12, w, ": inverse of block ", k); SAME(flat(at<A>(c2, k).data()), flat(at<A>(c, k).data()), 0, w, ": inverse of a view"); } if constexpr (A == 1) VP_REQUIRE(c.block_names() == r.n1, w, ": names after inverse"); }
  { World<imtime, scalar_valued, A> U(s); auto [f, q] = U.make(s); auto m = reinterpret_scalar_valued_gf_as_matrix_valued(f); int K = U.n1 * U.n2; int k = int(s.raw(K - 1)); for (int e = 0; e < K; ++e) VP_REQUIRE(at<A>(m, e).target_shape() == (std::array<long, 2>{1, 1}), w, ": reinterpreted shape"); at<A>(m, k) = dc(2.); for (auto &x : q.v[k]) x = 2.; same<A>(f, q, 0, w + ": reinterpreted view"); }
  s.nontrivial(N > 1); }
#if !defined(VP_PART) || VP_PART == 3
VP_TEST(maps) { if (s.boolean()) maps<1>(s); else maps<2>(s); }
VP_TEST(construction) {
  auto m = mesh_of<imfreq>(s); int n = int(s.integer(1, 4)); auto names = bnames(s, n); gf_struct_t st; std::vector<int> sz; for (auto &x : names) { sz.push_back(int(s.integer(1, 3))); st.push_back({x, sz.back()}); }
  block_gf<imfreq> a{m, st}, c(m, sz); block_gf<imfreq, scalar_valued> a0{m, st}; VP_REQUIRE(a.size() == n && a.block_names() == names && a.block_sizes() == sz && a0.block_names() == names && a0.size() == n && c.block_sizes() == sz && c.block_names() == numbers(n), "blocks of a structure"); for (int i = 0; i < n; ++i) { VP_REQUIRE(a[i].mesh() == m && a0[i].mesh() == m && c[i].mesh() == m && a[i].target_shape() == (std::array<long, 2>{sz[i], sz[i]}), "mesh of block ", i); for (auto z : a[i].data()) VP_REQUIRE(z == 0., "a new block function is not zero"); }
  auto g = function<imfreq, matrix_valued>(s, m, {2, 2}); auto d = make_block_gf(n, g); auto e = make_block_gf(names, g); block_gf<imfreq> f(n, g), h(names, g), k0(n), k1(names); VP_REQUIRE(d.size() == n && e.block_names() == names && f.block_names() == numbers(n) && h.block_names() == names && k0.size() == n && k1.block_names() == names, "copies of one function"); g.data() += 1.; for (auto *p : {&d, &e, &f, &h}) { for (int i = 1; i < n; ++i) { auto x = flat((*p)[i].data()); SAME(x, flat((*p)[0].data()), 0, "copies"); } auto x = flat((*p)[n - 1].data()); VP_REQUIRE(x[0] + 1. == g.data()(0, 0, 0), "a copy follows the original"); } if (n > 1) { d[0].data() = 7.; VP_REQUIRE(d[1].data()(0, 0, 0) != 7., "blocks share their data"); }
  auto b2 = make_block2_gf(n, 2, g); VP_REQUIRE(b2.size1() == n && b2.size2() == 2 && b2.size() == 2 * n && b2.block_names()[0] == numbers(n) && b2.block_names()[1] == numbers(2), "two indices"); for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) SAME(flat(b2(i, j).data()), flat(g.data()), 0, "copies");
  auto g1 = function<imfreq, matrix_valued>(s, m, {1, 1}), g2 = function<imfreq, matrix_valued>(s, m, {2, 2}); auto v = make_block_gf_view(g1, g2); VP_REQUIRE(v.size() == 2 && v.block_names() == numbers(2), "view of two functions"); v[1] = dc(5.); VP_REQUIRE(g2.data()(0, 0, 0) == 5. && g1.data()(0, 0, 0) != 5., "view of two functions is written"); g1.data()(0, 0, 0) = 9.; VP_REQUIRE(v[0].data()(0, 0, 0) == 9., "view of two functions is read"); std::vector<gf_view<imfreq>> vv{g1, g2}; auto v2 = make_block_gf_view(vv); auto v3 = make_block_gf_view({"x", "y"}, vv); v3[0] = dc(6.); VP_REQUIRE(v2[0].data()(0, 0, 0) == 6. && v3.block_names() == (std::vector<std::string>{"x", "y"}), "views of a list"); auto cv = make_block_gf_const_view(std::as_const(g1), std::as_const(g2)); VP_REQUIRE(cv[0].data()(0, 0, 0) == 6., "constant view"); block_gf<imfreq> copy{v3}; v3[0] = dc(1.); VP_REQUIRE(copy[0].data()(0, 0, 0) == 6. && copy.block_names() == v3.block_names(), "a function made from a view is a copy");
  block_gf<imfreq> t; t = d; block_gf<imfreq> mv(std::move(t)); VP_REQUIRE(mv.size() == n, "moved"); auto wrong = names; wrong.push_back("more"); std::vector<gf<imfreq>> list(n, g); VP_REQUIRE(vp::throws([&] { block_gf<imfreq>(wrong, list); }), "more names than functions"); std::vector<std::vector<gf<imfreq>>> l2(n, std::vector<gf<imfreq>>(2, g)); VP_REQUIRE(vp::throws([&] { block2_gf<imfreq>({wrong, {"x", "y"}}, l2); }) && vp::throws([&] { block2_gf<imfreq>({names, {"x"}}, l2); }) && vp::throws([&] { make_block2_gf(names, std::vector<std::string>{"x"}, l2); }), "names and functions with two indices"); { auto less = names; less.pop_back(); VP_REQUIRE(vp::throws([&] { block2_gf<imfreq>({less, {"x", "y"}}, l2); }) && vp::throws([&] { block_gf<imfreq>(less, list); }), "fewer names than functions"); } l2.back().pop_back(); VP_REQUIRE(vp::throws([&] { block2_gf<imfreq>({names, n > 1 ? std::vector<std::string>{"x", "y"} : std::vector<std::string>{"x", "y", "z"}}, l2); }), "rows of different lengths are accepted");
  block2_gf<imfreq> empty; VP_REQUIRE(empty.size() == 0, "empty"); int k = 0; for (auto &q : empty) { (void)q; ++k; } VP_REQUIRE(k == 0, "loop over no blocks"); s.nontrivial(n > 1); }
// assignments that do not fit are refused and change nothing
VP_TEST(refusals) {
  auto m = mesh_of<imfreq>(s); int n = int(s.integer(1, 3)), k = int(s.integer(1, 3)); auto g = function<imfreq, scalar_valued>(s, m, {}); auto a = make_block_gf(n, g), b = make_block_gf(k, gf<imfreq, scalar_valued>(g * dc(2))); auto check = [&](auto f, char const *what) { auto old = a; bool t = vp::throws(f); VP_REQUIRE(t == (n != k), what, " of ", n, " and ", k, " blocks ", t ? "is refused" : "is accepted"); if (t) { VP_REQUIRE(a.size() == n, what, ": size"); } a = old; };
  check([&] { a() = b; }, "view = blocks"); check([&] { a() = b(); }, "view = view"); check([&] { auto v = a(); auto u = b(); v = u; }, "assignment of views"); check([&] { block_gf<imfreq, scalar_valued> c{a + b}; }, "sum"); check([&] { a = a - b; }, "difference"); check([&] { a += b; }, "in-place sum"); check([&] { a() = a * dc(2) + b / dc(3); }, "expression");
  check([&] { imtime mt(m.beta(), m.statistic(), 20); auto c = make_block_gf(n, gf<imtime, scalar_valued>{mt}); imfreq mw(m.beta(), m.statistic(), 3); auto d = make_block_gf(k, gf<imfreq, scalar_valued>{mw}); for (auto &x : d) for (auto p : mw) x[p] = m.statistic() == Fermion ? 1. / (dc(p.value()) - 1.) : 1. / (dc(p.value()) - 1.); d() = fourier(c); }, "transform");
  int n2 = int(s.integer(1, 3)), k2 = int(s.integer(1, 3)); auto c = make_block2_gf(n, n2, g), d = make_block2_gf(k, k2, g); bool fit = n == k && n2 == k2; auto check2 = [&](auto f, char const *what) { bool t = vp::throws(f); VP_REQUIRE(t != fit, what, " of ", n, " x ", n2, " and ", k, " x ", k2, " blocks ", t ? "is refused" : "is accepted"); }; check2([&] { c() = d; }, "view = blocks"); check2([&] { auto v = c(); auto u = d(); v = u; }, "assignment of views"); check2([&] { block2_gf<imfreq, scalar_valued> e{c + d}; }, "sum"); s.nontrivial(!fit || n != k); }
// lazy assignment and Fourier transforms of all blocks
VP_TEST(lazy_blocks) {
  nda::clef::placeholder<0> b_; nda::clef::placeholder<1> x_; int n = int(s.integer(1, 4)); auto m = mesh_of<imfreq>(s); auto a = make_block_gf(n, gf<imfreq, scalar_valued>{m}); double u = s.generic(1, 3), v = s.generic(-2, 2); a[b_][x_] << b_ * v / (x_ + u); for (int i = 0; i < n; ++i) for (auto p : m) VP_CLOSE(a[i][p], i * v / (dc(p.value()) + u), 1e-13, "block ", i); auto c = a; a[b_](x_) << c[b_](x_) * c[b_](x_) + b_; for (int i = 0; i < n; ++i) for (auto p : m) { dc z = i * v / (dc(p.value()) + u); VP_CLOSE(a[i][p], z * z + double(i), 1e-13 * (1 + std::norm(z)), "product, block ", i); } for (int i = 0; i < n; ++i) for (auto p : m) VP_CLOSE(c[i][p], i * v / (dc(p.value()) + u), 1e-13, "argument"); s.nontrivial(n > 1); }
VP_TEST(legacy_sums) {
  auto go = [&](auto m) { using M = decltype(m); auto sh = shape<matrix_valued>(s, 3, true); auto g = function<M, matrix_valued>(s, m, sh); auto old = g; nda::matrix<dc> A(sh[0], sh[1]); for (auto &x : A) x = s.cplx(-1, 1); dc z = s.cplx(-1, 1); bool neg = s.boolean(), mat = s.boolean(); auto v = g(); if (mat) { if (neg) triqs::gfs::operator-=(v, A); else triqs::gfs::operator+=(v, A); } else { if (neg) triqs::gfs::operator-=(v, z); else triqs::gfs::operator+=(v, z); } for (auto p : m) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE(g[p](i, j), old[p](i, j) + (neg ? -1. : 1.) * (mat ? A(i, j) : i == j ? z : dc(0)), 1e-14, "matrix added in place"); auto h = function<M, scalar_valued>(s, m, {}); auto h0 = h; auto hv = h(); if (neg) triqs::gfs::operator-=(hv, z); else triqs::gfs::operator+=(hv, z); for (auto p : m) VP_CLOSE(h[p], h0[p] + (neg ? -z : z), 1e-14, "number added in place"); s.nontrivial(sh[0] > 1); };
  if (s.boolean()) go(mesh_of<imfreq>(s)); else go(mesh_of<refreq>(s)); }
#endif // part
// files and processes
template <typename M, typename T, int A> static void files(vp::Src &s, std::string w) {
  World<M, T, A> W(s); if constexpr (std::is_same_v<M, imfreq>) W.m = imfreq(W.m.beta(), W.m.statistic(), s.integer(1, 4)); auto [b, r] = W.make(s, false); h5::file f{}; h5::write(f, "b", b); h5::write(f, "v", b()); block_gf<M, T, A> c; World<M, T, A> W2(s); if (s.boolean()) c = W2.make(s).first; h5::read(f, "b", c); same<A>(c, r, 0, w + ": read"); block_gf<M, T, A> d; h5::read(f, "v", d); same<A>(d, r, 0, w + ": view written"); auto [e, q] = W.make(s, false); h5::write(f, "b", e); h5::read(f, "b", c); same<A>(c, q, 0, w + ": overwritten"); for (int k = 0; k < c.size(); ++k) VP_REQUIRE(at<A>(c, k).mesh() == W.m && at<A>(c, k).target_shape() == W.sh[k], w, ": mesh and shape"); if constexpr (A == 1) { block2_gf<M, T> x; VP_REQUIRE(vp::throws([&] { h5::read(f, "b", x); }), w, ": read as two indices"); } else { block_gf<M, T> x; VP_REQUIRE(vp::throws([&] { h5::read(f, "b", x); }), w, ": read as one index"); } s.nontrivial(W.n1 * W.n2 > 1); }
#if !defined(VP_PART) || VP_PART == 4
VP_TEST(block_files) { switch (s.raw(2)) { case 0: files<imfreq, matrix_valued, 1>(s, "one index"); break; case 1: files<imfreq, scalar_valued, 2>(s, "two indices"); break; default: files<prod<brzone, imtime>, tensor_real_valued<1>, 1>(s, "brzone x imtime"); }
  if (s.chance(1, 4)) { auto m = mesh_of<imtime>(s); auto g = function<imtime, scalar_valued>(s, m, {}), g2 = function<imtime, scalar_valued>(s, m, {}); block2_gf<imtime, scalar_valued> b({{"a", "a_b"}, {"c", "b_c"}}, {{g, g2}, {g, g2}}), c; h5::file f{}; bool t = vp::throws([&] { h5::write(f, "b", b); }); if (!t) { h5::read(f, "b", c); auto x = flat(c(0, 1).data()), y = flat(c(1, 0).data()); if (dist(x, flat(g2.data())) > 0 || dist(y, flat(g.data())) > 0) throw vp::Known{"block2_names_in_files", "blocks (a, b_c) and (a_b, c) of a file are not those written"}; } }
  gf_struct_t st, rd; for (auto &x : bnames(s, int(s.integer(0, 4)))) st.push_back({x, s.integer(1, 5)}); h5::file f{}; h5::write(f, "st", st); h5_read_gf_struct(f, "st", rd); VP_REQUIRE(rd == st, "structure read from a file"); if (!st.empty()) { std::vector<std::pair<std::string, std::vector<std::variant<int, std::string>>>> old; for (auto &[x, n] : st) { std::vector<std::variant<int, std::string>> v; for (long i = 0; i < n; ++i) { if (s.boolean()) v.push_back(int(i)); else v.push_back("i" + std::to_string(i)); } old.push_back({x, v}); } h5::write(f, "old", old); rd = {{"rest", 3}}; h5_read_gf_struct(f, "old", rd); VP_REQUIRE(rd == st, "structure in the former format"); } }
#endif // part
template <int A> static void ranks(vp::Src &s) {
  int n = int(s.integer(1, 4)), root = int(s.raw(n - 1)); bool all = s.boolean(); World<imfreq, matrix_valued, A> W(s); using B = block_gf<imfreq, matrix_valued, A>; std::vector<B> b; std::vector<Ref<dc>> r; for (int i = 0; i < n; ++i) { auto [x, y] = W.make(s); b.push_back(x); r.push_back(y); } auto sum = r[0].v; for (int i = 1; i < n; ++i) for (size_t k = 0; k < sum.size(); ++k) for (size_t e = 0; e < sum[k].size(); ++e) sum[k][e] += r[i].v[k][e];
  std::vector<Ref<dc>> red(n), vw(n), br(n), bv(n); auto take = [](B const &x) { Ref<dc> q; if constexpr (A == 1) q.n1 = x.block_names(); else { q.n1 = x.block_names()[0]; q.n2 = x.block_names()[1]; } for (int k = 0; k < x.size(); ++k) q.v.push_back(flat(at<A>(x, k).data())); return q; };
  mpi::run_ranks(n, [&](int k) { mpi::communicator c; B x = b[k], z = b[k], t = b[k]; if constexpr (A == 1) { B y = mpi::reduce(x, c, root, all); red[k] = take(y); } else { B y; y = mpi::reduce(x, c, root, all); red[k] = take(y); } z() = mpi::reduce(x, c, root, all); vw[k] = take(z); mpi::broadcast(t, c, root); br[k] = take(t); B t2 = b[k]; { auto v = t2(); mpi::broadcast(v, c, root); } bv[k] = take(t2); });
  for (int k = 0; k < n; ++k) for (size_t e = 0; e < sum.size(); ++e) { SAME(br[k].v[e], r[root].v[e], 0, "broadcast on rank ", k); SAME(bv[k].v[e], r[root].v[e], 0, "broadcast of a view on rank ", k); if (all || k == root) { VP_REQUIRE(red[k].v.size() == sum.size() && red[k].n1 == r[k].n1, "blocks of a sum"); SAME(red[k].v[e], sum[e], 1e-13, "sum on rank ", k); SAME(vw[k].v[e], sum[e], 1e-13, "sum assigned to a view on rank ", k); } } s.nontrivial(n > 1 && sum.size() > 1); }
#if !defined(VP_PART) || VP_PART == 5
VP_TEST(block_processes) { if (s.boolean()) ranks<1>(s); else ranks<2>(s); }
#endif // part
