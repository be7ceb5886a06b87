// Green's functions: access, views, algebra, functions, evaluation, files, processes
#include "gfx.hpp"
#include <mpi/mpi.hpp>
using namespace gfx;
template <typename M, typename T> static long npt(gf<M, T> const &g) { long n = 1; for (int i = 0; i < gf<M, T>::arity; ++i) n *= g.data().extent(i); return n; }
// every way to reach the value at a mesh point gives the same memory, and nothing else changes when it is written
template <typename M, typename T> static void access(vp::Src &s, char const *w) {
  auto m = mesh_of<M>(s); auto sh = shape<T>(s); auto g = function<M, T>(s, m, sh); gf<M, T> const &gc = g; VP_REQUIRE(g.mesh() == m && g.target_shape() == sh, w, ": mesh and shape"); auto all = flat(g.data()); long tn = 1; for (auto x : sh) tn *= x; long n = m.size(); VP_REQUIRE(long(all.size()) == n * tn, w, ": size of the data");
  using gf_t0 = gf<M, T>; auto at = [&](long d) { return std::vector<typename T::scalar_t>(all.begin() + d * tn, all.begin() + (d + 1) * tn); }; auto v = g(); auto cv = gc(); auto copy = g; long d = 0;
  for (auto p : m) { SAME(vals(g[p]), at(d), 0, w, " at point ", d); SAME(vals(gc[p]), at(d), 0, w, " (constant) at point ", d); SAME(vals(v[p]), at(d), 0, w, " (view) at point ", d); SAME(vals(cv[p]), at(d), 0, w, " (constant view) at point ", d); if constexpr (gf<M, T>::arity == 1) { SAME(vals(g[p.index()]), at(d), 0, w, " at index of point ", d); } else if constexpr (gf<M, T>::arity == 2) { auto [x, y] = p.as_tuple(); SAME(vals(g[x, y]), at(d), 0, w, " at components of point ", d); SAME(vals(g[p.index()]), at(d), 0, w, " at index of point ", d); SAME(vals(g[x.index(), y]), at(d), 0, w, " at an index and a component of point ", d); } else { auto [x, y, z] = p.as_tuple(); SAME(vals(g[x, y, z]), at(d), 0, w, " at components of point ", d); SAME(vals(gc[x, y.index(), z]), at(d), 0, w, " at components and an index of point ", d); } ++d; }
  long t = s.integer(0, n - 1), dd = 0; auto val = num<typename T::scalar_t>(s); bool byview = s.boolean(); for (auto p : m) if (dd++ == t) { if constexpr (T::rank == 0) { if (byview) v[p] = val; else g[p] = val; } else { auto x = nda::make_regular(gc[p]); x() = val; if constexpr (T::is_matrix) for (auto i : range(sh[0])) for (auto j : range(sh[1])) x(i, j) = val; if (byview) v[p] = x; else g[p] = x; } }
  for (long i = 0; i < tn; ++i) all[t * tn + i] = val; SAME(flat(g.data()), all, 0, w, " after writing point ", t); SAME(flat(cv.data()), all, 0, w, ": constant view after writing"); SAME(flat(gc().data()), all, 0, w, ": new view after writing"); if (n > 1) SAME(flat(copy.data()), flat(gf_t0(copy).data()), 0, w, ": copy"); { auto c2 = flat(copy.data()); for (long i = 0; i < tn; ++i) c2[t * tn + i] = val; SAME(c2, all, 0, w, ": an older copy shares the data"); }
  using gf_t = gf<M, T>; auto g2 = function<M, T>(s, m, sh); auto keep = flat(g2.data()); gf<M, T> g3; g3 = g2; v = g2; SAME(flat(g.data()), keep, 0, w, ": assignment to a view"); auto g4 = std::move(g2); SAME(flat(g4.data()), keep, 0, w, ": moved"); VP_REQUIRE(g4.mesh() == m, w, ": mesh moved"); g3 *= 2; SAME(flat(g.data()), keep, 0, w, ": unrelated function changed"); auto reb = g3(); reb.rebind(g4()); SAME(flat(reb.data()), keep, 0, w, ": rebound view"); SAME(flat(gf_t(cv).data()), keep, 0, w, ": function built from a view"); VP_REQUIRE(gf_t(cv).mesh() == m, w, ": mesh of it"); s.nontrivial(n > 1 && (tn > 1 || T::rank == 0)); }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(access_one) { switch (s.raw(9)) { case 0: access<imfreq, scalar_valued>(s, "imfreq scalar"); break; case 1: access<imfreq, matrix_valued>(s, "imfreq matrix"); break; case 2: access<imtime, matrix_real_valued>(s, "imtime real matrix"); break; case 3: access<refreq, tensor_valued<3>>(s, "refreq tensor"); break; case 4: access<legendre, scalar_real_valued>(s, "legendre real"); break; case 5: access<brzone, matrix_valued>(s, "brzone matrix"); break; case 6: access<cyclat, tensor_valued<1>>(s, "cyclat vector"); break; case 7: access<retime, scalar_valued>(s, "retime scalar"); break; case 8: access<discrete, tensor_real_valued<4>>(s, "discrete real tensor"); break; default: access<imtime, tensor_valued<4>>(s, "imtime tensor"); } }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(access_products) { switch (s.raw(4)) { case 0: access<prod<imfreq, imfreq>, scalar_valued>(s, "imfreq x imfreq scalar"); break; case 1: access<prod<brzone, imfreq>, matrix_valued>(s, "brzone x imfreq matrix"); break; case 2: access<prod<imtime, legendre, discrete>, scalar_real_valued>(s, "imtime x legendre x discrete"); break; case 3: access<prod<cyclat, imtime, imtime>, tensor_valued<1>>(s, "cyclat x imtime x imtime vector"); break; default: access<prod<refreq, retime>, tensor_valued<3>>(s, "refreq x retime tensor"); } }
#endif // part
// slices: partial meshes and parts of the target
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(slices) {
  if (s.boolean()) { auto m = mesh_of<prod<imfreq, imtime>>(s); auto [m1, m2] = m.components(); auto sh = shape<matrix_valued>(s); auto g = function<prod<imfreq, imtime>, matrix_valued>(s, m, sh); auto const &gc = g; auto p1 = m1[s.integer(0, m1.size() - 1)]; auto p2 = m2[s.integer(0, m2.size() - 1)]; auto a = g[all_t{}, p2]; auto b = g[p1.index(), all_t{}]; auto c = gc[p1, all_t{}]; static_assert(std::is_same_v<std::decay_t<decltype(a)>::mesh_t, imfreq>); static_assert(std::is_same_v<std::decay_t<decltype(b)>::mesh_t, imtime>); VP_REQUIRE(a.mesh() == m1 && b.mesh() == m2 && c.mesh() == m2, "meshes of the slices"); for (auto x : m1) SAME(vals(a[x]), vals(g[x, p2]), 0, "first slice"); for (auto y : m2) { SAME(vals(b[y]), vals(g[p1, y]), 0, "second slice"); SAME(vals(c[y]), vals(g[p1, y]), 0, "constant slice"); } auto old = flat(g.data()); auto neg = gf<imfreq, matrix_valued>(a); a = -neg; for (auto x : m1) for (auto y : m2) { long k = (x.data_index() * m2.size() + y.data_index()) * sh[0] * sh[1]; std::vector<dc> w(old.begin() + k, old.begin() + k + sh[0] * sh[1]); if (y.data_index() == p2.data_index()) for (auto &z : w) z = -z; SAME(vals(g[x, y]), w, 0, "after the assignment of a slice"); } }
  else { auto m = mesh_of<prod<discrete, imtime, legendre>>(s); auto [m1, m2, m3] = m.components(); auto g = function<prod<discrete, imtime, legendre>, scalar_real_valued>(s, m, {}); auto p1 = m1[s.integer(0, m1.size() - 1)]; auto p2 = m2[s.integer(0, m2.size() - 1)]; auto p3 = m3[s.integer(0, m3.size() - 1)]; auto a = g[all_t{}, p2, all_t{}]; static_assert(std::is_same_v<std::decay_t<decltype(a)>::mesh_t, prod<discrete, legendre>>); for (auto x : m1) for (auto z : m3) VP_REQUIRE((a[x, z] == g[x, p2, z]), "slice of two variables"); auto b = g[p1, all_t{}, all_t{}]; for (auto y : m2) for (auto z : m3) VP_REQUIRE((b[y, z] == g[p1, y, z]), "slice of the last variables"); auto c = g[all_t{}, all_t{}, p3]; for (auto x : m1) for (auto y : m2) VP_REQUIRE((c[x, y] == g[x, y, p3]), "slice of the first variables"); auto d = g[p1, p2, all_t{}]; for (auto z : m3) VP_REQUIRE((d[z] == g[p1, p2, z]), "slice of one variable"); auto e = g[all_t{}, p2, p3]; for (auto x : m1) VP_REQUIRE((e[x] == g[x, p2, p3]), "slice of the first variable"); auto f = g[p1, all_t{}, p3]; for (auto y : m2) VP_REQUIRE((f[y] == g[p1, y, p3]), "slice of the middle variable"); auto q = c[all_t{}, p2]; for (auto x : m1) VP_REQUIRE((q[x] == g[x, p2, p3]), "slice of a slice"); q[p1] = 7.; VP_REQUIRE((g[p1, p2, p3] == 7.), "writing through a slice of a slice"); }
  { auto m = mesh_of<imfreq>(s); auto sh = shape<matrix_valued>(s, 4); auto g = function<imfreq, matrix_valued>(s, m, sh); long i = s.integer(0, sh[0] - 1), j = s.integer(0, sh[1] - 1), i2 = s.integer(i, sh[0] - 1) + 1, j2 = s.integer(j, sh[1] - 1) + 1; auto sc = slice_target_to_scalar(g, i, j); static_assert(std::is_same_v<decltype(sc)::target_t, scalar_valued>); auto ma = slice_target(g, range(i, i2), range(j, j2)); auto const &gc = g; auto mc = slice_target(gc, range(i, i2), range(j, j2)); VP_REQUIRE(ma.target_shape() == (std::array<long, 2>{i2 - i, j2 - j}) && sc.mesh() == m, "shape of a part"); for (auto p : m) { VP_REQUIRE(sc[p] == g[p](i, j), "component"); for (long a = i; a < i2; ++a) for (long b = j; b < j2; ++b) VP_REQUIRE((ma[p](a - i, b - j) == g[p](a, b) && mc[p](a - i, b - j) == g[p](a, b)), "part of a matrix"); } auto old = g; dc z = s.cplx(-1, 1); sc = z; for (auto p : m) for (long a = 0; a < sh[0]; ++a) for (long b = 0; b < sh[1]; ++b) VP_REQUIRE(g[p](a, b) == (a == i && b == j ? z : old[p](a, b)), "number assigned to a component"); g() = old; ma *= 3.; for (auto p : m) for (long a = 0; a < sh[0]; ++a) for (long b = 0; b < sh[1]; ++b) VP_CLOSE(dc(g[p](a, b)), old[p](a, b) * (a >= i && a < i2 && b >= j && b < j2 ? 3. : 1.), 1e-14, "product of a part by a number"); auto sv = function<imfreq, scalar_valued>(s, m, {}); auto mv = reinterpret_scalar_valued_gf_as_matrix_valued(sv); VP_REQUIRE(mv.target_shape() == (std::array<long, 2>{1, 1}), "shape"); for (auto p : m) VP_REQUIRE(mv[p](0, 0) == sv[p], "number as a matrix"); mv[m[0]](0, 0) = z; VP_REQUIRE(sv[m[0]] == z, "writing through the matrix"); s.nontrivial(sh[0] > 1 && sh[1] > 1); } }
#endif // part
// algebra: histories of assignments, in parallel on three functions and on lists of values
template <typename T> struct Val { std::array<long, T::rank> sh; std::vector<typename T::scalar_t> x; };
template <typename T, typename S = typename T::scalar_t> static std::vector<S> mul(std::array<long, T::rank> sh, std::vector<S> const &a, std::vector<S> const &b) { std::vector<S> r(a.size(), S(0)); if constexpr (T::is_matrix) { long n = sh[0], q = n * n; for (size_t o = 0; o < a.size(); o += q) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) for (long k = 0; k < n; ++k) r[o + i * n + j] += a[o + i * n + k] * b[o + k * n + j]; } else for (size_t i = 0; i < a.size(); ++i) r[i] = a[i] * b[i]; return r; }
template <typename M, typename T> static void algebra(vp::Src &s, char const *w) {
  using S = typename T::scalar_t; using V = std::vector<S>; auto m = mesh_of<M>(s); if constexpr (std::is_same_v<M, imtime>) m = imtime(m.beta(), Boson, m.size()); auto sh = shape<T>(s, 3, true); std::array<gf<M, T>, 3> g; std::array<V, 3> v; for (int i = 0; i < 3; ++i) { g[i] = function<M, T>(s, m, sh); v[i] = flat(g[i].data()); } std::string log; int steps = int(s.integer(1, 8)); long tn = 1; for (auto x : sh) tn *= x;
  auto lin = [](V const &a, S x, V const &b, S y) { V r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = x * a[i] + y * b[i]; return r; }; auto cst = [&](S z) { V r(v[0].size(), z); if (T::is_matrix) for (size_t i = 0; i < r.size(); ++i) { long k = long(i) % tn; r[i] = (k / sh[0] == k % sh[0]) ? z : S(0); } return r; };
  for (int q = 0; q < steps; ++q) { int a = int(s.raw(2)), b = int(s.raw(2)), c = int(s.raw(2)), op = int(s.raw(17)); S z = num<S>(s); if (std::abs(z) < 0.1) z = 1; double u = s.generic(0.5, 2); log += " " + std::to_string(op) + std::to_string(a) + std::to_string(b) + std::to_string(c); auto &A = g[a]; auto &B = g[b]; auto &C = g[c]; V const va = v[a], vb = v[b], vc = v[c]; V r;
    switch (op) { case 0: A = B + C; r = lin(vb, 1, vc, 1); break; case 1: A = B - C; r = lin(vb, 1, vc, -1); break; case 2: A = -B; r = lin(vb, -1, vb, 0); break; case 3: A = z * B; r = lin(vb, z, vb, 0); break; case 4: A = B * z; r = lin(vb, z, vb, 0); break; case 5: A = B / z; r = lin(vb, S(1) / z, vb, 0); break; case 6: A += B; r = lin(va, 1, vb, 1); break; case 7: A -= B; r = lin(va, 1, vb, -1); break; case 8: A *= z; r = lin(va, z, va, 0); break; case 9: A /= u; r = lin(va, 1 / u, va, 0); break;
      case 10: A() = B(); r = vb; break; case 11: A() = z; r = cst(z); break; case 12: A() = z * B - C / u; r = lin(vb, z, vc, -1 / u); break; case 13: A = -(B + u * C) - A; r = lin(lin(vb, -1, vc, S(-u)), 1, va, -1); break; case 14: A() += B; r = lin(va, 1, vb, 1); break; case 15: A() *= u; r = lin(va, u, va, 0); break; 
      case 16: if constexpr (T::rank == 0 || T::is_matrix) { A = B * C; r = mul<T>(sh, vb, vc); } else { A = B; r = vb; } break; default: if constexpr (T::rank == 0 || T::is_matrix) { A = B * C + z * (C * B); r = lin(mul<T>(sh, vb, vc), 1, mul<T>(sh, vc, vb), z); } else { A = gf<M, T>(B + C); r = lin(vb, 1, vc, 1); } }
    v[a] = r; double mx = 1; for (auto &x : r) mx = std::max(mx, std::abs(x)); for (int i = 0; i < 3; ++i) SAME(flat(g[i].data()), v[i], 1e-12 * mx * double(tn), w, " number ", i, " after", log); VP_REQUIRE(g[a].mesh() == m, w, ": mesh after", log); if (mx > 1e6) break; }
  auto e = g[0] + g[1] * S(2); VP_REQUIRE(e.mesh() == m && e.data_shape() == g[0].data_shape(), w, ": mesh and shape of an expression"); auto r = gf{e}; SAME(flat(r.data()), lin(v[0], 1, v[1], 2), 1e-9 * (1 + std::abs(v[0][0])), w, ": function built from an expression"); s.say(w, log); s.nontrivial(steps > 2 && v[0].size() > 2); }
#if !defined(VP_PART) || VP_PART == 3
VP_TEST(algebra_scalar) { switch (s.raw(3)) { case 0: algebra<imfreq, scalar_valued>(s, "imfreq"); break; case 1: algebra<imtime, scalar_real_valued>(s, "imtime"); break; case 2: algebra<prod<brzone, imfreq>, scalar_valued>(s, "brzone x imfreq"); break; default: algebra<legendre, scalar_real_valued>(s, "legendre"); } }
#endif // part
#if !defined(VP_PART) || VP_PART == 3
VP_TEST(algebra_matrix) { switch (s.raw(3)) { case 0: algebra<imfreq, matrix_valued>(s, "imfreq"); break; case 1: algebra<refreq, matrix_real_valued>(s, "refreq"); break; case 2: algebra<prod<discrete, retime>, matrix_valued>(s, "discrete x retime"); break; default: algebra<cyclat, matrix_valued>(s, "cyclat"); } }
#endif // part
#if !defined(VP_PART) || VP_PART == 4
VP_TEST(algebra_tensor) { switch (s.raw(2)) { case 0: algebra<imfreq, tensor_valued<3>>(s, "imfreq rank 3"); break; case 1: algebra<imtime, tensor_real_valued<1>>(s, "imtime rank 1"); break; default: algebra<prod<imfreq, imfreq>, tensor_valued<4>>(s, "imfreq x imfreq rank 4"); } }
#endif // part
// different meshes or shapes are refused; products in imaginary time change the statistics
#if !defined(VP_PART) || VP_PART == 4
VP_TEST(mismatch) {
  auto m = mesh_of<imfreq>(s); imfreq o(m.beta(), m.statistic(), m.last_index() + 2, m.positive_only() ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies); auto sh = shape<matrix_valued>(s); auto sh2 = sh; sh2[s.raw(1)]++; auto g = function<imfreq, matrix_valued>(s, m, sh), h = function<imfreq, matrix_valued>(s, o, sh), k = function<imfreq, matrix_valued>(s, m, sh2); gf<imfreq, matrix_valued> r; auto keep = flat(g.data());
  if (s.boolean()) o = imfreq(m.beta() * 2, m.statistic(), m.last_index() + 1, m.positive_only() ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies), h = function<imfreq, matrix_valued>(s, o, sh); VP_REQUIRE(vp::throws([&] { r = g + h; }), "sum on different meshes"); VP_REQUIRE(vp::throws([&] { r = g - h; }), "difference on different meshes"); VP_REQUIRE(vp::throws([&] { r = h + 2 * g; }), "sum on different meshes"); VP_REQUIRE(vp::throws([&] { g() = h; }), "assignment of a function on another mesh to a view"); VP_REQUIRE(vp::throws([&] { r = g + k; }), "sum of different shapes"); SAME(flat(g.data()), keep, 0, "operand of a refused operation"); r = h; VP_REQUIRE(r.mesh() == o, "assignment to a function takes the mesh"); r = gf<imfreq, matrix_valued>(k); VP_REQUIRE(r.target_shape() == sh2, "assignment to a function takes the shape"); r = k * 2.; VP_REQUIRE(r.mesh() == m && r.target_shape() == sh2, "assignment of an expression takes the shape"); 
  double beta = s.pick({1., 10.}); long n = s.integer(2, 6); auto S1 = s.boolean() ? Fermion : Boson, S2 = s.boolean() ? Fermion : Boson; imtime a(beta, S1, n), b(beta, S2, n), c(beta, S2, n + 1), d(beta + 1, S2, n); auto ga = function<imtime, scalar_real_valued>(s, a, {}), gb = function<imtime, scalar_real_valued>(s, b, {}); gf<imtime, scalar_real_valued> p = ga; p = ga * gb; VP_REQUIRE(p.mesh() == imtime(beta, S1 == S2 ? Boson : Fermion, n), "mesh of a product in imaginary time"); for (long i = 0; i < n; ++i) VP_CLOSE(p[i], ga[i] * gb[i], 1e-14, "product in imaginary time"); auto gc = function<imtime, scalar_real_valued>(s, c, {}), gd = function<imtime, scalar_real_valued>(s, d, {}); VP_REQUIRE(vp::throws([&] { p = ga * gc; }) && vp::throws([&] { p = ga * gd; }), "product on different meshes"); VP_REQUIRE(vp::throws([&] { p = ga + gb; }) == (S1 != S2), "sum of different statistics");
  discrete D(3); gf<prod<discrete, imtime>, scalar_real_valued> pa{D * a}, pb{D * b}, pc{D * a}; for (auto &x : pa.data()) x = s.generic(-1, 1); for (auto &x : pb.data()) x = s.generic(-1, 1); pc = pa * pb; VP_REQUIRE(pc.mesh() == D * imtime(beta, S1 == S2 ? Boson : Fermion, n), "mesh of a product of functions of two variables"); SAME(flat(pc.data()), mul<scalar_real_valued>({}, flat(pa.data()), flat(pb.data())), 1e-14, "product of functions of two variables"); VP_REQUIRE(vp::throws([&] { pc = pa + pb; }) == (S1 != S2), "sum of different statistics, two variables"); s.nontrivial(S1 != S2); }
#endif // part
// functions
template <typename M> static void funcs(vp::Src &s, char const *w) {
  auto m = mesh_of<M>(s); auto sh = shape<matrix_valued>(s); auto g = function<M, matrix_valued>(s, m, sh); auto all = flat(g.data()); auto re = real(g), im = imag(g); auto cj = conj(g); static_assert(std::is_same_v<typename decltype(re)::target_t, matrix_real_valued>); VP_REQUIRE(re.mesh() == m && im.mesh() == m && cj.mesh() == m, w, ": meshes"); auto fr = flat(re.data()), fi = flat(im.data()); auto fc = flat(cj.data()); for (size_t i = 0; i < all.size(); ++i) VP_REQUIRE(fr[i] == all[i].real() && fi[i] == all[i].imag() && fc[i] == std::conj(all[i]), w, ": real and imaginary parts"); double mi = 0; for (auto x : all) mi = std::max(mi, std::abs(x.imag())); VP_REQUIRE((mi < 1e-9 || !is_gf_real(g, mi * 0.999)) && is_gf_real(g, mi) && is_gf_real(gf<M, matrix_valued>(re * dc(1)) ), w, ": is_gf_real"); auto gv = g(); auto re2 = real(gv); SAME(flat(re2.data()), fr, 0, w, ": real part of a view");
  { auto t = transpose(g()); VP_REQUIRE(t.mesh() == m, w, ": mesh of the transpose"); VP_REQUIRE(t.target_shape() == (std::array<long, 2>{sh[1], sh[0]}), w, ": shape of the transpose"); for (auto p : m) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_REQUIRE(t[p](j, i) == g[p](i, j), w, ": transpose"); }
  if constexpr (gf<M, matrix_valued>::arity == 1) {
    long r = s.integer(1, 3), l = s.integer(1, 3); nda::matrix<dc> R(sh[1], r), L(l, sh[0]); for (auto &x : R) x = s.cplx(-1, 1); for (auto &x : L) x = s.cplx(-1, 1); gf<M, matrix_valued> o{m, {l, r}}; set_from_L_G_R(o, L, g, R); for (auto p : m) for (long i = 0; i < l; ++i) for (long j = 0; j < r; ++j) { dc x = 0; for (long a = 0; a < sh[0]; ++a) for (long b = 0; b < sh[1]; ++b) x += L(i, a) * g[p](a, b) * R(b, j); VP_CLOSE(dc(o[p](i, j)), x, 1e-12, w, ": product L G R"); }
    long n = sh[0]; auto q = function<M, matrix_valued>(s, m, {n, n}); nda::matrix<dc> U(n, n); for (auto &x : U) x = s.cplx(-1, 1); auto qr = q * U; auto ql = U * q; for (auto p : m) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { dc x = 0, y = 0; for (long k = 0; k < n; ++k) { x += q[p](i, k) * U(k, j); y += U(i, k) * q[p](k, j); } VP_CLOSE(dc(qr[p](i, j)), x, 1e-12, w, ": product by a matrix"); VP_CLOSE(dc(ql[p](i, j)), y, 1e-12, w, ": product of a matrix"); } }
  long n = sh[0]; auto q = function<M, matrix_valued>(s, m, {n, n}); for (auto p : m) for (long i = 0; i < n; ++i) q[p](i, i) += 3.; auto inv = s.boolean() ? inverse(q) : s.boolean() ? inverse(q()) : inverse(gf_const_view<M, matrix_valued>(q)); VP_REQUIRE(inv.mesh() == m, w, ": mesh of the inverse"); for (auto p : m) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { dc x = 0; for (long k = 0; k < n; ++k) x += q[p](i, k) * inv[p](k, j); VP_CLOSE(x, dc(i == j), 1e-11, w, ": inverse"); } auto q2 = q; invert_in_place(q2()); SAME(flat(q2.data()), flat(inv.data()), 1e-13, w, ": inversion in place"); s.nontrivial(sh[0] > 1 && sh[1] > 1 && m.size() > 1); }
#if !defined(VP_PART) || VP_PART == 5
VP_TEST(functions) { switch (s.raw(3)) { case 0: funcs<imfreq>(s, "imfreq"); break; case 1: funcs<retime>(s, "retime"); break; case 2: funcs<prod<imfreq, brzone>>(s, "imfreq x brzone"); break; default: funcs<brzone>(s, "brzone"); } }
#endif // part
// positive frequencies and hermiticity
template <typename T> static void sym(vp::Src &s, char const *w) {
  double beta = s.pick({1., 10.}); auto st = s.boolean() ? Fermion : Boson; long n = s.integer(1, 6); auto sh = shape<T>(s, 2, true); if (T::rank == 4) sh[1] = sh[3] = s.integer(1, 2); imfreq pos(beta, st, n, imfreq::option::positive_frequencies_only), full(beta, st, n); auto g = function<imfreq, T>(s, pos, sh); long sg = st == Fermion ? 1 : 0; if (st == Boson && s.boolean()) { auto r = flat(g.data()); long tn = long(r.size()) / n; auto it = g.data().begin(); for (long i = 0; i < tn; ++i, ++it) *it = (*it).real(); }
  bool real0 = true; if (st == Boson) for (auto x : vals(g[0])) real0 &= x.imag() == 0; auto f = make_gf_from_real_gf(gf_const_view<imfreq, T>(g)); VP_REQUIRE(f.mesh() == full, w, ": mesh of the full function"); for (auto p : full) { auto v = vals(f[p]); if (p.index() >= 0) SAME(v, vals(g[p.index()]), 0, w, ": positive frequency ", p.index()); else { auto c = vals(g[-p.index() - sg]); for (auto &x : c) x = std::conj(x); SAME(v, c, 0, w, ": negative frequency ", p.index()); } } VP_REQUIRE(is_gf_real_in_tau(g) && is_gf_real_in_tau(f) == real0, w, ": a real function of time is not recognised"); auto v = positive_freq_view(f); VP_REQUIRE(v.mesh() == pos, w, ": mesh of the positive part"); SAME(flat(v.data()), flat(g.data()), 0, w, ": positive part"); SAME(flat(positive_freq_view(v).data()), flat(g.data()), 0, w, ": positive part of a positive part"); auto fc = f; auto v2 = positive_freq_view(fc); v2 *= 2.; SAME(vals(fc[n - 1]), vals(gf<imfreq, T>(f * 2.)[n - 1]), 1e-15, w, ": the positive part is a view"); gf_const_view<imfreq, T> fcc(f); auto v3 = positive_freq_view(fcc); SAME(flat(v3.data()), flat(g.data()), 0, w, ": constant positive part");
  auto h = function<imfreq, T>(s, full, sh); auto opp = [&](long i) { return -i - sg; }; auto rt = make_real_in_tau(h); auto he = make_hermitian(h); VP_REQUIRE(is_gf_real_in_tau(rt) && is_gf_hermitian(he), w, ": symmetrised functions are not symmetric"); auto rt2 = make_real_in_tau(rt), he2 = make_hermitian(he); SAME(flat(rt2.data()), flat(rt.data()), 1e-15, w, ": second symmetrisation"); SAME(flat(he2.data()), flat(he.data()), 1e-15, w, ": second hermitian symmetrisation");
  auto dag = [&](std::vector<dc> x) { auto y = x; if constexpr (T::rank == 2) { for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[0]; ++j) y[i * sh[0] + j] = std::conj(x[j * sh[0] + i]); } else if constexpr (T::rank == 4) { long a = sh[0], b = sh[1]; for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < a; ++k) for (long l = 0; l < b; ++l) y[((i * b + j) * a + k) * b + l] = std::conj(x[((k * b + l) * a + i) * b + j]); } else for (auto &z : y) z = std::conj(z); return y; };
  double worst = 0, worstr = 0; for (auto p : full) { auto a = vals(h[p]), b = vals(h[opp(p.index())]); auto d = dag(b); auto c = b; for (auto &x : c) x = std::conj(x); worst = std::max(worst, dist(a, d)); worstr = std::max(worstr, dist(a, c)); for (size_t i = 0; i < a.size(); ++i) { d[i] = 0.5 * (a[i] + d[i]); c[i] = 0.5 * (a[i] + c[i]); } SAME(vals(he[p]), d, 1e-15, w, ": hermitian part at ", p.index()); SAME(vals(rt[p]), c, 1e-15, w, ": real part in time at ", p.index()); }
  VP_REQUIRE(is_gf_hermitian(h, worst * 1.0001 + 1e-13) && (worst < 1e-9 || !is_gf_hermitian(h, worst * 0.9999)), w, ": hermiticity with the tolerance of its violation"); VP_REQUIRE(is_gf_real_in_tau(h, worstr * 1.0001 + 1e-13) && (worstr < 1e-9 || !is_gf_real_in_tau(h, worstr * 0.9999)), w, ": reality with the tolerance of its violation"); VP_REQUIRE(is_gf_hermitian(g) && flat(make_hermitian(g).data()) == flat(g.data()) && flat(make_real_in_tau(g).data()) == flat(g.data()), w, ": functions of positive frequencies");
  { auto B = s.boolean() ? make_block_gf<imfreq, T>({"a", "b"}, {he, h}) : make_block_gf<imfreq, T>({"a", "b"}, {h, he}), R = s.boolean() ? make_block_gf<imfreq, T>({"a", "b"}, {rt, h}) : make_block_gf<imfreq, T>({"a", "b"}, {h, rt}), E = make_block_gf<imfreq, T>({"a", "b"}, {h, h}); auto bh = make_hermitian(E), br = make_real_in_tau(E); for (int b = 0; b < 2; ++b) { SAME(flat(bh[b].data()), flat(he.data()), 1e-15, w, ": hermitian part of block ", b); SAME(flat(br[b].data()), flat(rt.data()), 1e-15, w, ": real part in time of block ", b); } VP_REQUIRE(is_gf_hermitian(bh) && is_gf_real_in_tau(br), w, ": symmetrised blocks"); VP_REQUIRE(is_gf_hermitian(B, worst * 1.0001 + 1e-13) && (worst < 1e-9 || !is_gf_hermitian(B, worst * 0.9999)), w, ": hermiticity of blocks with the tolerance of the violation"); VP_REQUIRE(is_gf_real_in_tau(R, worstr * 1.0001 + 1e-13) && (worstr < 1e-9 || !is_gf_real_in_tau(R, worstr * 0.9999)), w, ": reality of blocks with the tolerance of the violation"); double mi = 0; for (auto x : flat(h.data())) mi = std::max(mi, std::abs(x.imag())); VP_REQUIRE(is_gf_real(E, mi) && (mi < 1e-9 || !is_gf_real(E, mi * 0.999)), w, ": is_gf_real of blocks"); }
  auto t = function<imtime, T>(s, imtime(beta, st, n + 1), sh); auto ht = make_hermitian(t); VP_REQUIRE(is_gf_hermitian(ht), w, ": hermitian function of time"); double wt = 0; for (auto p : t.mesh()) { auto a = vals(t[p]); auto d = dag(a); wt = std::max(wt, dist(a, d)); for (size_t i = 0; i < a.size(); ++i) d[i] = 0.5 * (a[i] + d[i]); SAME(vals(ht[p]), d, 1e-15, w, ": hermitian part in time"); } VP_REQUIRE(is_gf_hermitian(t, wt * 1.0001 + 1e-13) && (wt < 1e-9 || !is_gf_hermitian(t, wt * 0.9999)), w, ": hermiticity in time"); s.nontrivial(n > 1 && (T::rank == 0 || sh[0] > 1)); }
#if !defined(VP_PART) || VP_PART == 5
VP_TEST(hermiticity) { switch (s.raw(2)) { case 0: sym<scalar_valued>(s, "scalar"); break; case 1: sym<matrix_valued>(s, "matrix"); break; default: sym<tensor_valued<4>>(s, "rank 4"); } }
#endif // part
// flattening: one variable first, the others in their order
template <int N, typename M, typename T> static void flatten(vp::Src &s) {
  auto m = mesh_of<M>(s); auto sh = shape<T>(s); auto g = function<M, T>(s, m, sh); auto f = flatten_gf_2d<N>(g); auto all = flat(g.data()); std::vector<long> dims; for (auto x : g.data_shape()) dims.push_back(x); long n = dims[N], rest = long(all.size()) / n; VP_REQUIRE(f.mesh() == get_mesh<N>(g) && f.target_shape() == (std::array<long, 1>{rest}), "mesh and shape"); long inner = 1; for (size_t i = N + 1; i < dims.size(); ++i) inner *= dims[i]; auto ff = flat(f.data()); for (size_t k = 0; k < all.size(); ++k) { long in = long(k) % inner, mid = long(k) / inner % n, out = long(k) / inner / n; VP_REQUIRE(ff[mid * rest + out * inner + in] == all[k], "the other variables are not in their original order (variable ", N, ")"); } gf<M, T> h{m, sh}; unflatten_gf_2d<N>(h, f); SAME(flat(h.data()), all, 0, "flattening and back"); auto hv = h(); h.data() = 0; unflatten_gf_2d<N>(hv, f); SAME(flat(h.data()), all, 0, "flattening and back to a view");
  auto neg = [&](auto const &x) { return gf{-1. * x}; }; if constexpr (n_variables<M> > 1) { auto pt = partial_transform<N>(gf_const_view<M, T>(g), neg); VP_REQUIRE(pt.mesh() == m, "mesh of a partial transform"); for (auto &x : all) x = -x; SAME(flat(pt.data()), all, 0, "partial transform"); } auto zt = make_zero_tail<N>(g, 3); std::vector<long> zd(zt.shape().begin(), zt.shape().end()), wd = dims; wd.erase(wd.begin() + N); wd.insert(wd.begin(), 3); VP_REQUIRE(zd == wd, "shape of the zero tail of variable ", N); s.nontrivial(rest > 2 && n > 1); }
#if !defined(VP_PART) || VP_PART == 6
VP_TEST(flattening) { switch (s.raw(6)) { case 0: flatten<0, imfreq, matrix_valued>(s); break; case 1: flatten<0, prod<imfreq, imfreq>, scalar_valued>(s); break; case 2: flatten<1, prod<brzone, imfreq>, matrix_valued>(s); break; case 3: flatten<2, prod<brzone, discrete, imfreq>, scalar_valued>(s); break; case 4: flatten<1, prod<brzone, imtime, imfreq>, tensor_valued<1>>(s); break; case 5: flatten<2, prod<cyclat, discrete, imtime>, matrix_valued>(s); break; default: flatten<0, prod<imtime, imtime, discrete>, tensor_valued<3>>(s); } }
#endif // part
// evaluation
#if !defined(VP_PART) || VP_PART == 6
VP_TEST(evaluation) {
  auto mt = mesh_of<imtime>(s); auto sh = shape<matrix_valued>(s); auto g = function<imtime, matrix_valued>(s, mt, sh); double x = mt.beta() * s.pick({0., 1., s.unit()}); long n = mt.size(); double q = x / mt.beta() * double(n - 1); long i = std::min(long(q), n - 2); double u = q - double(i); auto v = g(x); for (long a = 0; a < sh[0]; ++a) for (long b = 0; b < sh[1]; ++b) VP_CLOSE(dc(v(a, b)), (1 - u) * g[i](a, b) + u * g[i + 1](a, b), 1e-11, "interpolation at ", x); auto p = mt[s.integer(0, n - 1)]; SAME(vals(g(p)), vals(g[p]), 1e-11, "evaluation at a mesh point"); SAME(vals(g(closest_mesh_pt(x))), vals(g[long(q + 0.5 + 1e-12)]), std::abs(q - std::floor(q) - 0.5) < 1e-9 ? 10 : 0, "evaluation at the closest point"); SAME(vals(g[closest_mesh_pt(x)]), vals(g(closest_mesh_pt(x))), 0, "value at the closest point"); SAME(vals(g()(x)), vals(v), 0, "evaluation of a view");
  auto gi = gf<imtime, matrix_valued>(g); auto e = g + 2. * gi; auto ev = e(x); for (long a = 0; a < sh[0]; ++a) for (long b = 0; b < sh[1]; ++b) VP_CLOSE(dc(ev(a, b)), 3. * v(a, b), 1e-11, "evaluation of an expression");
  auto mk = mesh_of<brzone>(s); imfreq mw(mt.beta(), s.boolean() ? Fermion : Boson, s.integer(1, 4)); auto h = function<prod<brzone, imfreq>, scalar_valued>(s, mk * mw, {}); auto k = mk[s.integer(0, mk.size() - 1)]; auto w = mw[s.integer(0, mw.size() - 1)]; VP_CLOSE(dc(h(k, w)), (dc(h[k, w])), 1e-11, "evaluation at mesh points"); VP_CLOSE(dc(h(k.value(), w.value())), (dc(h[k, w])), 1e-9, "evaluation at the values of mesh points"); matsubara_freq out(mw.last_index() + s.integer(1, 5), mw.beta(), mw.statistic()); VP_REQUIRE(dc(h(k, out)) == 0. && dc(h(k, -out)) == (mw.is_index_valid((-out).n) ? dc(h[k, (-out).n]) : 0.), "evaluation out of the frequencies of a product"); { auto hk = h(all_t{}, w); VP_REQUIRE(hk.mesh() == mk, "partial evaluation"); for (auto q : mk) VP_CLOSE(dc(hk[q]), (dc(h[q, w])), 1e-12, "partial evaluation"); auto hw = h(k, all_t{}); for (auto q : mw) VP_CLOSE(dc(hw[q]), (dc(h[k, q])), 1e-11, "partial evaluation at a momentum"); }
  auto f = function<imfreq, scalar_valued>(s, mw, {}); VP_REQUIRE(dc(f(w)) == f[w] && dc(f(w.value())) == f[w] && dc(f(int(w.index()))) == f[w], "evaluation at a frequency"); imfreq mp(mt.beta(), mw.statistic(), mw.last_index() + 1, imfreq::option::positive_frequencies_only); auto fp = function<imfreq, scalar_valued>(s, mp, {}); auto P = mp[s.integer(0, mp.size() - 1)]; VP_REQUIRE(dc(fp(P.value())) == fp[P], "evaluation at a positive frequency"); if ((-P.value()).n < 0) VP_REQUIRE(dc(fp(-P.value())) == std::conj(dc(fp[P])), "evaluation at a negative frequency"); VP_REQUIRE(vp::throws([&] { fp(matsubara_freq(mp.last_index() + 1, mp.beta(), mp.statistic())); }) && vp::throws([&] { fp(-matsubara_freq(mp.last_index() + 1, mp.beta(), mp.statistic())); }), "evaluation out of a mesh of positive frequencies"); 
  auto gl = function<prod<imtime, imtime>, scalar_real_valued>(s, mt * mt, {}); double y = mt.beta() * s.unit(); double r = y / mt.beta() * double(n - 1); long j = std::min(long(r), n - 2); double z = r - double(j); VP_CLOSE(gl(x, y), (1 - u) * ((1 - z) * gl[i, j] + z * gl[i, j + 1]) + u * ((1 - z) * gl[i + 1, j] + z * gl[i + 1, j + 1]), 1e-11, "bilinear interpolation"); s.nontrivial(n > 2 && u > 0); }
#endif // part
// a function beyond its frequencies follows its tail
#if !defined(VP_PART) || VP_PART == 6
VP_TEST(beyond_the_mesh) {
  double beta = s.pick({5., 10., 20.}); auto st = s.boolean() ? Fermion : Boson; long n = s.integer(100, 400); imfreq m(beta, st, n); double a = s.generic(-1, 1), b = s.generic(-1, 1), c = s.generic(0.5, 1.5); gf<imfreq, matrix_valued> g{m, {2, 2}}; auto f = [&](dc w) { return std::array<dc, 4>{c / (w - a), 1. + 1. / (w - a) / (w - b), 0.5 / (w - b), c / (w - a) + 1. / (w - b)}; }; for (auto w : m) { dc z = w; if (std::abs(z) == 0) z = 1e-3; auto v = f(z); for (int i = 0; i < 4; ++i) g[w](i / 2, i % 2) = v[i]; } long k = s.pick<long>({n, n + 1, 2 * n, 10 * n, -n - 2, -3 * n}); matsubara_freq w(k, beta, st); auto got = g(w); auto want = f(dc(w)); for (int i = 0; i < 4; ++i) VP_CLOSE(dc(got(i / 2, i % 2)), want[i], 1e-6, "value at frequency ", k, " of a function known up to ", n); s.nontrivial(true); }
#endif // part
// lazy assignment
#if !defined(VP_PART) || VP_PART == 6
VP_TEST(lazy_assignment) {
  using nda::clef::placeholder; placeholder<0> i_; placeholder<1> w_; placeholder<2> j_; auto m = mesh_of<imfreq>(s); auto sh = shape<matrix_valued>(s); dc a = s.cplx(-1, 1); gf<imfreq, scalar_valued> g{m}; g[w_] << 1. / (w_ + a + 7.); for (auto w : m) VP_CLOSE(dc(g[w]), 1. / (dc(w) + a + 7.), 1e-13, "lazy assignment"); gf<imfreq, scalar_valued> g2{m}; g2(w_) << g[w_] * 2. + w_; for (auto w : m) VP_CLOSE(dc(g2[w]), 2. * g[w] + dc(w), 1e-12, "lazy assignment from a function"); gf<imfreq, matrix_valued> h{m, sh}; h(w_)(i_, j_) << 1. / (w_ + i_ + 3. * j_ + 7.3); for (auto w : m) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE(dc(h[w](i, j)), 1. / (dc(w) + double(i) + 3. * double(j) + 7.3), 1e-13, "lazy assignment of a matrix"); h[w_] << 2. * h[w_]; for (auto w : m) VP_CLOSE(dc(h[w](0, 0)), 2. / (dc(w) + 7.3), 1e-13, "lazy assignment of a function to itself");
  auto mt = mesh_of<imtime>(s); placeholder<3> t_; gf<prod<imfreq, imtime>, scalar_valued> p{m * mt}; p[w_, t_] << t_ + 1. / (w_ + 9.1) ; for (auto w : m) for (auto t : mt) VP_CLOSE(dc(p[w, t]), double(t) + 1. / (dc(w) + 9.1), 1e-12, "lazy assignment of two variables"); gf<prod<imfreq, imtime>, scalar_valued> p2{m * mt}; p2(w_, t_) << p[w_, t_] + g[w_]; for (auto w : m) for (auto t : mt) VP_CLOSE(dc(p2[w, t]), (dc(p[w, t]) + dc(g[w])), 1e-12, "lazy sum of functions of one and two variables"); s.nontrivial(m.size() > 1 && sh[0] > 1); }
#endif // part
// files
template <typename M, typename T> static void files(vp::Src &s, char const *w) { auto m = mesh_of<M>(s); auto sh = shape<T>(s); auto g = function<M, T>(s, m, sh); h5::file f{}; h5::write(f, "g", g); h5::write(f, "v", g()); gf<M, T> r, q; h5::read(f, "g", r); h5::read(f, "v", q); auto want = g; if constexpr (std::is_same_v<M, imfreq>) if (m.positive_only()) want = make_gf_from_real_gf(gf_const_view<M, T>(g)); VP_REQUIRE(r.mesh() == want.mesh() && r.target_shape() == sh, w, ": mesh and shape read from a file"); SAME(flat(r.data()), flat(want.data()), 0, w, ": function read from a file"); SAME(flat(q.data()), flat(want.data()), 0, w, ": view written to a file"); auto other = function<M, T>(s, m, sh); h5::write(f, "g", other); h5::read(f, "g", r); if (r.mesh() == other.mesh()) SAME(flat(r.data()), flat(other.data()), 0, w, ": overwritten function"); s.nontrivial(m.size() > 1); }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(gf_files) { switch (s.raw(7)) { case 0: files<imfreq, matrix_valued>(s, "imfreq"); break; case 1: files<imtime, scalar_real_valued>(s, "imtime"); break; case 2: files<refreq, tensor_valued<3>>(s, "refreq"); break; case 3: files<brzone, matrix_valued>(s, "brzone"); break; case 4: files<prod<brzone, imfreq>, scalar_valued>(s, "brzone x imfreq"); break; case 5: files<prod<cyclat, imtime, legendre>, matrix_real_valued>(s, "three meshes"); break; case 6: files<legendre, scalar_valued>(s, "legendre"); break; default: files<discrete, tensor_real_valued<1>>(s, "discrete"); } }
#endif // part
// processes
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(processes) {
  int n = int(s.integer(1, 4)), root = int(s.raw(n - 1)); bool all = s.boolean(); auto m = mesh_of<imfreq>(s); auto sh = shape<matrix_valued>(s); std::vector<gf<imfreq, matrix_valued>> g; for (int i = 0; i < n; ++i) g.push_back(function<imfreq, matrix_valued>(s, m, sh)); auto sum = flat(g[0].data()); for (int i = 1; i < n; ++i) { auto x = flat(g[i].data()); for (size_t k = 0; k < x.size(); ++k) sum[k] += x[k]; } std::vector<std::vector<dc>> red(n), inpl(n), br(n), vw(n);
  mpi::run_ranks(n, [&](int r) { mpi::communicator c; auto a = g[r]; gf<imfreq, matrix_valued> b = mpi::reduce(a, c, root, all); red[r] = flat(b.data()); auto d = a; if (all) d = mpi::reduce(d, c, root, all); inpl[r] = flat(d.data()); auto e = a; mpi::broadcast(e, c, root); br[r] = flat(e.data()); auto f = a; f() = mpi::reduce(a, c, root, all); vw[r] = flat(f.data()); });
  for (int r = 0; r < n; ++r) { SAME(br[r], flat(g[root].data()), 0, "broadcast on rank ", r); if (all || r == root) { SAME(red[r], sum, 1e-13, "sum on rank ", r); if (all) SAME(inpl[r], sum, 1e-13, "sum assigned on rank ", r); SAME(vw[r], sum, 1e-13, "sum assigned to a view on rank ", r); } } s.nontrivial(n > 1); }
#endif // part
