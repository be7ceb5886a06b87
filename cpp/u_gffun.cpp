// densities, tails, Legendre, DLR and Pade
#include "gfx.hpp"
#include <cmath>
using namespace gfx;
static double const PI = M_PI;
static std::array<long, 0> const S0{};
static double fermi(double beta, double e) { return e > 0 ? std::exp(-beta * e) / (1 + std::exp(-beta * e)) : 1 / (1 + std::exp(beta * e)); }
using Mat = std::vector<dc>; // n x n, C order
struct Poles { double beta; int xi; long n; std::vector<double> e; std::vector<Mat> A; };
static Poles hermitian_poles(vp::Src &s, double beta, statistic_enum st, long n, double top = 3) { Poles p{beta, st == Fermion ? -1 : 1, n, {}, {}}; int K = int(s.integer(1, 3)); for (int k = 0; k < K; ++k) { double x = s.pick({s.generic(-top, top), 0.5, -1., 1.}); if (st == Boson && std::abs(x) < 0.2) x = 0.2; p.e.push_back(x); Mat a(n * n); for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) { a[i * n + j] = i == j ? dc(s.generic(-1, 1)) : s.cplx(-1, 1); a[j * n + i] = std::conj(a[i * n + j]); } p.A.push_back(a); } return p; }
static dc at(Poles const &p, long c, dc z) { dc r = 0; for (size_t k = 0; k < p.e.size(); ++k) r += p.A[k][c] / (z - p.e[k]); return r; }
static dc tau(Poles const &p, long c, double t) { dc r = 0; for (size_t k = 0; k < p.e.size(); ++k) { double x = p.e[k]; r += -p.A[k][c] * (x >= 0 ? std::exp(-x * t) / (1. - p.xi * std::exp(-p.beta * x)) : std::exp(x * (p.beta - t)) / (std::exp(p.beta * x) - double(p.xi))); } return r; }
static double size(Poles const &p) { double r = 1e-9; for (auto &a : p.A) { double m = 0; for (auto x : a) m = std::max(m, std::abs(x)); r += m; } return r; }
static nda::array<dc, 3> moments(Poles const &p, long n) { nda::array<dc, 3> r(n, p.n, p.n); r = 0; for (long q = 1; q < n; ++q) for (long i = 0; i < p.n; ++i) for (long j = 0; j < p.n; ++j) for (size_t k = 0; k < p.e.size(); ++k) r(q, i, j) += p.A[k][i * p.n + j] * std::pow(p.e[k], q - 1); return r; }
static gf<imfreq> on(Poles const &p, imfreq const &m) { gf<imfreq> g{m, {p.n, p.n}}; for (auto w : m) for (long i = 0; i < p.n; ++i) for (long j = 0; j < p.n; ++j) g[w](i, j) = at(p, i * p.n + j, w.value()); return g; }
static statistic_enum stat(vp::Src &s) { return s.boolean() ? Fermion : Boson; }
// the density is the occupation of the poles
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(density_matsubara) {
  double beta = s.pick({1., 5., s.generic(0.5, 10)}); auto st = stat(s); long n = s.integer(1, 3), N = std::max<long>(s.integer(5, 60), long(2 * beta)); imfreq m(beta, st, N); auto p = hermitian_poles(s, beta, st, n); auto g = on(p, m); auto km = moments(p, s.integer(4, 6)); auto d = density(g, km); double b = 0; for (long k = m.last_index() + 1; k < N + 20000; ++k) { double w = (2 * k + (st == Fermion)) * PI / beta, c = 0; for (size_t q = 0; q < p.e.size(); ++q) { double mx = 0, x = std::abs(p.e[q]); for (auto y : p.A[q]) mx = std::max(mx, std::abs(y)); c += mx * (x * x * x + 16 * (1 + x + x * x)); } c *= 2 / (w * w * w * w); b += c; if (c < 1e-5 * b) { b += c * double(k); break; } } b = b / beta + 1e-11 * size(p) * double(N);
  auto occ = [&](long c) { dc r = 0; for (size_t k = 0; k < p.e.size(); ++k) r += p.A[k][c] * (st == Fermion ? fermi(beta, p.e[k]) : 1 / std::expm1(beta * p.e[k])); return r; }; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) VP_CLOSE(d(i, j), occ(i * n + j), b, "density of a sum of poles, beta ", beta, " n ", N);
  auto sc = slice_target_to_scalar(g, 0, 0); nda::array<dc, 1> k1 = km(nda::range::all, 0, 0); VP_CLOSE(density(gf<imfreq, scalar_valued>(sc), k1), d(0, 0), 1e-13 * size(p) * double(N), "density of a number"); std::vector<nda::array<dc, 3>> kv{km, km}; auto bg = make_block_gf<imfreq, matrix_valued>({"a", "b"}, {g, gf<imfreq>(g * 2.)}); kv[1] *= 2.; auto bd = density(bg, kv); VP_REQUIRE(bd.size() == 2, "number of densities"); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { VP_REQUIRE(bd[0](i, j) == d(i, j), "density of the first block"); VP_CLOSE(bd[1](i, j), 2. * d(i, j), 1e-12 * size(p) * double(N), "density of the second block"); } kv.pop_back(); VP_REQUIRE(vp::throws([&] { density(bg, kv); }), "too few lists of moments");
  km(0, 0, 0) = 0.1; VP_REQUIRE(vp::throws([&] { density(g, km); }), "constant term"); gf<imfreq> pos{imfreq(beta, st, N, imfreq::option::positive_frequencies_only), {n, n}}; pos() = 0; VP_REQUIRE(vp::throws([&] { density(pos); }), "density from positive frequencies");
  long N2 = std::max<long>(30, long(8 * beta)); imfreq m2(beta, st, N2); auto q = hermitian_poles(s, beta, st, n, 2.); auto g2 = on(q, m2); long known = s.integer(0, 3); auto d2 = known == 0 ? density(g2) : density(g2, moments(q, known)); p = q; for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) VP_CLOSE(d2(i, j), occ(i * n + j), 1e-4 * size(q), "density with ", known, " known moments, beta ", beta); s.nontrivial(n > 1 && p.e.size() > 1); }
#endif // part
// real axis: at zero temperature the trapezoidal integral up to zero, at finite temperature the integral with the Fermi function
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(density_real_axis) {
  long n = s.integer(1, 3), N = s.integer(2, 10); double a = -s.generic(0.1, 4); double b = s.pick({0., s.generic(0, 4), -a}); if (s.chance(1, 3)) { double dw = s.generic(0.1, 1); long k = s.integer(1, N - 1); a = -dw * double(k); b = dw * double(N - 1 - k); } refreq m(a, b, N); auto g = function<refreq, matrix_valued>(s, m, {n, n}); auto A = [&](long k, long i, long j) { return dc(0, 1) / (2 * PI) * (dc(g[k](i, j)) - std::conj(dc(g[k](j, i)))); }; auto d = density(g); double dw = m.delta(); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { dc x = 0; for (long k = 0; k + 1 < N; ++k) { double u = m.to_value(k), v = m.to_value(k + 1); if (u >= 0) break; double top = std::min(v, 0.), f = (top - u) / dw; dc e = A(k, i, j) + f * (A(k + 1, i, j) - A(k, i, j)); x += 0.5 * (A(k, i, j) + e) * (top - u); } VP_CLOSE(d(i, j), x, 5e-9 * (1 + std::abs(a)), "density of a piecewise linear function at zero temperature, from ", a, " to ", b, " with ", N, " points"); }
  auto sc = slice_target_to_scalar(g, 0, 0); VP_CLOSE(density(gf<refreq, scalar_valued>(sc)), d(0, 0), 1e-13, "density of a number");
  double beta = s.pick({1., 10., s.generic(0.5, 20)}); refreq wide(-6, 6, 2001); double c = s.generic(-2, 2), wd = s.generic(0.3, 0.6); Mat h(n * n), re(n * n); for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) { h[i * n + j] = i == j ? dc(s.generic(0, 1)) : s.cplx(-1, 1); h[j * n + i] = std::conj(h[i * n + j]); re[i * n + j] = i == j ? dc(s.generic(-1, 1)) : s.cplx(-1, 1); re[j * n + i] = std::conj(re[i * n + j]); } auto bump = [&](double w) { double x = (w - c) / wd; return std::exp(-x * x) / (wd * std::sqrt(PI)); }; gf<refreq> G{wide, {n, n}}; for (auto w : wide) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) G[w](i, j) = dc(0, -PI) * h[i * n + j] * bump(w.value()) + re[i * n + j] * std::sin(w.value()); double occ = 0; int Q = 40000; for (int k = 0; k <= Q; ++k) { double w = -6 + 12. * k / Q; occ += bump(w) * fermi(beta, w) * 12. / Q; } auto D = density(G, beta); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) VP_CLOSE(D(i, j), h[i * n + j] * occ, 1e-6, "density at temperature ", 1 / beta, ", centre ", c, " width ", wd); auto S = slice_target_to_scalar(G, 0, 0); VP_CLOSE(density(gf<refreq, scalar_valued>(S), beta), D(0, 0), 1e-13, "density of a number at finite temperature"); auto Z = density(G); double o0 = 0.5 * std::erfc(c / wd); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) VP_CLOSE(Z(i, j), h[i * n + j] * o0, 1e-4, "density at zero temperature, centre ", c); s.nontrivial(n > 1); }
#endif // part
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(density_off_the_mesh) { double b = -s.generic(0.1, 2); refreq m(b - s.generic(0.5, 3), b, s.integer(2, 8)); auto g = function<refreq, matrix_valued>(s, m, {1, 1}); VP_REQUIRE(vp::throws([&] { density(g); }), "density at zero temperature on a mesh which ends below zero"); s.nontrivial(true); }
#endif // part
// tails
template <int R> static nda::array<dc, R> coefs(vp::Src &s, std::array<long, R> sh) { nda::array<dc, R> a(sh); for (auto &x : a) x = s.cplx(-1, 1); return a; }
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(tails) {
  double beta = s.pick({1., 5., 10.}); auto st = stat(s); long N = s.integer(15, 40); int K = int(s.integer(1, 4)); double fr = s.generic(0.5, 0.8); imfreq m(beta, st, N); m.set_tail_fit_parameters(fr, int(s.pick({100, 10, 12})), K); double om = std::abs(m.w_max()); std::array<long, 2> sh{s.integer(1, 2), s.integer(1, 2)}; auto A = coefs<3>(s, {K + 1, sh[0], sh[1]}); for (long k = 0; k <= K; ++k) A(k, nda::ellipsis{}) *= std::pow(om, double(k)); gf<imfreq> g{m, sh}; for (auto w : m) { if (w.index() == 0 && st == Boson) { g[w] = 0.; continue; } auto t = tail_eval(nda::array_const_view<dc, 3>(A), w.value()); for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) { dc x = 0; for (long k = 0; k <= K; ++k) x += A(k, i, j) / std::pow(dc(w.value()), double(k)); VP_CLOSE(t(i, j), x, 1e-9 * (1 + std::abs(x)), "value of a tail"); g[w](i, j) = x; } }
  auto chk = [&](nda::array<dc, 3> const &t, double tol, char const *w) { VP_REQUIRE(t.shape() == A.shape(), w, ": shape of the tail"); for (long k = 0; k <= K; ++k) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE(t(k, i, j) / std::pow(om, double(k)), A(k, i, j) / std::pow(om, double(k)), tol, w, ": moment ", k, " of ", K, " fraction ", fr, " n ", N); };
  auto [t0, e0] = fit_tail(g); chk(t0, 1e-8, "fit"); VP_REQUIRE(e0 >= 0 && e0 < 1e-8, "error of an exact fit ", e0); long kn = s.integer(1, K + 1); nda::array<dc, 3> known = A(nda::range(kn), nda::ellipsis{}); auto [t1, e1] = fit_tail(g, known); chk(t1, 1e-8, "fit with known moments"); for (long k = 0; k < kn; ++k) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_REQUIRE(t1(k, i, j) == A(k, i, j), "known moment ", k, " changed"); auto [t2, e2] = fit_tail(g(), known); chk(t2, 1e-8, "second fit of a view"); auto [t3, e3] = fit_tail(g); chk(t3, 1e-8, "third fit, without moments");
  // only the tail counts, and the fit is linear
  auto h = g; long inner = long((1 - fr) * double(N)) - 2; for (auto w : m) if (w.index() >= -inner && w.index() < inner) h[w] *= s.generic(-5, 5); auto [t4, e4] = fit_tail(h); VP_REQUIRE(flat(t4) == flat(t0), "the fit depends on low frequencies"); auto n1 = function<imfreq, matrix_valued>(s, m, sh), n2 = function<imfreq, matrix_valued>(s, m, sh); dc a = s.cplx(-1, 1), b = s.cplx(-1, 1); auto n3 = gf<imfreq>(a * n1 + b * n2); auto f1 = fit_tail(n1).first, f2 = fit_tail(n2).first, f3 = fit_tail(n3).first; double mx = 1; for (long k = 0; k <= K; ++k) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) mx = std::max({mx, std::abs(f1(k, i, j)) / std::pow(om, double(k)), std::abs(f2(k, i, j)) / std::pow(om, double(k))}); for (long k = 0; k <= K; ++k) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE((f3(k, i, j) - a * f1(k, i, j) - b * f2(k, i, j)) / std::pow(om, double(k)), dc(0), 1e-9 * mx, "linearity of the fit");
  // the fitted coefficients are the best: moving one never comes closer to the noise on the fitted window, checked through real functions staying real
  auto r = make_real_in_tau(n1); auto fr1 = fit_tail(r).first; for (long k = 0; k <= K; ++k) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE(fr1(k, i, j).imag() / std::pow(om, double(k)), 0., 1e-9 * mx, "moments of a function real in time");
  if (sh[0] == sh[1]) { auto hn = make_hermitian(n1); auto fh = fit_hermitian_tail(hn).first; auto fp = fit_tail(hn).first; auto fx = fit_hermitian_tail(n1).first; for (long k = 0; k <= K; ++k) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) { double sc = std::pow(om, double(k)); VP_CLOSE((fh(k, i, j) - std::conj(fh(k, j, i))) / sc, dc(0), 1e-9 * mx, "moments of a hermitian fit"); VP_CLOSE((fx(k, i, j) - std::conj(fx(k, j, i))) / sc, dc(0), 1e-9 * mx, "moments of a hermitian fit of noise"); VP_CLOSE(fh(k, i, j) / sc, fp(k, i, j) / sc, 1e-8 * mx, "hermitian fit of a hermitian function"); VP_CLOSE(fx(k, i, j) / sc, fh(k, i, j) / sc, 1e-8 * mx, "hermitian fit of noise is the fit of its hermitian part"); } }
  else VP_REQUIRE(vp::throws([&] { fit_hermitian_tail(g); }), "hermitian fit of a rectangular matrix");
  // blocks, numbers, products
  auto bg = make_block_gf<imfreq, matrix_valued>({"a", "b"}, {g, gf<imfreq>(g * 2.)}); auto bt = fit_tail(bg); VP_REQUIRE(bt.first.size() == 2, "number of tails"); chk(bt.first[0], 1e-8, "first block"); nda::array<dc, 3> half = bt.first[1] / 2.; chk(half, 1e-8, "second block"); auto bk = fit_tail(bg, std::vector<nda::array<dc, 3>>{known, nda::array<dc, 3>(2. * known)}); chk(bk.first[0], 1e-8, "first block with known moments"); auto sc = gf<imfreq, scalar_valued>(slice_target_to_scalar(g, 0, 0)); auto st1 = fit_tail(sc).first; for (long k = 0; k <= K; ++k) VP_CLOSE(st1(k) / std::pow(om, double(k)), A(k, 0, 0) / std::pow(om, double(k)), 1e-8, "tail of a number"); discrete D(s.integer(1, 3)); gf<prod<discrete, imfreq>> pr{D * m, sh}; for (auto d : D) for (auto w : m) pr[d, w] = nda::make_regular(g[w] * double(d.index() + 1)); auto pt = fit_tail<1>(pr).first; VP_REQUIRE(pt.extent(0) == K + 1 && pt.extent(1) == D.size(), "shape of the tail of a product"); for (auto d : D) { nda::array<dc, 3> x = pt(nda::range::all, d.data_index(), nda::ellipsis{}) / double(d.index() + 1); chk(x, 1e-8, "product"); } auto z = make_zero_tail<1>(pr, 4); VP_REQUIRE(z.shape() == (std::array<long, 4>{4, D.size(), sh[0], sh[1]}), "shape of an empty tail"); for (auto x : z) VP_REQUIRE(x == 0., "empty tail");
  // replacement
  long nm = s.integer(1, m.last_index()); auto rp = n1; replace_by_tail(rp(), nda::array_const_view<dc, 3>(A), int(nm)); for (auto w : m) { long i = w.index(), mi = st == Fermion ? -i - 1 : -i; bool out = i >= nm || mi >= nm; if (out) SAME(vals(rp[w]), vals(g[w]), 1e-9 * double(K + 1) * std::pow(om, K), "replaced at ", i, " from ", nm); else SAME(vals(rp[w]), vals(n1[w]), 0, "kept at ", i, " below ", nm); }
  long nr = s.integer(2, N); auto rv = restricted_view(g, int(nr)); VP_REQUIRE(rv.mesh() == imfreq(beta, st, nr), "mesh of a restricted view"); for (auto w : rv.mesh()) SAME(vals(rv[w]), vals(g[w.index()]), 0, "restricted view at ", w.index());
  VP_REQUIRE(vp::throws([&] { gf<imfreq> pos{imfreq(beta, st, N, imfreq::option::positive_frequencies_only), sh}; fit_tail(pos); }), "fit of positive frequencies"); imfreq tiny(beta, st, 4); tiny.set_tail_fit_parameters(0.5, 30, 6); VP_REQUIRE(vp::throws([&] { gf<imfreq> q{tiny, sh}; q() = 0; nda::array<dc, 3> k3(3, sh[0], sh[1]); k3 = 0; fit_tail(q, k3); }), "too few data"); s.nontrivial(sh[0] + sh[1] > 2 && K > 1); }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
// fitting blocks is fitting each block: the moments of block i come from block i and what is known about block i, and the error is the largest one
VP_TEST(tails_of_blocks) {
  double beta = s.pick({1., 5.}); auto st = stat(s); int K = int(s.integer(1, 4)); long nb = s.integer(1, 4); bool square = s.boolean(); std::vector<gf<imfreq>> v; std::vector<std::string> names; std::vector<nda::array<dc, 3>> known; long kn = s.integer(1, 2);
  for (long b = 0; b < nb; ++b) { imfreq m(beta, st, s.integer(15, 30)); m.set_tail_fit_parameters(0.6, int(s.pick({100, 12})), K); long n = s.integer(1, 3); double amp = std::pow(10., double(s.integer(-2, 2))); auto g = function<imfreq, matrix_valued>(s, m, {n, square ? n : s.integer(1, 3)}); g *= amp; names.push_back("b" + std::to_string(b)); auto a = coefs<3>(s, {kn, g.target_shape()[0], g.target_shape()[1]}); a *= amp; if (square) for (long k = 0; k < kn; ++k) for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) { if (i == j) a(k, i, i) = a(k, i, i).real(); a(k, j, i) = std::conj(a(k, i, j)); } v.push_back(g); known.push_back(a); }
  auto bg = make_block_gf<imfreq, matrix_valued>(names, v); auto cmp = [&](auto const &bt, auto &&one, char const *w) { VP_REQUIRE(long(bt.first.size()) == nb, "number of tails"); double e = 0; for (long b = 0; b < nb; ++b) { auto [t, err] = one(b); e = std::max(e, err); VP_REQUIRE(bt.first[b].shape() == t.shape(), w, ": shape of the tail of block ", b); double mx = 1e-10; for (auto x : flat(t)) mx = std::max(mx, std::abs(x)); SAME(flat(bt.first[b]), flat(t), 1e-9 * mx, w, ": block ", b); } VP_CLOSE(bt.second, e, 1e-12 + 1e-8 * e, w, ": error of the fit of the blocks"); };
  cmp(fit_tail(bg), [&](long b) { return fit_tail(v[b]); }, "fit"); cmp(fit_tail(bg, known), [&](long b) { return fit_tail(v[b], known[b]); }, "fit with known moments"); if (square) { cmp(fit_hermitian_tail(bg), [&](long b) { return fit_hermitian_tail(v[b]); }, "hermitian fit"); cmp(fit_hermitian_tail(bg, known), [&](long b) { return fit_hermitian_tail(v[b], known[b]); }, "hermitian fit with known moments"); }
  s.nontrivial(nb > 1); }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(tail_windows) {
  double beta = s.pick({1., 5., 10.}); auto st = stat(s); long N = s.integer(30, 60); int K = int(s.integer(2, 4)); imfreq m(beta, st, N); long hi = s.integer(20, N), lo = s.integer(5, hi - 12); double om = std::abs(imfreq(beta, st, hi).w_max()); long n = s.integer(1, 2); auto A = coefs<3>(s, {K + 1, n, n}); bool herm = s.boolean(); for (long k = 0; k <= K; ++k) { A(k, nda::ellipsis{}) *= std::pow(om, double(k)); if (herm) for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) { if (i == j) A(k, i, i) = A(k, i, i).real(); A(k, j, i) = std::conj(A(k, i, j)); } } auto g = function<imfreq, matrix_valued>(s, m, {n, n}); for (auto w : m) { long i = w.index(), mi = st == Fermion ? -i - 1 : -i, q = std::max(i, mi); if (q >= lo && q < hi) g[w] = tail_eval(nda::array_const_view<dc, 3>(A), w.value()); } long kn = s.integer(1, 2); nda::array<dc, 3> known = A(nda::range(kn), nda::ellipsis{}); int nt = int(s.pick({100, 30, 11})); auto [t, e] = herm ? fit_hermitian_tail_on_window(g, int(lo), int(hi), known, nt, K) : fit_tail_on_window(g, int(lo), int(hi), known, nt, K); VP_REQUIRE(t.shape() == A.shape(), "shape of the tail"); for (long k = 0; k <= K; ++k) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) VP_CLOSE(t(k, i, j) / std::pow(om, double(k)), A(k, i, j) / std::pow(om, double(k)), 1e-6, "moment ", k, " fitted on the window ", lo, " to ", hi, " of ", N); VP_REQUIRE(e < 1e-7, "error of an exact fit on a window ", e); 
  // poles, default parameters
  auto p = hermitian_poles(s, beta, st, n, 2.); imfreq m2(beta, st, std::max<long>(40, long(10 * beta))); auto G = on(p, m2); nda::array<dc, 3> zero(1, n, n); zero = 0; auto [tp, ep] = fit_tail(G, zero); auto ex = moments(p, 4); VP_REQUIRE(ep < 1e-5 * size(p) && tp.extent(0) >= 4, "fit of a sum of poles, error ", ep, " order ", tp.extent(0)); double tol[4] = {0, 1e-5, 1e-3, 5e-2}; for (int k = 1; k < 4; ++k) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) VP_CLOSE(tp(k, i, j), ex(k, i, j), tol[k] * size(p), "moment ", k, " of a sum of poles"); auto Gn = G; auto nm = m2.last_index() / 2; for (auto w : m2) if (w.index() >= nm || w.index() < -nm) Gn[w] *= 1.5; replace_by_tail_in_fit_window(G(), nda::array_const_view<dc, 3>(tp)); auto G0 = on(p, m2); SAME(flat(G.data()), flat(G0.data()), 1e-5 * size(p), "replacement in the window of the fit"); s.nontrivial(n > 1 && lo > 6); }
#endif // part
