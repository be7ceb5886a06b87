// Legendre, discrete Lehmann and Pade representations, rebinning
#include "gfx.hpp"
#include <triqs/gfs/transform/pade.hpp>
#include <triqs/gfs/functions/dlr.hpp>
#include <triqs/gfs/functions/imtime.hpp>
#include <triqs/gfs/functions/legendre.hpp>
#include <cmath>
using namespace gfx;
static double const PI = M_PI;
static std::array<long, 0> const S0{};
static statistic_enum stat(vp::Src &s) { return s.boolean() ? Fermion : Boson; }
template <typename T> static long ncomp(std::array<long, T::rank> sh) { long n = 1; for (auto x : sh) n *= x; return n; }
template <typename G, typename F> static void fill(G &g, long nc, F f) { auto it = g.data().begin(); for (auto p : g.mesh()) for (long c = 0; c < nc; ++c, ++it) { if constexpr (std::is_same_v<std::decay_t<decltype(*it)>, double>) *it = f(p, c).real(); else *it = f(p, c); } }
// nodes and weights on [-1, 1]
static std::vector<std::pair<double, double>> const &quad() { static auto q = [] { int n = 64; std::vector<std::pair<double, double>> r; for (int i = 0; i < n; ++i) { double x = std::cos(PI * (i + 0.75) / (n + 0.5)), d = 0; for (int k = 0; k < 100; ++k) { double p0 = 1, p1 = x; for (int j = 2; j <= n; ++j) { double p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; } d = n * (x * p1 - p0) / (x * x - 1); double dx = p1 / d; x -= dx; if (std::abs(dx) < 1e-15) break; } r.push_back({x, 2 / ((1 - x * x) * d * d)}); } return r; }(); return q; }
// value at time t of the function with these coefficients
static dc leg(std::vector<dc> const &c, double beta, double t) { double x = 2 * t / beta - 1; dc r = 0; for (size_t l = 0; l < c.size(); ++l) r += std::sqrt(2. * l + 1) / beta * c[l] * std::legendre(unsigned(l), std::clamp(x, -1., 1.)); return r; }
static dc leg_iw(std::vector<dc> const &c, double beta, double w) { dc r = 0; for (auto [x, y] : quad()) { double t = beta * (x + 1) / 2; r += y * beta / 2 * leg(c, beta, t) * std::exp(dc(0, w * t)); } return r; }
static dc der(std::vector<dc> const &c, double beta, int p, bool right) { dc r = 0; for (size_t l = 0; l < c.size(); ++l) { double d = 1; for (int k = 1; k <= p; ++k) d *= (double(l) + k) * (double(l) - k + 1) / (2. * k); if (!right && (l + p) % 2) d = -d; r += std::sqrt(2. * l + 1) / beta * c[l] * d * std::pow(2 / beta, p); } return r; } // p-th derivative at an end
template <typename T> static void legendre_t(vp::Src &s, char const *w) {
  double beta = s.pick({1., 5., s.generic(0.5, 10)}); auto st = stat(s); long nl = s.integer(1, 12); legendre ml(beta, st, nl); auto sh = shape<T>(s, 2); long nc = ncomp<T>(sh); auto gl = function<legendre, T>(s, ml, sh); std::vector<std::vector<dc>> co(nc, std::vector<dc>(nl)); { auto f = flat(gl.data()); for (long l = 0; l < nl; ++l) for (long c = 0; c < nc; ++c) co[c][l] = f[l * nc + c]; }
  long nt = s.integer(2, 8), n = s.integer(1, 4); imtime mt(beta, st, nt); auto opt = s.chance(1, 4) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies; imfreq mw(beta, st, n, opt); auto gt = function<imtime, T>(s, mt, sh); gt() = legendre_to_imtime(gl); for (auto t : mt) { auto v = vals(gt[t]); for (long c = 0; c < nc; ++c) VP_CLOSE(dc(v[c]), leg(co[c], beta, t.value()), 1e-12 * nl * nl * (1 + 1 / beta), w, ": value at time ", t.value()); } 
  if constexpr (std::is_same_v<typename T::scalar_t, dc>) { auto gw = function<imfreq, T>(s, mw, sh); gw() = legendre_to_imfreq(gl); for (auto x : mw) { auto v = vals(gw[x]); for (long c = 0; c < nc; ++c) VP_CLOSE(v[c], leg_iw(co[c], beta, dc(x.value()).imag()), 1e-10 * nl * nl, w, ": value at frequency ", x.index(), st == Fermion ? " fermion" : " boson"); } imfreq mw2(beta * 2, st, n, opt), mw3(beta, st == Fermion ? Boson : Fermion, n, opt); gf<imfreq, T> g2{mw2, sh}, g3{mw3, sh}; VP_REQUIRE(vp::throws([&] { g2() = legendre_to_imfreq(gl); }) && vp::throws([&] { g3() = legendre_to_imfreq(gl); }), w, ": other temperature or statistic"); gf<imtime, T> g4{imtime(beta * 2, st, nt), sh}; VP_REQUIRE(vp::throws([&] { g4() = legendre_to_imtime(gl); }), w, ": times of another temperature"); }
  // projection: the trapezoidal rule, converging to the coefficients
  long nt2 = s.integer(2000, 4000); imtime fine(beta, st, nt2); gf<imtime, T> gf_{fine, sh}; gf_() = legendre_to_imtime(gl); long nl2 = s.integer(1, nl + 2); gf<legendre, T> back{legendre(beta, st, nl2), sh}; back() = imtime_to_legendre(gf_); auto fb = flat(back.data()); double sum = 0; for (auto &c : co) for (size_t l = 0; l < c.size(); ++l) sum += std::abs(c[l]) * std::sqrt(2. * l + 1) * double((l + 2) * (l + 2)); for (long l = 0; l < nl2; ++l) for (long c = 0; c < nc; ++c) VP_CLOSE(dc(fb[l * nc + c]), l < nl ? co[c][l] : dc(0), 4. * double((nl2 + 2) * (nl2 + 2)) * std::sqrt(2. * nl2 + 1) * sum / double(nt2) / double(nt2), w, ": coefficient ", l, " of ", nl, " from ", nt2, " times"); auto few = function<imtime, T>(s, mt, sh); back() = imtime_to_legendre(few); auto fw = flat(few.data()); fb = flat(back.data()); for (long l = 0; l < nl2; ++l) for (long c = 0; c < nc; ++c) { dc x = 0; for (long k = 0; k < nt; ++k) x += (k == 0 || k == nt - 1 ? 0.5 : 1.) * mt.delta() * std::sqrt(2. * l + 1) * std::legendre(unsigned(l), std::clamp(2. * k / double(nt - 1) - 1, -1., 1.)) * dc(fw[k * nc + c]); VP_CLOSE(dc(fb[l * nc + c]), x, 1e-11 * (1 + beta) * double(nl2 * nt), w, ": projection of noise"); }
  if constexpr (std::is_same_v<T, matrix_valued>) { auto d = density(gl); VP_REQUIRE(d.shape() == (std::array<long, 2>{sh[1], sh[0]}), w, ": shape of the density"); if (sh[0] == sh[1]) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE(d(j, i), -leg(co[i * sh[1] + j], beta, beta), 1e-12 * nl * nl * (1 + 1 / beta), w, ": density");
    auto g5 = gl; auto v5 = g5(); nda::array<double, 2> disc(sh[0], sh[1]); for (auto &x : disc) x = s.generic(-1, 1); double xi = st == Fermion ? -1 : 1; if (st == Fermion || nl > 1) { enforce_discontinuity(v5, disc); std::vector<dc> t0; for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) { std::vector<dc> c(nl), dl(nl); for (long l = 0; l < nl; ++l) { c[l] = g5[l](i, j); dl[l] = c[l] - co[i * sh[1] + j][l]; } VP_CLOSE(-(leg(c, beta, 0) + leg(c, beta, beta)), dc(disc(i, j)), 1e-10 * nl * nl * (1 + 1 / beta), w, ": discontinuity"); for (long l = 0; l < nl; ++l) { if (l % 2) VP_CLOSE(dl[l], dc(0), 1e-13, w, ": odd coefficient moved"); else VP_CLOSE(dl[l] / std::sqrt(2. * l + 1), dl[0], 1e-11 * nl * (1 + beta), w, ": the correction is not the smallest"); } } } (void)xi;
    if (st == Fermion) { int P = int(s.integer(1, 5)); auto t = get_tail(gl, P); VP_REQUIRE(t.extent(0) == P, w, ": number of moments"); for (int p = 0; p < P; ++p) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) { auto &c = co[i * sh[1] + j]; dc x = p == 0 ? dc(0) : (p % 2 ? -1. : 1.) * (der(c, beta, p - 1, false) + der(c, beta, p - 1, true)); VP_CLOSE(t(p, i, j), x, 1e-10 * (1 + std::pow(nl * nl / beta, p)) * nl * 3, w, ": moment ", p); } } }
  if constexpr (std::is_same_v<T, scalar_valued>) VP_CLOSE(density(gl), -leg(co[0], beta, beta), 1e-12 * nl * nl * (1 + 1 / beta), w, ": density");
  s.nontrivial(nl > 2); }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(legendre_transforms) { switch (s.raw(3)) { case 0: legendre_t<scalar_valued>(s, "scalar"); break; case 1: legendre_t<matrix_valued>(s, "matrix"); break; case 2: legendre_t<tensor_real_valued<1>>(s, "real vector"); break; default: legendre_t<tensor_valued<3>>(s, "rank 3"); } }
#endif // part
// poles
struct Poles { double beta; int xi; long nc; std::vector<double> e; std::vector<std::vector<dc>> A;
  dc w(long c, dc z) const { dc r = 0; for (size_t k = 0; k < e.size(); ++k) r += A[k][c] / (z - e[k]); return r; }
  dc t(long c, double tau) const { dc r = 0; for (size_t k = 0; k < e.size(); ++k) { double x = e[k]; r += -A[k][c] * (x >= 0 ? std::exp(-x * tau) / (1. - xi * std::exp(-beta * x)) : std::exp(x * (beta - tau)) / (std::exp(beta * x) - double(xi))); } return r; }
  double size() const { double r = 1e-9; for (auto &a : A) { double m = 0; for (auto x : a) m = std::max(m, std::abs(x)); r += m; } return r; } };
static Poles poles(vp::Src &s, double beta, statistic_enum st, long nc, double top) { Poles p{beta, st == Fermion ? -1 : 1, nc, {}, {}}; int K = int(s.integer(1, 3)); for (int k = 0; k < K; ++k) { double x = s.pick({s.generic(-top, top), 0.5 * top, -top, top}); if (st == Boson && std::abs(x) < 0.2) x = 0.2; p.e.push_back(x); std::vector<dc> a; for (long c = 0; c < nc; ++c) a.push_back(s.cplx(-1, 1)); p.A.push_back(a); } return p; }
// coefficients of a function given at Matsubara frequencies
template <typename T> static void coefficients(vp::Src &s, char const *w) {
  double beta = s.pick({1., 5., s.generic(1, 10)}); auto st = stat(s); double top = s.pick({1., 3.}); auto sh = shape<T>(s, 2); long nc = ncomp<T>(sh), nl = s.integer(1, 10); auto p = poles(s, beta, st, nc, top); long n = 60 + long(top * beta * s.generic(10, 20)); imfreq mw(beta, st, n);
  gf<imfreq, T> gw{mw, sh}; fill(gw, nc, [&](auto x, long c) { return p.w(c, x.value()); }); auto before = flat(gw.data()); gf<legendre, T> gl{legendre(beta, st, nl), sh}; for (auto &x : gl.data()) x = s.generic(-1, 1); gl() = imfreq_to_legendre(gw); auto f = flat(gl.data()); s.say(w, " beta ", beta, " n ", n, " nl ", nl, " poles ", p.e);
  for (long c = 0; c < nc; ++c) { std::vector<dc> v; for (auto [x, y] : quad()) v.push_back(p.t(c, beta * (x + 1) / 2)); for (long l = 0; l < nl; ++l) { dc r = 0; int q = 0; for (auto [x, y] : quad()) r += y * beta / 2 * std::sqrt(2. * l + 1) * std::legendre(unsigned(l), x) * v[q++]; double tol = 1e-6 * p.size() * beta * std::sqrt(2. * l + 1) * (l + 1) * (st == Boson ? 1 + 1 / (0.2 * beta) : 1); VP_REQUIRE(std::abs(dc(f[l * nc + c]) - r) <= tol, w, ": coefficient ", l, " of component ", c, " is ", f[l * nc + c], " want ", r, " (", std::abs(dc(f[l * nc + c]) - r) / tol, ")"); } }
  VP_REQUIRE(flat(gw.data()) == before, w, ": the argument changed"); gf<legendre, T> o1{legendre(2 * beta, st, nl), sh}, o2{legendre(beta, st == Fermion ? Boson : Fermion, nl), sh}; auto k1 = flat(o1.data());
  VP_REQUIRE(vp::throws([&] { o1() = imfreq_to_legendre(gw); }) && vp::throws([&] { o2() = imfreq_to_legendre(gw); }), w, ": other temperature or statistic"); gf<imtime, T> gt{imtime(beta, st, 5), sh}; VP_REQUIRE(vp::throws([&] { o1() = imtime_to_legendre(gt); }) && vp::throws([&] { o2() = imtime_to_legendre(gt); }), w, ": times of another temperature or statistic"); VP_REQUIRE(flat(o1.data()) == k1, w, ": refused, but written");
  s.nontrivial(nl > 2 && p.e.size() > 1); }
template <typename T> static void lehmann(vp::Src &s, char const *w) {
  double beta = s.pick({1., 5., 10.}), top = s.pick({1., 2., 4.}), eps = s.pick({1e-10, 1e-12}); auto st = stat(s); dlr m(beta, st, top, eps); dlr_imtime mt(m); dlr_imfreq mw(m); auto sh = shape<T>(s, 2); long nc = ncomp<T>(sh); auto p = poles(s, beta, st, nc, top); gf<dlr_imtime, T> gt{mt, sh}; gf<dlr_imfreq, T> gw{mw, sh}; fill(gt, nc, [&](auto x, long c) { return p.t(c, x.value()); }); fill(gw, nc, [&](auto x, long c) { return p.w(c, x.value()); }); double tol = 1e-6 * p.size() * (1 + beta);
  auto ct = make_gf_dlr(gt); auto cw = make_gf_dlr(gw); VP_REQUIRE(ct.mesh() == m && cw.mesh() == m && ct.target_shape() == sh, w, ": meshes"); auto v = [&](auto const &x) { return vals(x); };
  auto times = [&](auto const &c, char const *what) { for (int k = 0; k < 6; ++k) { double t = k == 0 ? 0 : k == 1 ? beta : s.generic(0, beta); auto x = v(nda::make_regular(c(t))); for (long i = 0; i < nc; ++i) VP_CLOSE(x[i], p.t(i, t), tol, w, ": ", what, " at time ", t, " beta ", beta, " band ", top); matsubara_freq z{s.integer(-30, 30), beta, st}; auto y = v(nda::make_regular(c(z))); for (long i = 0; i < nc; ++i) VP_CLOSE(y[i], p.w(i, dc(z)), tol * beta, w, ": ", what, " at frequency ", z.n); } };
  times(ct, "from times"); times(cw, "from frequencies"); auto bt = make_gf_dlr_imtime(ct); VP_REQUIRE(bt.mesh() == mt, w, ": times"); SAME(flat(bt.data()), flat(gt.data()), 1e-8 * p.size(), w, ": times to coefficients and back"); auto bw = make_gf_dlr_imfreq(cw); VP_REQUIRE(bw.mesh() == mw, w, ": frequencies"); SAME(flat(bw.data()), flat(gw.data()), 1e-8 * p.size() * (1 + beta), w, ": frequencies to coefficients and back"); auto xw = make_gf_dlr_imfreq(ct); SAME(flat(xw.data()), flat(gw.data()), tol * beta, w, ": times to frequencies"); auto xt = make_gf_dlr_imtime(cw); SAME(flat(xt.data()), flat(gt.data()), tol, w, ": frequencies to times");
  long nt = s.integer(2, 30), ni = s.integer(1, 10); auto it = make_gf_imtime(ct, nt); VP_REQUIRE(it.mesh() == imtime(beta, st, nt), w, ": mesh of times"); for (auto t : it.mesh()) { auto x = v(it[t]); for (long i = 0; i < nc; ++i) VP_CLOSE(dc(x[i]), p.t(i, t.value()), tol, w, ": on equidistant times"); } auto iw = make_gf_imfreq(cw, ni); VP_REQUIRE(iw.mesh() == imfreq(beta, st, ni), w, ": mesh of frequencies"); for (auto z : iw.mesh()) { auto x = v(iw[z]); for (long i = 0; i < nc; ++i) VP_CLOSE(dc(x[i]), p.w(i, dc(z.value())), tol * beta, w, ": on all frequencies"); }
  gf<imtime, T> many{imtime(beta, st, 201), sh}; fill(many, nc, [&](auto x, long c) { return p.t(c, x.value()); }); auto fit = fit_gf_dlr(many, top, 1e-8); VP_REQUIRE(fit.mesh() == dlr(beta, st, top, 1e-8), w, ": mesh of a fit"); for (int k = 0; k < 5; ++k) { double t = s.generic(0, beta); auto x = v(nda::make_regular(fit(t))); for (long i = 0; i < nc; ++i) VP_CLOSE(x[i], p.t(i, t), 10 * tol, w, ": fit at time ", t); }
  auto d = density(ct); if constexpr (T::rank == 0) VP_CLOSE(dc(d), -p.t(0, beta), tol, w, ": density"); else if constexpr (T::rank == 2) { if (sh[0] == sh[1]) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) VP_CLOSE(dc(d(j, i)), -p.t(i * sh[1] + j, beta), tol, w, ": density"); } else { VP_REQUIRE(d.shape() == (std::array<long, 4>{sh[3], sh[2], sh[1], sh[0]}), w, ": shape of the density"); long c = 0; for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) for (long k = 0; k < sh[2]; ++k) for (long l = 0; l < sh[3]; ++l, ++c) VP_CLOSE(dc(d(l, k, j, i)), -p.t(c, beta), tol, w, ": density"); }
  auto bg = make_block_gf<dlr_imtime, T>({"a", "b"}, {gt, gf<dlr_imtime, T>(gt * dc(2))}); auto bc = make_gf_dlr(bg); SAME(flat(bc[0].data()), flat(ct.data()), 0, w, ": first block"); auto b2 = make_gf_imtime(bc, nt); gf<imtime, T> dbl{it * dc(2)}; SAME(flat(b2[1].data()), flat(dbl.data()), tol, w, ": second block");
  // one variable among two
  discrete D(s.integer(1, 3)); gf<prod<discrete, dlr_imtime>, T> g2{D * mt, sh}; gf<prod<dlr_imtime, discrete>, T> g3{mt * D, sh}; for (auto q : D) for (auto t : mt) { double f = double(q.index() + 1); if constexpr (T::rank == 0) { g2[q, t] = gt[t] * f; g3[t, q] = gt[t] * f; } else { auto x = nda::make_regular(gt[t] * f); g2[q, t] = x; g3[t, q] = x; } } auto c2 = make_gf_dlr<1>(g2); auto c3 = make_gf_dlr<0>(g3); VP_REQUIRE(c2.mesh() == D * m && c3.mesh() == m * D, w, ": meshes of products"); auto f2 = make_gf_imfreq<1>(c2, ni); auto f3 = make_gf_imfreq<0>(c3, ni); auto t2 = make_gf_dlr_imtime<1>(c2); auto w3 = make_gf_dlr_imfreq<0>(c3); SAME(flat(t2.data()), flat(g2.data()), 1e-7 * p.size(), w, ": product to coefficients and back"); for (auto q : D) { double f = double(q.index() + 1); for (auto z : iw.mesh()) { auto x = v(f2[q, z]); auto y = v(f3[z, q]); for (long i = 0; i < nc; ++i) { VP_CLOSE(dc(x[i]), f * p.w(i, dc(z.value())), tol * beta * 3, w, ": second variable"); VP_CLOSE(dc(y[i]), f * p.w(i, dc(z.value())), tol * beta * 3, w, ": first variable"); } } for (auto z : mw) { auto y = v(w3[z, q]); for (long i = 0; i < nc; ++i) VP_CLOSE(dc(y[i]), f * p.w(i, dc(z.value())), tol * beta * 3, w, ": first variable on the frequencies of the representation"); } }
  s.nontrivial(p.e.size() > 1); }
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(lehmann_representation) { switch (s.raw(2)) { case 0: lehmann<scalar_valued>(s, "scalar"); break; case 1: lehmann<matrix_valued>(s, "matrix"); break; default: lehmann<tensor_valued<4>>(s, "rank 4"); } }
#endif // part
// continuation of sums of poles is exact
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(pade_continuation) {
  double beta = s.pick({1., 5., 10.}); long N = s.integer(8, 30); imfreq m(beta, Fermion, N); int K = int(s.integer(1, 3)); std::vector<double> e; std::vector<dc> A; for (int k = 0; k < K; ++k) { e.push_back(-2 + 4. * (k + s.generic(0.2, 0.8)) / K); A.push_back(s.generic(0.3, 1)); } gf<imfreq, scalar_valued> g{m, S0}; for (auto w : m) { dc x = 0; for (int k = 0; k < K; ++k) x += A[k] / (dc(w.value()) - e[k]); g[w] = x; } refreq mr(-3, s.generic(2, 4), s.integer(2, 30)); gf<refreq, scalar_valued> r{mr, S0}; for (auto &x : r.data()) x = 7.; double off = s.generic(0.1, 0.5); pade(r(), gf_const_view<imfreq, scalar_valued>(g), 2 * K, off); for (auto w : mr) { dc x = 0; for (int k = 0; k < K; ++k) x += A[k] / (dc(w.value(), off) - e[k]); VP_CLOSE(dc(r[w]), x, 1e-5 * (1 + std::abs(x)), "continuation of ", K, " poles at ", w.value()); } VP_REQUIRE(vp::throws([&] { pade(r(), gf_const_view<imfreq, scalar_valued>(g), int(N + 1), off); }) && vp::throws([&] { pade(r(), gf_const_view<imfreq, scalar_valued>(g), -1, off); }), "number of points"); s.nontrivial(K > 1); }
#endif // part
// each new point holds the average of the points nearest to it
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(rebinning) {
  double beta = s.pick({1., 5., s.generic(0.5, 10)}); auto st = stat(s); long n = s.integer(2, 40), k = s.integer(2, 15); std::array<long, 2> sh{s.integer(1, 2), s.integer(1, 2)}; imtime m(beta, st, n); auto g = function<imtime, matrix_valued>(s, m, sh); auto r = rebinning_tau(g, k); VP_REQUIRE(r.mesh() == imtime(beta, st, k) && r.target_shape() == sh, "mesh after rebinning"); for (long q = 0; q < k; ++q) for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) { dc sum = 0; long c = 0; bool tie = false; for (long p = 0; p < n; ++p) { long a = 2 * p * (k - 1) + (n - 1), b = 2 * (n - 1); tie |= a % b == 0; if (a / b == q) { sum += g[p](i, j); ++c; } } if (tie) { s.assume(false); } VP_CLOSE(dc(r[q](i, j)), c ? sum / double(c) : dc(0), 1e-13, "bin ", q, " of ", k, " from ", n, " times"); } s.nontrivial(n > k); }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(legendre_coefficients) { switch (s.raw(2)) { case 0: coefficients<scalar_valued>(s, "scalar"); break; case 1: coefficients<matrix_valued>(s, "matrix"); break; default: coefficients<tensor_valued<1>>(s, "vector"); } }
#endif
