// Fourier transforms
#include "gfx.hpp"
using namespace gfx;
static double const PI = M_PI;
static std::array<long, 0> const S0{};
// a sum of poles, one list of residues per component
struct Poles {
  double beta; int xi; long nc; std::vector<double> e; std::vector<std::vector<dc>> A; // A[k][component]
  dc w(long c, dc z) const { dc r = 0; for (size_t k = 0; k < e.size(); ++k) r += A[k][c] / (z - e[k]); return r; }
  dc t(long c, double tau) const { dc r = 0; for (size_t k = 0; k < e.size(); ++k) { double x = e[k]; r += -A[k][c] * (x >= 0 ? std::exp(-x * tau) / (1. - xi * std::exp(-beta * x)) : std::exp(x * (beta - tau)) / (std::exp(beta * x) - double(xi))); } return r; }
  dc mom(long c, int p) const { dc r = 0; if (p > 0) for (size_t k = 0; k < e.size(); ++k) r += A[k][c] * std::pow(e[k], p - 1); return r; }
  double size() const { double r = 0; for (auto &a : A) { double m = 0; for (auto x : a) m = std::max(m, std::abs(x)); r += m; } return r; }
  // bound on what is left at a frequency of this modulus when three moments are treated exactly by poles within [-1, 1]
  double rest(double w) const { double r = 0; for (size_t k = 0; k < e.size(); ++k) { double m = 0, x = std::abs(e[k]); for (auto y : A[k]) m = std::max(m, std::abs(y)); r += m * (x * x * x + 12 * (1 + x + x * x)); } return r / (w * w * w * w); }
};
static Poles poles(vp::Src &s, double beta, statistic_enum st, long nc, bool real = false, double top = 3) { Poles p{beta, st == Fermion ? -1 : 1, nc, {}, {}}; int K = int(s.integer(1, 3)); for (int k = 0; k < K; ++k) { double x = s.pick({s.generic(-top, top), 0.5, -1., 1.}); if (st == Boson && std::abs(x) < 0.2) x = 0.2; p.e.push_back(x); std::vector<dc> a; for (long c = 0; c < nc; ++c) a.push_back(real ? dc(s.generic(-1, 1)) : s.cplx(-1, 1)); p.A.push_back(a); } return p; }
template <typename T> static long ncomp(std::array<long, T::rank> sh) { long n = 1; for (auto x : sh) n *= x; return n; }
template <typename T, typename P> static nda::array<dc, T::rank + 1> moments(P const &p, std::array<long, T::rank> sh, long n) { std::array<long, T::rank + 1> s2; s2[0] = n; for (int i = 0; i < T::rank; ++i) s2[i + 1] = sh[i]; nda::array<dc, T::rank + 1> r(s2); auto it = r.begin(); for (long k = 0; k < n; ++k) for (long c = 0; c < p.nc; ++c, ++it) *it = p.mom(c, int(k)); return r; }
template <typename G, typename F> static void fill(G &g, long nc, F f) { auto it = g.data().begin(); for (auto p : g.mesh()) for (long c = 0; c < nc; ++c, ++it) { if constexpr (std::is_same_v<std::decay_t<decltype(*it)>, double>) *it = f(p, c).real(); else *it = f(p, c); } }
static double wn(double beta, statistic_enum st, long n) { return (2 * n + (st == Fermion ? 1 : 0)) * PI / beta; }
// discrete Fourier transforms between imaginary time and frequencies, of sums of poles with given moments
template <typename T> static void mats(vp::Src &s, char const *w) {
  double unit = s.chance(1, 5) ? s.pick({10., 20., 100.}) : 1, beta = unit * s.pick({1., 5., s.generic(0.5, 10)}); auto st = s.boolean() ? Fermion : Boson; long n = s.integer(2, 12), L = std::max<long>(6, s.pick({2, 3, 6, 8})) * n + s.integer(0, 5); imfreq mw(beta, st, n); imtime mt(beta, st, L + 1); auto sh = shape<T>(s, 2); long nc = ncomp<T>(sh); bool real = s.boolean(); auto p = poles(s, beta, st, nc, real); for (auto &x : p.e) x /= unit; using C = typename T::complex_t; gf<imfreq, C> gw{mw, sh}; gf<imtime, C> gt{mt, sh}; fill(gw, nc, [&](auto x, long c) { return p.w(c, x.value()); }); fill(gt, nc, [&](auto x, long c) { return p.t(c, x.value()); }); long nm = s.integer(4, 6); auto km = moments<T>(p, sh, nm);
  auto fw = make_gf_from_fourier(gt, mw, km); VP_REQUIRE(fw.mesh() == mw && fw.target_shape() == sh, w, ": mesh of the transform"); for (auto x : mw) { double b = 0; for (int k = 1; k < 4000; ++k) { double d = p.rest(std::abs(wn(beta, st, x.index() + k * L))) + p.rest(std::abs(wn(beta, st, x.index() - k * L))); b += d; if (d < 1e-4 * b) { b += d * k; break; } } auto u = vals(fw[x]), v = vals(gw[x]); SAME(u, v, b + 1e-11 * p.size() * beta * L, w, ": transform to frequency ", x.index(), " of ", n, " from ", L + 1, " times"); }
  auto ft = make_gf_from_fourier(gw, mt, km); VP_REQUIRE(ft.mesh() == mt && ft.target_shape() == sh, w, ": mesh of the inverse transform"); double b = 0; long last = mw.last_index(); for (long k = last + 1; k < last + 20000; ++k) { double d = 2 * p.rest(wn(beta, st, k)); b += d; if (d < 1e-5 * b) { b += d * k; break; } } for (auto x : mt) SAME(vals(ft[x]), vals(gt[x]), b / beta + 1e-11 * p.size() * n, w, ": transform to time ", x.index(), " of ", L + 1, " from ", n, " frequencies");
  { auto u = vals(ft.data()(0, nda::ellipsis{})), v = vals(ft.data()(L, nda::ellipsis{})); for (long c = 0; c < nc; ++c) { dc m1 = p.mom(c, 1), j = st == Fermion ? -dc(u[c]) - dc(v[c]) : dc(v[c]) - dc(u[c]); VP_REQUIRE(std::abs(j - m1) <= 1e-11 * (1 + p.size()) * n, w, ": the jump at the ends of the interval is ", j, " and the first moment ", m1); } }
  // the other ways to ask for them
  gf<imfreq, C> hw{mw, sh}; hw() = fourier(gt, km); SAME(flat(hw.data()), flat(fw.data()), 0, w, ": assignment of a transform"); gf<imtime, C> ht{mt, sh}; ht() = fourier(gw, km); SAME(flat(ht.data()), flat(ft.data()), 0, w, ": assignment of an inverse transform"); auto vw = make_gf_from_fourier(gt(), mw, km); SAME(flat(vw.data()), flat(fw.data()), 0, w, ": transform of a view"); auto cw = make_gf_from_fourier(gf_const_view<imfreq, C>(gw), mt, km); SAME(flat(cw.data()), flat(ft.data()), 0, w, ": transform of a constant view");
  if (real) { using R = typename T::real_t; gf<imtime, R> gr{mt, sh}; fill(gr, nc, [&](auto x, long c) { return p.t(c, x.value()); }); auto rw = make_gf_from_fourier(gr, mw, km); SAME(flat(rw.data()), flat(fw.data()), 1e-13 * p.size() * beta * L, w, ": transform of a real function"); for (auto x : mw) { auto u = vals(rw[x]), v = vals(rw[-x.index() - (st == Fermion ? 1 : 0)]); for (auto &y : v) y = std::conj(y); SAME(u, v, 1e-11 * p.size() * beta * L, w, ": symmetry of the transform of a real function"); } }
  // block functions
  { std::vector<gf<imtime, C>> bl{gt, gt}; bl[1] *= 2.; auto km2 = km; km2 *= 2.; auto bg = make_block_gf<imtime, C>({"a", "b"}, bl); auto bw = make_gf_from_fourier(bg, mw, std::vector<nda::array<dc, T::rank + 1>>{km, km2}); VP_REQUIRE(bw.block_names() == (std::vector<std::string>{"a", "b"}), w, ": names of the blocks"); SAME(flat(bw[0].data()), flat(fw.data()), 0, w, ": first block"); auto f2 = make_gf_from_fourier(bl[1], mw, km2); SAME(flat(bw[1].data()), flat(f2.data()), 0, w, ": second block"); VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(bg, mw, std::vector<nda::array<dc, T::rank + 1>>{km}); }), w, ": too few lists of moments"); }
  // what is refused
  auto bad = km; *bad.begin() = 0.1; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gt, mw, bad); }) && vp::throws([&] { make_gf_from_fourier(gw, mt, bad); }), w, ": a constant term is refused"); imtime few(beta, st, 2 * (last + 1)); gf<imtime, C> gs{few, sh}; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gs, mw, km); }) && vp::throws([&] { make_gf_from_fourier(gw, few, km); }), w, ": too few times are refused"); gf<imfreq, C> gp{imfreq(beta, st, n, imfreq::option::positive_frequencies_only), sh}; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gp, mt, km); }), w, ": positive frequencies alone are refused");
  s.say(w, " beta ", beta, " n ", n, " L ", L); s.nontrivial(p.e.size() > 1 && nc > 1); }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(matsubara) { switch (s.raw(2)) { case 0: mats<scalar_valued>(s, "scalar"); break; case 1: mats<matrix_valued>(s, "matrix"); break; default: mats<tensor_valued<3>>(s, "rank 3"); } }
#endif // part
// different temperatures, statistics
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(incompatible) {
  double beta = s.pick({1., 5.}); auto st = s.boolean() ? Fermion : Boson; long n = s.integer(2, 5); int what = int(s.raw(2)); imfreq mw(what == 0 ? beta * 1.5 : beta, what == 1 ? (st == Fermion ? Boson : Fermion) : st, n); imtime mt(beta, st, 8 * n + 1); gf<imtime, scalar_valued> gt{mt, S0}; gf<imfreq, scalar_valued> gw{mw, S0}; for (auto &x : gt.data()) x = s.cplx(-1, 1); nda::array<dc, 1> km(4); km = 0; bool ok = what == 2; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gt, mw, km); }) == !ok, "transform to another temperature or statistic"); VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gw, mt, km); }) == !ok, "inverse transform to another temperature or statistic"); VP_REQUIRE(vp::throws([&] { gw() = fourier(gt, km); }) == !ok, "assigned transform to another temperature or statistic");
  long L = s.integer(2, 8); retime t(-1, s.generic(1, 3), L); auto f = make_adjoint_mesh(t); gf<retime, scalar_valued> g{t, S0}; refreq f2(f.w_min(), f.w_max() * 1.01, L), f3(f.w_min(), f.w_max() + f.delta(), L + 1); VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(g, f2); }) && vp::throws([&] { make_gf_from_fourier(g, f3); }), "incompatible real meshes"); make_gf_from_fourier(g, f);
  auto b = mesh_of<brzone>(s); auto c = make_adjoint_mesh(b); auto d = c.dims(); auto d2 = d; d2[s.raw(1)] += s.pick({1, 2}); cyclat c2(c.lattice(), d2); brzone b2(b.bz(), d2); gf<brzone, scalar_valued> gk{b, S0}; gf<cyclat, scalar_valued> gr{c, S0}; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gk, c2); }) && vp::throws([&] { make_gf_from_fourier(gr, b2); }), "lattices of different sizes"); make_gf_from_fourier(gk, c); make_gf_from_fourier(gr, b); s.nontrivial(what != 2); }
#endif // part
// transforms are exact inverses of each other on any data, and linear
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(inverses) {
  double beta = s.pick({1., 5., s.generic(0.5, 10)}); auto st = s.boolean() ? Fermion : Boson; long n = s.integer(1, 10), L = 2 * n + s.pick({0, 1, 2, 10, 40}); imfreq mw(beta, st, n); imtime mt(beta, st, L + 1); long nc = s.integer(1, 3); std::array<long, 1> sh{nc}; using V = tensor_valued<1>; auto rk = [&] { nda::array<dc, 2> m(4, nc); for (auto &x : m) x = s.cplx(-1, 1); for (long c = 0; c < nc; ++c) m(0, c) = 0; return m; }; auto km = rk(); auto gw = function<imfreq, V>(s, mw, sh); double tol = 1e-12 * L * (1 + beta) * std::max(1., beta);
  auto gt = make_gf_from_fourier(gw, mt, km); auto g2 = make_gf_from_fourier(gt, mw, km); SAME(flat(g2.data()), flat(gw.data()), tol, "frequencies to time and back, beta ", beta, " n ", n, " L ", L); for (long c = 0; c < nc; ++c) VP_CLOSE(dc(gt[0](c) - (st == Fermion ? -1. : 1.) * gt[L](c)), -km(1, c), tol, "jump of the function of time");
  auto km2 = rk(); auto gw2 = function<imfreq, V>(s, mw, sh); dc a = s.cplx(-1, 1), b = s.cplx(-1, 1); nda::array<dc, 2> kl = a * km + b * km2; auto gl = gf<imfreq, V>(a * gw + b * gw2); auto tl = make_gf_from_fourier(gl, mt, kl), t2 = make_gf_from_fourier(gw2, mt, km2); auto ex = gf<imtime, V>(a * gt + b * t2); SAME(flat(tl.data()), flat(ex.data()), tol, "linearity of the transform to time");
  if (st == Fermion) { imtime m2(beta, st, 2 * n + 1); auto f = function<imtime, V>(s, m2, sh); for (long c = 0; c < nc; ++c) f[2 * n](c) = -f[0](c) - km(1, c); auto fw = make_gf_from_fourier(f, mw, km); auto f2 = make_gf_from_fourier(fw, m2, km); SAME(flat(f2.data()), flat(f.data()), tol, "time to frequencies and back"); }
  auto h1 = function<imtime, V>(s, mt, sh), h2 = function<imtime, V>(s, mt, sh); auto hl = gf<imtime, V>(a * h1 + b * h2); auto w1 = make_gf_from_fourier(h1, mw, km), w2 = make_gf_from_fourier(h2, mw, km2), wl = make_gf_from_fourier(hl, mw, kl); auto ew = gf<imfreq, V>(a * w1 + b * w2); SAME(flat(wl.data()), flat(ew.data()), tol, "linearity of the transform to frequencies"); s.nontrivial(n > 2 && nc > 1); }
#endif // part
// moments found from the data
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(fitted_moments) {
  double beta = s.pick({1., 5., 10.}); auto st = s.boolean() ? Fermion : Boson; long n = std::max<long>(s.integer(20, 60), long(8 * beta)), L = std::max<long>(6 * n, long(50 * beta)) + s.integer(0, 200); imfreq mw(beta, st, n); imtime mt(beta, st, L + 1); std::array<long, 2> sh{s.integer(1, 2), s.integer(1, 2)}; long nc = sh[0] * sh[1]; auto p = poles(s, beta, st, nc, false, 2.); { bool neg = s.boolean(); for (auto &x : p.e) { x = std::max(0.3, std::abs(x)); if (neg) x = -x; } std::vector<dc> ph; for (long c = 0; c < nc; ++c) ph.push_back(std::polar(1., s.generic(0, 6))); for (auto &a : p.A) for (long c = 0; c < nc; ++c) a[c] = ph[c] * (0.1 + std::abs(a[c])); } gf<imfreq> gw{mw, sh}; gf<imtime> gt{mt, sh}; fill(gw, nc, [&](auto x, long c) { return p.w(c, x.value()); }); fill(gt, nc, [&](auto x, long c) { return p.t(c, x.value()); }); double S = p.size() + 1e-9;
  auto fw = make_gf_from_fourier(gt, mw); double d = dist(flat(fw.data()), flat(gw.data())) / S; if (getenv("FM")) fprintf(stderr, "FT beta %g st %d n %ld L %ld: %g\n", beta, int(st), n, L, d); VP_REQUIRE(d < 1e-7, "transform to frequencies without moments: error ", d, " beta ", beta, " n ", n, " L ", L); auto ft = make_gf_from_fourier(gw, mt); double e = dist(flat(ft.data()), flat(gt.data())) / S; if (getenv("FM")) fprintf(stderr, "IT beta %g st %d n %ld L %ld: %g\n", beta, int(st), n, L, e); VP_REQUIRE(e < 5e-5, "transform to times without moments: error ", e, " beta ", beta, " n ", n, " L ", L); long k = s.integer(1, 3); auto km = moments<matrix_valued>(p, sh, k); auto f3 = make_gf_from_fourier(gw, mt, km); double e3 = dist(flat(f3.data()), flat(gt.data())) / S; if (getenv("FM")) fprintf(stderr, "IT %ld: %g\n", k, e3); VP_REQUIRE(e3 < 5e-5, "transform to times with ", k, " moments: error ", e3); 
  { auto off = gw; double c0 = s.generic(0.5, 3.) * (1. + p.size()); for (auto w : mw) off[w](sh[0] - 1, 0) += w.index() % 2 ? c0 : -c0; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(off, mt); }), "a function of frequency that alternates by ", c0, " and does not decay is transformed"); VP_REQUIRE(vp::throws([&] { gf<imtime> r{mt, sh}; r() = fourier(off); }), "a lazy transform of a function of frequency that alternates by ", c0, " and does not decay is transformed"); }
  // default meshes
  auto dw = make_gf_from_fourier(gt); VP_REQUIRE(dw.mesh() == imfreq(beta, st, L / 6), "default frequencies"); auto dt = make_gf_from_fourier(gw); VP_REQUIRE(dt.mesh() == imtime(beta, st, 6 * (mw.last_index() + 1) + 1), "default times"); auto nw = make_gf_from_fourier(gt, int(n / 2)); VP_REQUIRE(nw.mesh() == imfreq(beta, st, n / 2), "given number of frequencies"); auto nt = make_gf_from_fourier(gw, int(L + 1)); VP_REQUIRE(nt.mesh() == mt, "given number of times"); SAME(flat(nt.data()), flat(ft.data()), 0, "given number of times"); auto bg = make_block_gf<imfreq, matrix_valued>({"x", "y"}, {gw, gf<imfreq>(gw * 2.)}); auto bt = make_gf_from_fourier(bg, mt); SAME(flat(bt[0].data()), flat(ft.data()), 0, "block"); s.nontrivial(nc > 1); }
#endif // part
// few points of time and no moments: nothing outside the data is used
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(coarse_times) { double beta = s.pick({1., 5.}); auto st = s.boolean() ? Fermion : Boson; long L = s.integer(2, 9); imtime mt(beta, st, L + 1); auto g = function<imtime, scalar_valued>(s, mt, {}); long n = std::max<long>(1, L / 2); imfreq mw(beta, st, n); if (L < 2 * (mw.last_index() + 1)) s.assume(false); auto w = make_gf_from_fourier(g, mw); for (auto x : w.data()) VP_REQUIRE(std::isfinite(x.real()) && std::isfinite(x.imag()), "transform of a coarse function"); gf<imtime, scalar_valued> z{mt, S0}; z() = 0; auto zw = make_gf_from_fourier(z, mw); for (auto x : zw.data()) VP_CLOSE(dc(x), dc(0), 1e-12, "transform of zero"); s.nontrivial(L < 8); }
#endif // part
// real time and frequencies
#if !defined(VP_PART) || VP_PART == 3
VP_TEST(real_axis) {
  long L = s.integer(2, 12); double t0 = s.generic(-3, 3); retime mt(t0, t0 + s.generic(0.5, 5), L); bool shift = s.boolean(); refreq mw = s.boolean() ? make_adjoint_mesh(mt, shift) : [&] { double dw = 2 * PI / (L * mt.delta()), a = s.generic(-3, 3); return refreq(a, a + dw * double(L - 1), L); }(); using V = tensor_valued<1>; long nc = s.integer(1, 3); std::array<long, 1> sh{nc}; auto gt = function<retime, V>(s, mt, sh); auto gw = function<refreq, V>(s, mw, sh); double dt = mt.delta(), dw = mw.delta(); VP_CLOSE(dt * dw * double(L), 2 * PI, 1e-10, "adjoint meshes");
  auto fw = make_gf_from_fourier(gt, mw); for (auto w : mw) for (long c = 0; c < nc; ++c) { dc x = 0; for (auto t : mt) x += dt * std::exp(dc(0, w.value() * t.value())) * dc(gt[t](c)); VP_CLOSE(dc(fw[w](c)), x, 1e-11 * L * (1 + dt), "transform to real frequencies"); }
  auto ft = make_gf_from_fourier(gw, mt); for (auto t : mt) for (long c = 0; c < nc; ++c) { dc x = 0; for (auto w : mw) x += dw / (2 * PI) * std::exp(dc(0, -w.value() * t.value())) * dc(gw[w](c)); VP_CLOSE(dc(ft[t](c)), x, 1e-11 * L * (1 + dw), "transform to real times"); }
  nda::array<dc, 2> km(s.integer(3, 4), nc); for (auto &x : km) x = s.cplx(-1, 1); for (long c = 0; c < nc; ++c) km(0, c) = 0; double tol = 1e-11 * L * (1 + dt + dw + 1 / dw); auto a = make_gf_from_fourier(gt, mw, km); auto b = make_gf_from_fourier(a, mt, km); SAME(flat(b.data()), flat(gt.data()), tol * (1 + 1 / dt), "times to frequencies and back with moments"); auto c = make_gf_from_fourier(make_gf_from_fourier(gw, mt, km), mw, km); SAME(flat(c.data()), flat(gw.data()), tol * (1 + dt), "frequencies to times and back with moments"); gf<refreq, V> l{mw, sh}; l() = fourier(gt, km); SAME(flat(l.data()), flat(a.data()), 0, "assignment of a transform"); nda::array<dc, 2> few(2, nc); few = 0; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gt, mw, few); }) && vp::throws([&] { make_gf_from_fourier(gw, mt, few); }), "too few moments"); km(0, 0) = 0.1; VP_REQUIRE(vp::throws([&] { make_gf_from_fourier(gt, mw, km); }) && vp::throws([&] { make_gf_from_fourier(gw, mt, km); }), "constant term");
  auto d = make_gf_from_fourier(gt, shift); VP_REQUIRE(d.mesh() == make_adjoint_mesh(mt, shift), "default mesh"); double wm = PI * double(L - 1) / (double(L) * dt), sf = shift ? PI / double(L) / dt : 0; VP_CLOSE(d.mesh().w_min(), -wm + sf, 1e-12 * wm, "default mesh"); VP_CLOSE(d.mesh().w_max(), wm + sf, 1e-12 * wm, "default mesh"); auto e = make_gf_from_fourier(gw, shift); double tm = PI * double(L - 1) / (double(L) * dw), st = shift ? PI / double(L) / dw : 0; VP_REQUIRE(e.mesh() == make_adjoint_mesh(mw, shift) && e.mesh().size() == L, "default mesh of times"); VP_CLOSE(e.mesh().t_min(), -tm + st, 1e-12 * tm, "default mesh of times"); VP_CLOSE(e.mesh().t_max(), tm + st, 1e-12 * tm, "default mesh of times"); auto e2 = make_gf_from_fourier(gw, e.mesh()); VP_REQUIRE(flat(e.data()) == flat(e2.data()), "default mesh of times"); s.nontrivial(L > 3 && nc > 1); }
#endif // part
// a damped oscillation, with the moments of its spectrum
#if !defined(VP_PART) || VP_PART == 3
VP_TEST(real_axis_tail) { long L = s.integer(200, 600) * 2 + 1; double T = s.generic(60, 100); retime mt(-T, T, L); auto mw = make_adjoint_mesh(mt); double e = s.generic(-2, 2), G = s.generic(0.2, 0.4); dc A = s.cplx(-1, 1); gf<retime, scalar_valued> g{mt, S0}; for (auto t : mt) g[t] = t.value() < -1e-9 ? 0. : (t.value() < 1e-9 ? 0.5 : 1.) * A * dc(0, -1) * std::exp(dc(-G, -e) * t.value()); nda::array<dc, 1> km(3); km(0) = 0; km(1) = A; km(2) = A * dc(e, -G); auto f = make_gf_from_fourier(g, mw, km); double mx = 0, mx0 = 0; auto f0 = make_gf_from_fourier(g, mw); for (auto w : mw) { dc x = A / (w.value() - dc(e, -G)); mx = std::max(mx, std::abs(dc(f[w]) - x)); mx0 = std::max(mx0, std::abs(dc(f0[w]) - x)); } if (getenv("FM")) fprintf(stderr, "RT dt %g: %g %g\n", mt.delta(), mx / std::abs(A), mx0 / std::abs(A)); VP_REQUIRE(mx <= 0.05 * mt.delta() * std::abs(A) + 1e-9, "transform of a damped oscillation, error ", mx); auto b = make_gf_from_fourier(f, mt, km); VP_CLOSE(dist(flat(b.data()), flat(g.data())), 0., 1e-9, "and back"); s.nontrivial(true); }
#endif // part
// lattices
template <typename T> static void latt(vp::Src &s, char const *w) {
  int nd = int(s.integer(1, 3)); nda::matrix<double> u(nd, nd); u = 0; for (int i = 0; i < nd; ++i) u(i, i) = s.generic(0.7, 2); if (nd > 1) u(0, 1) = s.pick({0., 0.5}); triqs::lattice::bravais_lattice bl(u); std::array<long, 3> d{1, 1, 1}; for (int i = 0; i < nd; ++i) d[i] = s.integer(1, nd == 3 ? 3 : 5); brzone mk(triqs::lattice::brillouin_zone{bl}, d); cyclat mr(bl, d); auto sh = shape<T>(s, 2); auto gk = function<brzone, T>(s, mk, sh); auto gr = function<cyclat, T>(s, mr, sh); auto fr = make_gf_from_fourier(gk); auto fk = make_gf_from_fourier(gr); VP_REQUIRE(fr.mesh() == mr && fk.mesh() == mk && fr.target_shape() == sh && fk.target_shape() == sh, w, ": meshes"); long N = mk.size(), nc = ncomp<T>(sh);
  auto phase = [&](auto k, auto r) { double x = 0; auto a = k.index(); auto b = r.index(); for (int i = 0; i < 3; ++i) x += double(a[i] * b[i] % d[i]) / double(d[i]); return std::exp(dc(0, 2 * PI * x)); };
  for (auto r : mr) { std::vector<dc> x(nc); for (auto k : mk) { auto v = vals(gk[k]); dc ph = std::conj(phase(k, r)); for (long c = 0; c < nc; ++c) x[c] += v[c] * ph / double(N); double y = 0; auto kv = k.value(); auto rv = r.value(); for (int i = 0; i < 3; ++i) y += kv[i] * rv[i]; VP_CLOSE(std::exp(dc(0, y)), phase(k, r), 1e-9, w, ": phase from the vectors"); } SAME(vals(fr[r]), x, 1e-12, w, ": transform to the lattice"); } for (auto k : mk) { std::vector<dc> x(nc); for (auto r : mr) { auto v = vals(gr[r]); dc ph = phase(k, r); for (long c = 0; c < nc; ++c) x[c] += v[c] * ph; } SAME(vals(fk[k]), x, 1e-12 * N, w, ": transform to the zone"); }
  auto bk = make_gf_from_fourier(fr, mk); SAME(flat(bk.data()), flat(gk.data()), 1e-12, w, ": zone to lattice and back"); auto br = make_gf_from_fourier(fk, mr); SAME(flat(br.data()), flat(gr.data()), 1e-12, w, ": lattice to zone and back"); gf<cyclat, T> l{mr, sh}; l() = fourier(gk); SAME(flat(l.data()), flat(fr.data()), 0, w, ": assignment"); double p1 = 0, p2 = 0; for (auto x : gk.data()) p1 += std::norm(x); for (auto x : fr.data()) p2 += std::norm(x); VP_CLOSE(p1 / double(N), p2, 1e-11 * (1 + p1), w, ": norm"); s.nontrivial(N > 2 && nc > 1); }
#if !defined(VP_PART) || VP_PART == 4
VP_TEST(lattices) { switch (s.raw(2)) { case 0: latt<scalar_valued>(s, "scalar"); break; case 1: latt<matrix_valued>(s, "matrix"); break; default: latt<tensor_valued<3>>(s, "rank 3"); } }
#endif // part
// one variable among several
#if !defined(VP_PART) || VP_PART == 4
VP_TEST(several_variables) {
  auto quiet = [](auto) {}; quiet(0); long n = s.integer(1, 3); double beta = s.pick({1., 5.}); auto st = s.boolean() ? Fermion : Boson; imfreq mw(beta, st, n); imtime mt(beta, st, 6 * n + 4); long L = s.integer(2, 4); retime rt(-1, s.generic(1, 2), L); auto rf = make_adjoint_mesh(rt); auto mk = mesh_of<brzone>(s); auto mr = make_adjoint_mesh(mk); std::array<long, 2> sh{s.integer(1, 2), s.integer(1, 2)}; long nc = sh[0] * sh[1];
  auto g = function<prod<brzone, imfreq, retime>, matrix_valued>(s, mk * mw * rt, sh); 
  { auto f = make_gf_from_fourier<0>(g, mr); VP_REQUIRE(f.mesh() == mr * mw * rt, "mesh of the transform of the first variable"); for (auto w : mw) for (auto t : rt) { gf<brzone, matrix_valued> x{mk, sh}; for (auto k : mk) x[k] = g[k, w, t]; auto y = make_gf_from_fourier(x, mr); for (auto r : mr) SAME(vals(f[r, w, t]), vals(y[r]), 1e-12, "transform of the first variable"); } gf<prod<cyclat, imfreq, retime>, matrix_valued> l{mr * mw * rt, sh}; l() = fourier<0>(g); SAME(flat(l.data()), flat(f.data()), 0, "assigned transform of the first variable"); }
  nda::array<dc, 5> km(4, mk.size(), L, sh[0], sh[1]); for (auto &x : km) x = s.cplx(-1, 1); km(0, nda::ellipsis{}) = 0;
  { auto f = make_gf_from_fourier<1>(g, mt, km); VP_REQUIRE(f.mesh() == mk * mt * rt, "mesh of the transform of the second variable"); for (auto k : mk) for (auto t : rt) { gf<imfreq, matrix_valued> x{mw, sh}; for (auto w : mw) x[w] = g[k, w, t]; nda::array<dc, 3> m = km(nda::range::all, k.data_index(), t.data_index(), nda::range::all, nda::range::all); auto y = make_gf_from_fourier(x, mt, m); for (auto u : mt) SAME(vals(f[k, u, t]), vals(y[u]), 1e-11, "transform of the second variable"); } }
  { auto f = make_gf_from_fourier<2>(g, rf); VP_REQUIRE(f.mesh() == mk * mw * rf, "mesh of the transform of the third variable"); for (auto k : mk) for (auto w : mw) { gf<retime, matrix_valued> x{rt, sh}; for (auto t : rt) x[t] = g[k, w, t]; auto y = make_gf_from_fourier(x, rf); for (auto u : rf) SAME(vals(f[k, w, u]), vals(y[u]), 1e-11, "transform of the third variable"); } auto m = make_gf_from_fourier<0, 2>(g, mr, rf); auto f2 = make_gf_from_fourier<0>(f, mr); VP_REQUIRE(m.mesh() == f2.mesh(), "mesh of a double transform"); SAME(flat(m.data()), flat(f2.data()), 1e-11, "double transform"); auto m3 = make_gf_from_fourier<0, 2>(g); SAME(flat(m3.data()), flat(m.data()), 1e-13, "double transform to the default meshes"); auto m4 = make_gf_from_multi_fourier<0, 2>(gf_const_view<prod<brzone, imfreq, retime>, matrix_valued>(g)); SAME(flat(m4.data()), flat(m.data()), 1e-13, "multiple transform"); }
  auto h = function<prod<imtime, cyclat>, scalar_real_valued>(s, mt * mr, {}); nda::array<dc, 2> k2(4, mr.size()); for (auto &x : k2) x = s.cplx(-1, 1); k2(0, nda::ellipsis{}) = 0; auto f = make_gf_from_fourier<0>(h, mw, k2); static_assert(std::is_same_v<decltype(f)::target_t, scalar_valued>); for (auto r : mr) { gf<imtime, scalar_real_valued> x{mt, S0}; for (auto t : mt) x[t] = h[t, r]; nda::array<dc, 1> m = k2(nda::range::all, r.data_index()); auto y = make_gf_from_fourier(x, mw, m); for (auto w : mw) VP_CLOSE(dc(f[w, r]), dc(y[w]), 1e-11, "transform of a real function of two variables"); } s.nontrivial(nc > 1 && mk.size() > 1); }
#endif // part
