// meshes: points, indices, values, closest points, interpolation, comparison, files, products
#include "vp.hpp"
#include <triqs/gfs.hpp>
using namespace triqs::mesh;
using dc = std::complex<double>;
static double genbeta(vp::Src &s) { return s.pick({1., 10., 0.5, s.generic(0.05, 100)}); }
static statistic_enum stat(vp::Src &s) { return s.boolean() ? Fermion : Boson; }
// enumeration: the data indices 0..n-1 in order, idx(d) the index of point d
template <typename M, typename F> static void points(M const &m, long n, F idx, char const *w) {
  VP_REQUIRE(long(m.size()) == n, w, ": size ", m.size(), " want ", n); long d = 0;
  for (auto p : m) { VP_REQUIRE(d < n, w, ": too many points"); auto i = idx(d); VP_REQUIRE(long(p.data_index()) == d && p.mesh_hash() == m.mesh_hash(), w, ": data index ", p.data_index(), " of point ", d);
    VP_REQUIRE(m.is_index_valid(i) && m.to_data_index(i) == d && m.to_index(d) == i, w, ": index ", i, " of point ", d, " to_data_index ", m.to_data_index(i), " to_index ", m.to_index(d)); auto q = m[d], r = m(i); VP_REQUIRE(long(q.data_index()) == d && long(r.data_index()) == d && q.index() == p.index() && r.index() == p.index() && q.mesh_hash() == p.mesh_hash(), w, ": point ", d, " by data index or index"); ++d; }
  VP_REQUIRE(d == n, w, ": ", d, " points enumerated, want ", n); long e = 0; for (auto it = m.cbegin(); it != m.cend(); ++it) VP_REQUIRE(long((*it).data_index()) == e++, w, ": constant iterator"); VP_REQUIRE(e == n, w, ": constant iterators"); }
template <typename M> static void file(M const &m, char const *w, M m2 = M{}) { h5::file f{}; h5::write(f, "m", m); h5::read(f, "m", m2); VP_REQUIRE(m2 == m && !(m2 != m) && m2.size() == m.size(), w, ": mesh read from a file"); auto c = m; VP_REQUIRE(c == m, w, ": copy"); M d; d = m; VP_REQUIRE(d == m, w, ": assigned"); }
VP_TEST(matsubara_frequencies) {
  double beta = genbeta(s); auto f = [&](matsubara_freq const &x) { return dc(0, M_PI * double(2 * x.n + (x.statistic == Fermion ? 1 : 0)) / beta); }; matsubara_freq x(s.integer(-50, 50), beta, stat(s)), y(s.integer(-50, 50), beta, stat(s)); s.say("beta ", beta, " x ", x.n, x.statistic, " y ", y.n, y.statistic);
  double t = 1e-12 * (1 + std::abs(f(x)) + std::abs(f(y))); VP_CLOSE(dc(x), f(x), t, "value"); statistic_enum st = (x.statistic == y.statistic) ? Boson : Fermion; auto sum = x + y, dif = x - y; auto neg = -x; VP_REQUIRE(sum.statistic == st && dif.statistic == st && neg.statistic == x.statistic && sum.beta == beta && dif.beta == beta && neg.beta == beta, "statistic of a sum, difference or opposite");
  VP_CLOSE(f(sum), f(x) + f(y), 3 * t, "sum"); VP_CLOSE(f(dif), f(x) - f(y), 3 * t, "difference"); VP_CLOSE(f(neg), -f(x), t, "opposite"); VP_CLOSE(dc(x * y), f(x) * f(y), 1e-12 * (1 + std::abs(f(x) * f(y))), "product"); if (std::abs(f(y)) > 0) VP_CLOSE(dc(x / y), f(x) / f(y), 1e-12 * (1 + std::abs(f(x) / f(y))), "quotient of frequencies ", f(x), " and ", f(y));
  dc z = s.cplx(-3, 3); double u = s.generic(0.5, 3); VP_CLOSE(dc(x + z), f(x) + z, 2 * t, "frequency + number"); VP_CLOSE(dc(z - x), z - f(x), 2 * t, "number - frequency"); VP_CLOSE(dc(x - u), f(x) - u, 2 * t, "frequency - number"); VP_CLOSE(dc(u * x), u * f(x), 9 * t, "number * frequency"); VP_CLOSE(dc(x / u), f(x) / u, 9 * t, "frequency / number"); if (std::abs(f(x)) > 0) VP_CLOSE(dc(u / x), u / f(x), 1e-11 * (1 + u / std::abs(f(x))), "number / frequency"); VP_CLOSE(dc(x * z), f(x) * z, 9 * t, "frequency * number");
  imfreq m(beta, x.statistic, 60); auto p = m(x.n); VP_CLOSE(dc(p + z), f(x) + z, 2 * t, "mesh point + number"); VP_CLOSE(dc(1 - p), 1. - f(x), 2 * t, "1 - mesh point"); if (y.statistic == x.statistic) { auto q = m(y.n); VP_CLOSE(f(p - q), f(x) - f(y), 3 * t, "difference of mesh points"); VP_CLOSE(f(p + q), f(x) + f(y), 3 * t, "sum of mesh points"); if (std::abs(f(y)) > 0) VP_CLOSE(dc(p / q), f(x) / f(y), 1e-12 * (1 + std::abs(f(x) / f(y))), "quotient of mesh points"); VP_REQUIRE(kronecker(x, y) == (x.n == y.n), "kronecker"); }
  VP_REQUIRE(kronecker(x) == (x.n == 0), "kronecker with zero"); s.nontrivial(x.statistic != y.statistic && x.n < 0); }
VP_TEST(imaginary_frequencies) {
  double beta = genbeta(s); auto st = stat(s); long n = s.integer(1, 12); bool pos = s.boolean(); imfreq m(beta, st, n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies); s.say("beta ", beta, st == Boson ? " bosons " : " fermions ", n, pos ? " positive" : "");
  long first = pos ? 0 : st == Fermion ? -n : -(n - 1), size = n - first; VP_REQUIRE(m.first_index() == first && m.last_index() == n - 1 && m.positive_only() == pos && m.beta() == beta && m.statistic() == st, "parameters"); points(m, size, [&](long d) { return d + first; }, "imfreq");
  auto w = [&](long i) { return dc(0, M_PI * double(2 * i + (st == Fermion ? 1 : 0)) / beta); }; double t = 1e-12 * (1 + std::abs(w(n))); VP_REQUIRE(!m.is_index_valid(n) && !m.is_index_valid(first - 1) && m.eval_to_zero(n) && m.eval_to_zero(first - 1) && !m.eval_to_zero(first) && !m.eval_to_zero(n - 1) && m.eval_to_zero(matsubara_freq(n, beta, st)), "indices out of the mesh");
  for (auto p : m) { VP_CLOSE(dc(p), w(p.index()), t, "value of point ", p.index()); VP_CLOSE(dc(m.to_value(p.index())), w(p.index()), t, "value of index ", p.index()); VP_REQUIRE(p.value().n == p.index() && p.value().beta == beta && p.value().statistic == st, "frequency of a point"); VP_REQUIRE(m.to_data_index(p.value()) == p.data_index() && m[closest_mesh_pt(p.value())].index() == p.index() && m.to_data_index(closest_mesh_pt(p.value())) == p.data_index() && m.to_index(closest_mesh_pt(p.value())) == p.index(), "closest point"); VP_REQUIRE(!m.eval_to_zero(p), "point in the mesh"); }
  if (!pos && st == Fermion) for (auto p : m) VP_REQUIRE(m.is_index_valid((-p).n), "opposite frequency"); VP_CLOSE(m.w_max(), w(n - 1), t, "highest frequency"); VP_CLOSE(dc(m.index_to_freq(n + 5)), w(n + 5), 2 * t, "frequency of an index"); auto g = m.get_positive_freq(); VP_REQUIRE(g.positive_only() && g.size() == n && g.beta() == beta && g.statistic() == st && (g == m) == pos, "positive part"); file(m, "imfreq");
  double b2 = beta * s.pick({2., 0.5, 1.0625}); auto o = pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies; VP_REQUIRE(imfreq(b2, st, n, o) != m && imfreq(beta, st, n + 1, o) != m && imfreq(beta, st == Boson ? Fermion : Boson, n, o) != m && imfreq(beta, st == Boson ? Fermion : Boson, n + (st == Boson ? -1 : 1), o) != m && imfreq(beta, st, n, pos ? imfreq::option::all_frequencies : imfreq::option::positive_frequencies_only) != m, "different meshes are equal"); VP_REQUIRE(imfreq(beta, st, n, o) == m, "equal meshes are different");
  double E = M_PI / beta * s.generic(5, 40); imfreq me(beta, st, energy_t(E), o); double top = std::abs(me.w_max()); VP_REQUIRE(top <= E * (1 + 1e-12) && E - top < 6.0001 * M_PI / beta && me.positive_only() == pos, "energy window ", E, " gives frequencies up to ", top);
  std::vector<dc> f(size); for (auto &x : f) x = s.cplx(-1, 1); auto F = [&](long i) { return f.at(i - first); }; long i = s.integer(first, n - 1); VP_REQUIRE(dc(evaluate(m, F, matsubara_freq(i, beta, st))) == F(i) && dc(evaluate(m, F, i)) == F(i) && dc(evaluate(m, F, m(i))) == F(i), "evaluation at frequency ", i); s.nontrivial(n > 1 && (pos || st == Boson)); }
template <typename M, typename Mk, typename H> static void lin(vp::Src &s, M const &m, double a, double b, long n, Mk mk, H hdf, char const *w) {
  points(m, n, [](long d) { return d; }, w); double dx = n > 1 ? (b - a) / double(n - 1) : 0, sc = std::max(std::abs(a), std::abs(b)); if (n > 1) VP_CLOSE(m.delta(), dx, 1e-14 * sc, w, ": step"); if (n > 1 && dx > 0) VP_CLOSE(m.delta_inv() * dx, 1., 1e-12, w, ": inverse step"); VP_REQUIRE(m.first_index() == 0 && m.last_index() == n - 1 && !m.is_index_valid(n) && !m.is_index_valid(-1), w, ": indices");
  auto val = [&](long i) { return n == 1 ? a : a + dx * double(i); }; for (auto p : m) { VP_CLOSE(p.value(), val(p.index()), 1e-13 * sc, w, ": value of point ", p.index()); VP_REQUIRE(p.value() == m.to_value(p.index()) && double(p) == p.value() && p.value() >= a && p.value() <= b, w, ": value ", p.value(), " of point ", p.index()); VP_REQUIRE(p + 1. == p.value() + 1. && 2. * p == 2 * p.value() && p - p == 0 && 1. - p == 1. - p.value() && (p / 2.) == p.value() / 2, w, ": arithmetic of a point"); }
  VP_REQUIRE(m.to_value(0) == a && (n == 1 || m.to_value(n - 1) == b), w, ": the ends are ", m.to_value(0), " and ", m.to_value(n - 1));
  for (int k = 0; k < 4; ++k) { double x = k == 0 ? a : k == 1 ? b : s.chance(1, 3) ? std::clamp(val(s.integer(0, n - 1)), a, b) : std::clamp(a + (b - a) * s.unit(), a, b); long i = m.to_index(closest_mesh_pt(x)); double best = 1e300; for (long j = 0; j < n; ++j) best = std::min(best, std::abs(val(j) - x)); VP_REQUIRE(i >= 0 && i < n && std::abs(val(i) - x) <= best + 1e-12 * sc, w, ": the point closest to ", x, " is ", i); VP_REQUIRE(m.to_data_index(closest_mesh_pt(x)) == i && m[closest_mesh_pt(x)].index() == i, w, ": closest mesh point"); }
  file(m, w); hdf(m); VP_REQUIRE(mk(a, b, n) == m && mk(a, b, n + 1) != m && mk(a, b + std::abs(b) / 2 + 1, n) != m, w, ": comparison");
  if (n > 1 && b > a) { std::vector<dc> f(n); for (auto &x : f) x = s.cplx(-1, 1); auto F = [&](long i) { return f.at(i); }; for (int k = 0; k < 4; ++k) { long j = s.integer(0, n - 2); double u = s.pick({0., 1., s.unit()}); double x = k == 0 ? a : k == 1 ? b : std::clamp(val(j) + u * dx, a, b); if (k == 0) j = 0, u = 0; if (k == 1) j = n - 2, u = 1; dc want = (1 - u) * f[j] + u * f[j + 1]; VP_CLOSE(dc(evaluate(m, F, x)), want, 1e-9 + 1e-13 * sc / dx, w, ": interpolation at ", x); }
    long j = s.integer(0, n - 1); VP_CLOSE(dc(evaluate(m, F, m[j])), f[j], 1e-9 + 1e-13 * sc / dx, w, ": value at a mesh point"); VP_REQUIRE(dc(evaluate(m, F, j)) == f[j], w, ": value at an index"); dc c = s.cplx(-1, 1), d = s.cplx(-1, 1); double x = a + (b - a) * s.unit(); VP_CLOSE(dc(evaluate(m, [&](long i) { return c + d * val(i); }, x)), c + d * x, 1e-11 * (1 + sc), w, ": a straight line"); } }
VP_TEST(imaginary_times) { double beta = genbeta(s); auto st = stat(s); long n = s.integer(1, 15); imtime m(beta, st, n); s.say("beta ", beta, " ", n); VP_REQUIRE(m.beta() == beta && m.statistic() == st, "parameters"); lin(s, m, 0, beta, n, [&](double, double b, long k) { return imtime(b, st, k); }, [&](imtime const &m) { h5::file f{}; h5::write(f, "x", m); imtime r; h5::read(f, "x", r); VP_REQUIRE(r.beta() == beta && r.statistic() == st, "read parameters"); }, "imtime"); VP_REQUIRE(imtime(beta, st == Boson ? Fermion : Boson, n) != m, "statistics"); s.nontrivial(n > 2 && beta != 1); }
VP_TEST(real_frequencies_and_times) { double a = s.pick({0., -1., s.generic(-20, 20)}), b = a + s.pick({1., 2., s.generic(0.01, 30)}); long n = s.integer(1, 15); bool w = s.boolean(); s.say(a, "..", b, " ", n); if (n == 1 && s.boolean()) b = a;
  if (w) { refreq m = s.boolean() ? refreq(a, b, n) : refreq(std::pair<double, double>(a, b), int(n)); VP_REQUIRE(m.w_min() == a && m.w_max() == b, "window"); lin(s, m, a, b, n, [](double a, double b, long k) { return refreq(a, b, k); }, [](refreq const &) {}, "refreq"); VP_REQUIRE(n == 1 || refreq(a - 1, b, n) != m, "lower end"); VP_REQUIRE(refreq(a - 0.5, b - 0.5, n).mesh_hash() != m.mesh_hash() && refreq(a - 0.5, b, n).mesh_hash() != m.mesh_hash() && refreq(a, b, n + 1).mesh_hash() != m.mesh_hash() && refreq(a, b, n).mesh_hash() == m.mesh_hash(), "the hash does not tell meshes apart"); }
  else { retime m = s.boolean() ? retime(a, b, n) : retime(std::pair<double, double>(a, b), int(n)); VP_REQUIRE(m.t_min() == a && m.t_max() == b, "window"); lin(s, m, a, b, n, [](double a, double b, long k) { return retime(a, b, k); }, [](retime const &) {}, "retime"); VP_REQUIRE(n == 1 || retime(a - 1, b, n) != m, "lower end"); VP_REQUIRE(retime(a - 0.5, b - 0.5, n).mesh_hash() != m.mesh_hash() && retime(a - 0.5, b, n).mesh_hash() != m.mesh_hash() && retime(a, b, n + 1).mesh_hash() != m.mesh_hash() && retime(a, b, n).mesh_hash() == m.mesh_hash(), "the hash does not tell meshes apart"); } s.nontrivial(n > 2 && a != 0); }
VP_TEST(legendre_and_discrete) {
  double beta = genbeta(s); auto st = stat(s); long n = s.integer(1, 20); legendre m(beta, st, n); s.say("beta ", beta, " ", n); points(m, n, [](long d) { return d; }, "legendre"); VP_REQUIRE(m.beta() == beta && m.statistic() == st && !m.is_index_valid(n) && !m.is_index_valid(-1), "legendre parameters"); file(m, "legendre"); VP_REQUIRE(legendre(beta, st, n) == m && legendre(beta, st, n + 1) != m && legendre(beta * 2, st, n) != m && legendre(beta, st == Boson ? Fermion : Boson, n) != m && legendre(beta, st == Boson ? Fermion : Boson, n + (st == Boson ? -1 : 1)) != m, "legendre comparison");
  std::vector<dc> f(n); for (auto &x : f) x = s.cplx(-1, 1); double tau = beta * s.pick({0., 1., 0.5, s.unit()}); double x = 2 * tau / beta - 1; dc want = 0; for (long l = 0; l < n; ++l) want += f[l] * std::sqrt(2 * l + 1.) / beta * (x >= 0 ? std::legendre(unsigned(l), x) : (l % 2 ? -1 : 1) * std::legendre(unsigned(l), -x)); VP_CLOSE(dc(evaluate(m, [&](long l) { return f.at(l); }, tau)), want, 1e-10 * double(n) / beta, "series at ", tau);
  VP_REQUIRE(dc(evaluate(m, [&](auto const &p) { if constexpr (std::is_integral_v<std::decay_t<decltype(p)>>) return f.at(p); else return f.at(p.data_index()); }, m[n - 1])) == f[n - 1], "coefficient at a mesh point"); discrete d(n); points(d, n, [](long i) { return i; }, "discrete"); VP_REQUIRE(!d.is_index_valid(n) && !d.is_index_valid(-1) && discrete(n) == d && discrete(n + 1) != d, "discrete"); file(d, "discrete"); s.nontrivial(n > 2 && tau > 0); }
VP_TEST(dlr_meshes) {
  double beta = s.pick({1., 5., 20., s.generic(0.5, 30)}), wm = s.pick({1., 2., s.generic(0.5, 4)}), eps = s.pick({1e-6, 1e-8, 1e-10}); auto st = stat(s); dlr c(beta, st, wm, eps); dlr_imtime t(c); dlr_imfreq w(c); long n = c.size(); s.say("beta ", beta, " w_max ", wm, " eps ", eps, " size ", n); VP_REQUIRE(n > 1 && t.size() == n && w.size() == n, "sizes ", n, " ", t.size(), " ", w.size()); points(c, n, [](long d) { return d; }, "dlr"); points(t, n, [](long d) { return d; }, "dlr_imtime");
  auto par = [&](auto const &m) { VP_REQUIRE(m.beta() == beta && m.statistic() == st && m.w_max() == wm && m.eps() == eps && !m.is_index_valid(n) && !m.is_index_valid(-1), "parameters"); using M = std::decay_t<decltype(m)>; VP_REQUIRE(M(beta, st, wm, eps) == m, "equal meshes are different"); VP_REQUIRE(M(beta, st == Boson ? Fermion : Boson, wm, eps) != m && M(beta * 2, st, wm, eps) != m && M(beta, st, wm * 2, eps) != m && M(beta, st, wm, eps / 10) != m, "different meshes are equal"); if (beta != wm) VP_REQUIRE(M(wm, st, beta, eps) != m, "the meshes of beta ", beta, ", w_max ", wm, " and of beta ", wm, ", w_max ", beta, " are equal"); VP_REQUIRE(M(c) == m && M(t) == m && M(w) == m, "conversion between the meshes"); file(m, "dlr"); { h5::file f{}; h5::write(f, "m", m); M r; h5::read(f, "m", r); VP_REQUIRE(r.beta() == beta && r.statistic() == st && r.w_max() == wm && r.eps() == eps && r.mesh_hash() == m.mesh_hash(), "parameters read from a file"); long q = 0; for (auto p : r) VP_REQUIRE(dc(p.value()) == dc(m[q++].value()), "points read from a file"); } }; 
  if (s.chance(1, 3)) par(c); else if (s.boolean()) par(t); else par(w); static_assert(std::is_same_v<dlr_imtime::mesh_point_t::mesh_t, dlr_imtime>); static_assert(std::is_same_v<dlr_imfreq::mesh_point_t::mesh_t, dlr_imfreq>);
  for (long d = 0; d < n; ++d) { double tau = t[d].value(); VP_REQUIRE(tau >= 0 && tau <= beta && t.to_value(d) == tau && double(t[d]) == tau, "time ", tau, " of node ", d); for (long e = 0; e < d; ++e) VP_REQUIRE(std::abs(tau - t[e].value()) > 0, "two equal times"); auto iw = w[d]; VP_REQUIRE(iw.data_index() == d && iw.value().beta == beta && iw.value().statistic == st && w.to_value(d).n == iw.value().n && w(d).value().n == iw.value().n, "frequency of node ", d); for (long e = 0; e < d; ++e) VP_REQUIRE(w[e].value().n != iw.value().n, "two equal frequencies"); VP_REQUIRE(c[d].value() == c.dlr_freq()[d] && std::abs(c[d].value()) <= wm * beta * (1 + 1e-12), "pole ", d); }
  auto [lo, hi] = w.min_max_frequencies(); VP_REQUIRE(lo.n == w[0].value().n && hi.n == w[n - 1].value().n, "extreme frequencies"); std::vector<double> f(n); for (auto &x : f) x = s.generic(-1, 1); auto F = [&](long l) { return f.at(l); }; double tau = beta * s.pick({0., 1., s.unit()}); long k = s.integer(-20, 20); double et = 0; dc ew = 0; dc iw(0, M_PI * double(2 * k + (st == Fermion ? 1 : 0)) / beta);
  for (long l = 0; l < n; ++l) { double om = c.dlr_freq()[l] / beta; double K = om > 0 ? -std::exp(-tau * om) / (1 + std::exp(-beta * om)) : -std::exp((beta - tau) * om) / (1 + std::exp(beta * om)); et += f[l] * K; if (std::abs(iw - om) > 0) ew += f[l] / (iw - om) * (st == Fermion ? 1. : std::tanh(beta * om / 2)); else ew += f[l] * (-beta / 2); }
  VP_CLOSE(evaluate(c, F, tau), et, 1e-10 * double(n), "time ", tau); VP_CLOSE(dc(evaluate(c, F, matsubara_freq(k, beta, st))), ew, 1e-9 * (1 + std::abs(ew)) * double(n), "frequency ", k); VP_REQUIRE(evaluate(c, F, n - 1) == f[n - 1], "coefficient at an index"); s.nontrivial(n > 5 && beta != 1); }
// products
template <typename A, typename B, typename C> static void prods(vp::Src &s, A const &a, B const &b, C const &c) {
  auto m = a * b; auto m3 = s.boolean() ? (a * b) * c : a * (b * c); VP_REQUIRE(long(m.size()) == long(a.size() * b.size()) && long(m3.size()) == long(a.size() * b.size() * c.size()), "size of a product ", m3.size()); auto sz = m3.size_of_components(); VP_REQUIRE(sz[0] == long(a.size()) && sz[1] == long(b.size()) && sz[2] == long(c.size()), "sizes of the components");
  auto it = m3.begin(); long n = 0; for (auto x : a) for (auto y : b) for (auto z : c) { VP_REQUIRE(it != m3.end(), "too few points"); auto p = *it; ++it; ++n; auto id = std::make_tuple(x.index(), y.index(), z.index()); auto dd = std::make_tuple(x.data_index(), y.data_index(), z.data_index()); VP_REQUIRE(p.index() == id && p.data_index() == dd, "point ", n); VP_REQUIRE(std::get<0>(p).index() == x.index() && std::get<1>(p).index() == y.index() && std::get<2>(p).index() == z.index() && std::get<1>(p).data_index() == y.data_index(), "components of point ", n); if (n % 7 == 1) { VP_REQUIRE(m3[dd].index() == id && m3[dd].data_index() == dd && m3[dd].mesh_hash() == p.mesh_hash(), "point by data index"); if constexpr (!std::is_same_v<A, dlr_imfreq> && !std::is_same_v<C, dlr_imfreq>) VP_REQUIRE(m3(id).data_index() == dd && m3.to_data_index(id) == dd && m3.to_index(dd) == id && m3.is_index_valid(id) && m3.is_index_valid(x.index(), y.index(), z.index()), "point by index"); auto bad = id; if constexpr (std::is_same_v<decltype(y.index()), long>) { std::get<1>(bad) = 1000000; VP_REQUIRE(!m3.is_index_valid(bad) && !m3.is_index_valid(std::get<0>(bad), std::get<1>(bad), std::get<2>(bad)), "index out of range"); } } } VP_REQUIRE(it == m3.end(), "too many points");
  using P = std::decay_t<decltype(m3)>; P r; if constexpr (requires { file(m3, "", r); }) file(m3, "product", r); VP_REQUIRE(m3 == P(a, b, c) && std::get<0>(m3) == a && std::get<2>(m3.components()) == c, "components"); VP_REQUIRE(triqs::mesh::is_product<P> && triqs::mesh::n_variables<P> == 3, "number of variables"); }
VP_TEST(products) {
  double beta = genbeta(s); auto st = stat(s); long n1 = s.integer(1, 4), n2 = s.integer(1, 5), n3 = s.integer(1, 4); imfreq iw(beta, st, n1, s.boolean() ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies); imtime tau(beta, st, n2); refreq w(-1, s.generic(0, 3), n3); legendre l(beta, st, n3); discrete d(n2); s.say(n1, " ", n2, " ", n3); auto bl = triqs::lattice::bravais_lattice(nda::eye<double>(2)); brzone k(triqs::lattice::brillouin_zone{bl}, {n1, n2, 1}); cyclat R(bl, {n3, n1, 1});
  switch (s.raw(5)) { case 0: prods(s, iw, tau, w); break; case 1: prods(s, iw, iw, l); break; case 2: prods(s, k, iw, d); break; case 3: prods(s, d, R, tau); break; case 4: prods(s, w, d, k); break; default: prods(s, dlr_imtime(beta, st, 1., 1e-6), k, R); }
  auto m = iw * tau; VP_REQUIRE(m == iw * tau && m != iw * imtime(beta, st, n2 + 1) && m != imfreq(2 * beta, st, n1) * tau, "comparison of products");
  // evaluation: each variable is treated by its mesh
  if (n2 > 1) { std::vector<dc> f(iw.size() * n2); for (auto &x : f) x = s.cplx(-1, 1); auto F = [&](auto const &i, auto const &j) { return f.at(iw.to_data_index(i) * n2 + j); }; long i = s.integer(iw.first_index(), iw.last_index()); long j = s.integer(0, n2 - 2); double u = s.unit(); double x = std::min(beta, (j + u) * beta / double(n2 - 1)); VP_CLOSE(dc(evaluate(m, F, matsubara_freq(i, beta, st), x)), (1 - u) * F(i, j) + u * F(i, j + 1), 1e-9, "value of a function on a product"); VP_REQUIRE(dc(evaluate(m, F, i, j)) == F(i, j), "value at indices"); }
  s.nontrivial(n1 > 1 && n2 > 1 && n3 > 1); }
