// statistics: binning accumulators, mean, standard error, jackknife and histograms
#include "vp.hpp"
#include <triqs/stat/accumulator.hpp>
#include <triqs/stat/jackknife.hpp>
#include <triqs/stat/histograms.hpp>
using dc = std::complex<double>; using namespace triqs::stat; using V = std::vector<dc>;
template <typename T> struct Tr; // a value as a list of numbers
template <> struct Tr<double> { static V flat(double x) { return {x}; } static double make(V const &v) { return v[0].real(); } static constexpr int n = 1; static constexpr bool cplx = false; };
template <> struct Tr<dc> { static V flat(dc x) { return {x}; } static dc make(V const &v) { return v[0]; } static constexpr int n = 1; static constexpr bool cplx = true; };
template <> struct Tr<nda::array<double, 1>> { template <typename A> static V flat(A const &x) { return V(x.begin(), x.end()); } static nda::array<double, 1> make(V const &v) { nda::array<double, 1> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a(i) = v[i].real(); return a; } static constexpr int n = 3; static constexpr bool cplx = false; };
template <> struct Tr<nda::array<dc, 2>> { template <typename A> static V flat(A const &x) { return V(x.begin(), x.end()); } static nda::array<dc, 2> make(V const &v) { nda::array<dc, 2> a(2, 2); for (int i = 0; i < 4; ++i) a(i / 2, i % 2) = v[i]; return a; } static constexpr int n = 4; static constexpr bool cplx = true; };
template <typename T> V flat(T const &x) { if constexpr (std::is_arithmetic_v<T>) return {dc(x)}; else if constexpr (std::is_same_v<T, dc>) return {x}; else { V v; for (auto const &y : x) v.push_back(dc(y)); return v; } }
static V zero(size_t n) { return V(n, 0.); }
static V mean_of(std::vector<V> const &d, size_t a, size_t b, int n) { V m = zero(n); for (size_t i = a; i < b; ++i) for (int c = 0; c < n; ++c) m[c] += d[i][c]; for (auto &x : m) x /= double(b - a); return m; }
static V sq_err(std::vector<V> const &d, int n) { V m = mean_of(d, 0, d.size(), n), e = zero(n); for (auto &x : d) for (int c = 0; c < n; ++c) e[c] += std::norm(x[c] - m[c]); for (auto &x : e) x = std::sqrt(x.real() / (double(d.size()) * (double(d.size()) - 1))); return e; }
static void close(V const &a, V const &b, double tol, std::string const &msg) { VP_REQUIRE(a.size() == b.size(), msg, ": ", a.size(), " elements instead of ", b.size()); for (size_t i = 0; i < a.size(); ++i) VP_CLOSE(a[i], b[i], tol, msg, ", element ", i); }
struct Data { // numbers with an offset, a scale and correlations
  double off, sc, rho; int n; bool cplx; std::mt19937_64 g; V last;
  Data(vp::Src &s, int n, bool cplx) : off(s.chance(1, 3) ? s.generic(-50, 50) : 0), sc(s.pick({1., 1., 1e-3, 100.})), rho(s.chance(1, 2) ? 0 : s.unit()), n(n), cplx(cplx), g(s.raw(~0ull)), last(zero(n)) {}
  V operator()() { std::uniform_real_distribution<double> u(-1, 1); for (auto &x : last) { dc y(u(g), cplx ? u(g) : 0); x = rho * x + (1 - rho) * y; } V r = last; for (auto &x : r) x = off + sc * x; return r; }
  double mag() const { return std::abs(off) + sc; } };
// the reference: every datum is kept
struct Ref {
  std::vector<V> d; std::vector<std::vector<size_t>> bins; long cap; int maxn, n;
  Ref(long cap, int maxn, int n) : cap(cap), maxn(maxn), n(n) {}
  void add(V const &x) { d.push_back(x); if (maxn == 0) return; size_t k = d.size() - 1;
    if (maxn > 1 && long(bins.size()) == maxn && long(bins.back().size()) == cap) compress(2);
    if (bins.empty() || (maxn != 1 && long(bins.back().size()) == cap)) bins.push_back({}); bins.back().push_back(k); }
  void compress(int f) { if (f < 2 || maxn == 0) return; std::vector<std::vector<size_t>> r; for (size_t i = 0; i < bins.size(); i += f) { r.push_back({}); for (size_t j = i; j < std::min(bins.size(), i + f); ++j) r.back().insert(r.back().end(), bins[j].begin(), bins[j].end()); } bins = r; cap *= f; }
  std::vector<V> lin() const { std::vector<V> r; for (auto &b : bins) { V m = zero(n); for (auto k : b) for (int c = 0; c < n; ++c) m[c] += d[k][c] / double(b.size()); r.push_back(m); } if (bins.empty() && maxn != 0) r.push_back(zero(n)); return r; }
  std::vector<V> level(int l) const { std::vector<V> r; size_t w = size_t(1) << l; for (size_t i = 0; i + w <= d.size(); i += w) r.push_back(mean_of(d, i, i + w, n)); return r; }
  int n_log(int m) const { if (m == 0) return 0; int k = 1; while ((m < 0 || k < m) && (d.size() >> k) >= 1) ++k; return k; } };
static std::vector<std::pair<V, long>> ref_errors(std::vector<Ref const *> rs, std::vector<int> m) { // levels over all ranks
  std::vector<std::pair<V, long>> r; int top = 0; for (size_t i = 0; i < rs.size(); ++i) top = std::max(top, rs[i]->n_log(m[i]));
  for (int l = 0; l < top; ++l) { std::vector<V> all; for (size_t i = 0; i < rs.size(); ++i) if (rs[i]->n_log(m[i]) > l) for (auto &x : rs[i]->level(l)) all.push_back(x); r.emplace_back(all.size() <= 1 ? zero(rs[0]->n) : sq_err(all, rs[0]->n), long(all.size())); } return r; }
template <typename R> void check_errors(R const &got, std::vector<std::pair<V, long>> const &want, double tol, std::string const &what) {
  VP_REQUIRE(got.first.size() == want.size() && got.second.size() == want.size(), what, ": ", got.first.size(), " levels instead of ", want.size()); for (size_t l = 0; l < want.size(); ++l) { VP_REQUIRE(got.second[l] == want[l].second, what, ": ", got.second[l], " bins at level ", l, " instead of ", want[l].second); close(flat(got.first[l]), want[l].first, tol, what + ", level " + std::to_string(l)); } }
template <typename T> void check_acc(accumulator<T> const &a, Ref const &r, int nlog, double mag, char const *what) {
  std::string w = what; VP_REQUIRE(a.data_input_count() == long(r.d.size()), w, ": ", a.data_input_count(), " data"); VP_REQUIRE(a.n_log_bins_max() == nlog && a.n_lin_bins_max() == r.maxn, w, ": limits"); VP_REQUIRE(a.n_log_bins() == r.n_log(nlog), w, ": ", a.n_log_bins(), " levels after ", r.d.size(), " data");
  auto L = r.lin(); auto const &B = a.linear_bins(); VP_REQUIRE(B.size() == L.size() && a.n_lin_bins() == long(L.size()), w, ": ", B.size(), " linear bins instead of ", L.size()); if (r.maxn != 1) VP_REQUIRE(a.lin_bin_capacity() == r.cap, w, ": capacity ", a.lin_bin_capacity(), " instead of ", r.cap); for (size_t i = 0; i < L.size(); ++i) close(Tr<T>::flat(B[i]), L[i], 1e-11 * mag, w + ": linear bin " + std::to_string(i));
  check_errors(a.log_bin_errors(), ref_errors({&r}, {nlog}), 1e-6 * mag * 1e-3 + 1e-10 * mag, w + ": errors"); }
template <typename T> void accu(vp::Src &s) {
  int n = Tr<T>::n; Data gen(s, n, Tr<T>::cplx); double mag = gen.mag(); int nlog = s.chance(1, 3) ? -1 : int(s.integer(0, 6)), nlin = s.chance(1, 3) ? -1 : int(s.integer(0, 7)), cap = int(s.integer(1, 4)); T inst = Tr<T>::make(gen());
  accumulator<T> a(inst, nlog, nlin, cap); Ref r(cap, nlin, n); bool file = false, comp = false, autoc = false; s.say("log bins ", nlog, " linear bins ", nlin, " capacity ", cap); check_acc(a, r, nlog, mag, "empty");
  int steps = int(s.integer(1, 12)); for (int k = 0; k < steps; ++k) switch (s.raw(8)) {
    case 0: { int f = s.pick({2, 3, 4, 5, 7, 0, 1, -2}); s.say(" compress ", f); a.compress_linear_bins(f); r.compress(f); comp |= f > 1 && r.bins.size() > 0; check_acc(a, r, nlog, mag, "after a compression"); break; }
    case 1: { s.say(" file"); h5::file f{}; h5_write(f, "a", a); accumulator<T> b; if (s.boolean()) b = accumulator<T>(inst, int(s.integer(-1, 4)), int(s.integer(-1, 4)), 2); if (s.boolean()) b << inst; h5_read(f, "a", b); check_acc(b, r, nlog, mag, "read from a file"); a = b; file = true; break; }
    case 2: { s.say(" copy"); accumulator<T> b = a; if (s.boolean()) { T x = Tr<T>::make(gen()); b << x; check_acc(a, r, nlog, mag, "source of a copy"); } else { a = std::move(b); } break; }
    default: { int m = s.chance(1, 4) ? 1 : int(s.integer(1, s.chance(1, 5) ? 200 : 24)); long c0 = r.cap; s.say(" ", m); for (int i = 0; i < m; ++i) { T x = Tr<T>::make(gen()); if (s.chance(1, 2) || i + 1 < m) { a << x; r.add(Tr<T>::flat(x)); } else { T y = Tr<T>::make(gen()); a << x << y; r.add(Tr<T>::flat(x)); r.add(Tr<T>::flat(y)); } } autoc |= r.cap != c0; check_acc(a, r, nlog, mag, "after data"); } }
  if (file) s.label("file"); if (autoc) s.label("automatic compression"); s.nontrivial(r.d.size() > 4 && r.bins.size() > 1 && (comp || autoc || nlog > 1 || nlog < 0)); }
VP_TEST(bins_real) { accu<double>(s); }
VP_TEST(bins_complex) { accu<dc>(s); }
VP_TEST(bins_vector) { accu<nda::array<double, 1>>(s); }
VP_TEST(bins_matrix) { accu<nda::array<dc, 2>>(s); }
template <typename F> static void on_ranks(int R, F f) { mpi::run_ranks(R, f); }
// log-binned errors and averages over several ranks
template <typename T> void over_ranks(vp::Src &s) {
  int n = Tr<T>::n, R = int(s.integer(1, 4)); Data gen(s, n, Tr<T>::cplx); double mag = gen.mag(); std::vector<int> nlog(R), cnt(R); std::vector<Ref> rf; std::vector<std::vector<T>> d(R); bool same = s.boolean(); nlog[0] = s.pick({-1, -1, 1, 2, 5}); std::vector<V> all;
  for (int i = 0; i < R; ++i) { nlog[i] = same ? nlog[0] : s.pick({-1, 1, 2, 3, 6}); cnt[i] = s.chance(1, 4) ? int(s.integer(1, 3)) : int(s.integer(1, 70)); rf.emplace_back(1, 0, n); for (int k = 0; k < cnt[i]; ++k) { d[i].push_back(Tr<T>::make(gen())); rf[i].add(Tr<T>::flat(d[i].back())); all.push_back(rf[i].d.back()); } s.say(" ", cnt[i], "/", nlog[i]); }
  bool none = s.chance(1, 8); int who = int(s.raw(R - 1)); if (none) { rf[who].d.clear(); }
  std::vector<Ref const *> p; for (auto &x : rf) p.push_back(&x); auto want = ref_errors(p, nlog); V M = mean_of(all, 0, all.size(), n), E = all.size() > 1 ? sq_err(all, n) : zero(n);
  on_ranks(R, [&](int r) { mpi::communicator c; accumulator<T> a(d[r][0], nlog[r], 0); if (!(none && r == who)) for (auto &x : d[r]) a << x; check_errors(a.log_bin_errors_all_reduce(c), want, 1e-9 * mag, "rank " + std::to_string(r));
    close(flat(mean(d[r])), mean_of(rf[r].d.empty() ? all : rf[r].d, 0, rf[r].d.empty() ? all.size() : rf[r].d.size(), n), rf[r].d.empty() ? 1e300 : 1e-12 * mag, "mean"); close(flat(mean_mpi(c, d[r])), M, 1e-12 * mag, "mean over the ranks");
    if (d[r].size() > 1 && !rf[r].d.empty()) { auto [m, e] = mean_and_err(d[r]); close(flat(m), mean_of(rf[r].d, 0, rf[r].d.size(), n), 1e-12 * mag, "mean with error"); close(flat(e), sq_err(rf[r].d, n), 1e-9 * mag, "standard error"); }
    if (all.size() > 1) { auto [m, e] = mean_and_err_mpi(c, d[r]); close(flat(m), M, 1e-12 * mag, "mean with error over the ranks"); close(flat(e), E, 1e-9 * mag, "standard error over the ranks"); } });
  s.nontrivial(R > 1 && want.size() > 1); }
VP_TEST(ranks_real) { over_ranks<double>(s); }
VP_TEST(ranks_complex) { over_ranks<dc>(s); }
VP_TEST(ranks_array) { if (s.boolean()) over_ranks<nda::array<double, 1>>(s); else over_ranks<nda::array<dc, 2>>(s); }
// jackknife: functions of one or two series, on one or several ranks
template <typename T, typename F, typename G> void jack(vp::Src &s, F f, G ref, int ns) { // ref works on flattened averages
  int n = Tr<T>::n, R = int(s.integer(1, 4)); Data gen(s, n, Tr<T>::cplx); gen.sc = s.pick({1., 0.3}); gen.off = s.pick({3., -4., 7.5}); std::vector<std::array<std::vector<T>, 2>> d(R); std::array<std::vector<V>, 2> all; size_t least = 1000; double mag = 100;
  for (int i = 0; i < R; ++i) { int k = s.chance(1, 3) ? int(s.integer(2, 3)) : int(s.integer(2, 40)); least = std::min(least, size_t(k)); s.say(" ", k); for (int q = 0; q < 2; ++q) for (int j = 0; j < k; ++j) { d[i][q].push_back(Tr<T>::make(gen())); all[q].push_back(Tr<T>::flat(d[i][q].back())); } }
  struct Out { V avg, err, M, dir; };
  auto compute = [&](std::array<std::vector<V>, 2> const &x) { double N = double(x[0].size()); std::array<V, 2> tot; for (int q = 0; q < 2; ++q) { tot[q] = mean_of(x[q], 0, x[q].size(), n); for (auto &y : tot[q]) y *= N; } auto samp = [&](long i) { std::array<V, 2> a = tot; for (int q = 0; q < 2; ++q) for (int c = 0; c < n; ++c) a[q][c] = i < 0 ? tot[q][c] / N : (tot[q][c] - x[q][i][c]) / (N - 1); return ref(a[0], a[1]); };
    Out o; o.dir = samp(-1); o.M = zero(n); for (long i = 0; i < long(N); ++i) { V y = samp(i); for (int c = 0; c < n; ++c) o.M[c] += y[c] / N; } o.err = zero(n); for (long i = 0; i < long(N); ++i) { V y = samp(i); for (int c = 0; c < n; ++c) o.err[c] += std::norm(y[c] - o.M[c]); } o.avg = zero(n); for (int c = 0; c < n; ++c) { o.err[c] = std::sqrt((N - 1) / N * o.err[c].real()); o.avg[c] = N * o.dir[c] - (N - 1) * o.M[c]; } return o; };
  auto comp = [&](auto const &got, Out const &w, std::string const &what) { close(flat(std::get<3>(got)), w.dir, 1e-10 * mag, what + ": function of the averages"); close(flat(std::get<2>(got)), w.M, 1e-10 * mag, what + ": jackknife average"); close(flat(std::get<1>(got)), w.err, 1e-8 * mag, what + ": error"); close(flat(std::get<0>(got)), w.avg, 1e-8 * mag, what + ": corrected average"); };
  Out W = compute(all); bool viaacc = s.boolean();
  on_ranks(R, [&](int r) { mpi::communicator c; auto &x = d[r]; std::array<std::vector<V>, 2> loc; for (int q = 0; q < 2; ++q) for (auto &y : x[q]) loc[q].push_back(Tr<T>::flat(y)); Out w = compute(loc); std::string k = "rank " + std::to_string(r);
    auto acc = [&](std::vector<T> const &v) { accumulator<T> a(v[0], 0, -1, 1); for (auto &y : v) a << y; return a; };
    if constexpr (std::is_invocable_v<F, T, T>) { comp(jackknife(f, x[0], x[1]), w, k); if (viaacc) { auto a = acc(x[0]), b = acc(x[1]); comp(jackknife(f, a, b), w, k + ", accumulators"); comp(jackknife_mpi(c, f, a, b), W, k + ", accumulators of all"); } else comp(jackknife_mpi(c, f, x[0], x[1]), W, k + " of all"); std::vector<T> sh(x[1].begin(), x[1].end() - 1); VP_REQUIRE(vp::throws([&] { jackknife(f, x[0], sh); }), "series of different lengths are accepted"); }
    else { comp(jackknife(f, x[0]), w, k); if (viaacc) { auto a = acc(x[0]); comp(jackknife(f, a), w, k + ", accumulator"); comp(jackknife_mpi(c, f, a), W, k + ", accumulators of all"); } else comp(jackknife_mpi(c, f, x[0]), W, k + " of all"); } });
  { std::vector<T> none; if constexpr (!std::is_invocable_v<F, T, T>) VP_REQUIRE(vp::throws([&] { jackknife(f, none); }), "a series without data is accepted"); }
  s.nontrivial(all[0].size() > 3); (void)ns; }
VP_TEST(jackknife_real) { switch (s.raw(2)) {
  case 0: jack<double>(s, [](double x) { return 1 / (x * x + 1); }, [](V a, V) { return V{1. / (a[0] * a[0] + 1.)}; }, 1); break;
  case 1: jack<double>(s, [](double x, double y) { return x / (y * y + 1) + x * y; }, [](V a, V b) { return V{a[0] / (b[0] * b[0] + 1.) + a[0] * b[0]}; }, 2); break;
  default: jack<double>(s, [](double x) { return 2 * x - 1; }, [](V a, V) { return V{2. * a[0] - 1.}; }, 1); } }
VP_TEST(jackknife_complex) { switch (s.raw(1)) {
  case 0: jack<dc>(s, [](dc x) { return x * x; }, [](V a, V) { return V{a[0] * a[0]}; }, 1); break;
  default: jack<dc>(s, [](dc x, dc y) { return x / (y + dc(20, 1)); }, [](V a, V b) { return V{a[0] / (b[0] + dc(20, 1))}; }, 2); } }
VP_TEST(jackknife_array) { using A = nda::array<double, 1>; switch (s.raw(1)) {
  case 0: jack<A>(s, [](auto const &x) { return nda::make_regular(x * x); }, [](V a, V) { for (auto &x : a) x *= x; return a; }, 1); break;
  default: jack<A>(s, [](auto const &x, auto const &y) { return nda::make_regular(x / (y * y + A{1., 1., 1.})); }, [](V a, V b) { for (size_t i = 0; i < a.size(); ++i) a[i] /= b[i] * b[i] + 1.; return a; }, 2); } }
VP_TEST(correlation_time) { double e0 = s.generic(0.01, 5), en = s.generic(0.01, 5); VP_CLOSE(tau_estimate_from_errors(en, e0), 0.5 * (en * en / (e0 * e0) - 1), 1e-9, "correlation time"); nda::array<double, 1> a{en, 2 * en}, b{e0, 3 * e0}; nda::array<double, 1> t = tau_estimate_from_errors(a, b); VP_CLOSE(t(0), 0.5 * (en * en / (e0 * e0) - 1), 1e-9, "correlation time"); VP_CLOSE(t(1), 0.5 * (4 * en * en / (9 * e0 * e0) - 1), 1e-9, "correlation time of the second element"); s.nontrivial(); }
// histograms
struct HRef { double a, b; long n; std::vector<double> c; unsigned long long pts = 0, lost = 0;
  long bin(double x) const { double h = (b - a) / double(n - 1); long k = std::llround((x - a) / h); return std::clamp(k, 0l, n - 1); } };
static void hcheck(histogram const &h, HRef const &r, std::string const &w) { VP_REQUIRE(h.size() == r.c.size() && h.limits() == std::pair(r.a, r.b), w, ": bins or limits"); VP_REQUIRE(h.n_data_pts() == r.pts && h.n_lost_pts() == r.lost, w, ": ", h.n_data_pts(), " points and ", h.n_lost_pts(), " lost instead of ", r.pts, " and ", r.lost); for (long i = 0; i < r.n; ++i) VP_REQUIRE(h.data()(i) == r.c[i], w, ": bin ", i, " has ", h.data()(i), " instead of ", r.c[i]);
  for (long i = 0; i < r.n; ++i) VP_CLOSE(h.mesh_point(int(i)), r.a + double(i) * (r.b - r.a) / double(r.n - 1), 1e-13 * (std::abs(r.a) + std::abs(r.b)), w, ": centre of bin ", i); }
VP_TEST(histograms) {
  bool ints = s.boolean(); double a, b; long n; if (ints) { a = double(s.integer(-6, 5)); b = a + double(s.integer(1, 9)); n = long(b - a) + 1; } else { a = s.pick({0., -1., s.generic(-5, 5)}); b = a + s.pick({1., 2., 1e-3, s.generic(0.1, 10)}); n = s.integer(2, 40); }
  auto make = [&]() { return ints ? histogram(int(a), int(b)) : histogram(a, b, n); }; s.say("[", a, ", ", b, "] ", n, " bins"); VP_REQUIRE(vp::throws([&] { histogram(b, a, n); }) && vp::throws([&] { histogram(a, a, n); }), "wrong limits are accepted");
  std::array<histogram, 2> H{make(), make()}; std::array<HRef, 2> R; for (auto &r : R) { r.a = a; r.b = b; r.n = n; r.c.assign(n, 0.); } double hw = (b - a) / double(n - 1); bool edge = false, lost = false; double inf = std::numeric_limits<double>::infinity();
  auto put = [&](int k, double x) { H[k] << x; if (x >= a && x <= b) { R[k].c[R[k].bin(x)]++; R[k].pts++; } else { R[k].lost++; lost = true; } };
  auto value = [&]() -> double { switch (s.raw(6)) { case 0: edge = true; return s.pick({a, b}); case 1: return s.pick({std::nextafter(a, -1e9), std::nextafter(b, 1e9), a - 1, b + 3, inf, -inf, std::nan("")}); case 2: { long k = s.integer(0, n - 1); return std::min(b, a + double(k) * hw); } case 3: { long k = s.integer(0, n - 2); edge = true; return a + (double(k) + 0.5) * hw + s.pick({-1e-6, 1e-6}) * hw; } case 4: return s.pick({std::nextafter(b, -1e9), std::nextafter(a, 1e9)}); default: return a + (b - a) * s.unit(); } };
  int steps = int(s.integer(1, 15)); for (int k = 0; k < steps; ++k) { int w = int(s.raw(1)); switch (s.raw(9)) {
      case 0: { H[w] = H[0] + H[1]; HRef r = R[0]; for (long i = 0; i < n; ++i) r.c[i] += R[1].c[i]; r.pts += R[1].pts; r.lost += R[1].lost; R[w] = r; break; }
      case 1: { h5::file f{}; h5_write(f, "h", H[w]); histogram g; if (s.boolean()) g = histogram(-3., 4., 5); h5_read(f, "h", g); VP_REQUIRE(g == H[w] && !(g != H[w]), "read from a file"); hcheck(g, R[w], "read from a file"); H[w] = g; break; }
      case 2: if (s.chance(1, 3)) { H[w].clear(); R[w].c.assign(n, 0.); R[w].pts = R[w].lost = 0; } break;
      case 3: { auto g = H[w]; VP_REQUIRE(g == H[w], "copy"); g << (a + 0.3 * (b - a)); VP_REQUIRE(g != H[w], "one more point"); auto g2 = H[w]; g2 << b + 1; VP_REQUIRE(g2 != H[w], "one more lost point"); break; }
      default: put(w, value()); } hcheck(H[w], R[w], "histogram"); }
  VP_REQUIRE(vp::throws([&] { H[0] + histogram(a, b, n + 1); }) && vp::throws([&] { H[0] + histogram(a, b + 1, n); }), "sum of histograms of different shapes");
  if (R[0].pts) { auto p = pdf(H[0]), c = cdf(H[0]); double acc = 0; for (long i = 0; i < n; ++i) { acc += R[0].c[i]; VP_CLOSE(p.data()(i), R[0].c[i] / double(R[0].pts), 1e-13, "normalised bin ", i); VP_CLOSE(c.data()(i), acc / double(R[0].pts), 1e-13, "cumulated bin ", i); } hcheck(H[0], R[0], "source of a normalised histogram");
    std::ostringstream os; os << H[0]; std::istringstream is(os.str()); double m, x, y, z; long lines = 0; while (is >> m >> x >> y >> z) { VP_CLOSE(m, H[0].mesh_point(int(lines)), 1e-4 * (std::abs(a) + std::abs(b)), "printed centre"); VP_CLOSE(x, R[0].c[lines], 1e-9, "printed count"); VP_CLOSE(y, p.data()(lines), 1e-5, "printed frequency"); VP_CLOSE(z, c.data()(lines), 1e-5, "printed cumulated frequency"); ++lines; } VP_REQUIRE(lines == n, lines, " printed lines"); }
  int K = int(s.integer(1, 4)), root = int(s.raw(K - 1)); std::vector<int> who(K); for (auto &x : who) x = int(s.raw(1)); HRef sum = R[0]; sum.c.assign(n, 0.); sum.pts = sum.lost = 0; for (auto x : who) { for (long i = 0; i < n; ++i) sum.c[i] += R[x].c[i]; sum.pts += R[x].pts; sum.lost += R[x].lost; }
  on_ranks(K, [&](int r) { mpi::communicator c; auto g = mpi_reduce(H[who[r]], c, root, false); if (r == root) hcheck(g, sum, "sum on the root"); auto g2 = mpi_reduce(H[who[r]], c, root, true); hcheck(g2, sum, "sum on every rank"); histogram g3 = H[who[r]]; if (r != root) { g3 = histogram(-1., 2., 3); if (r % 2) g3 = histogram(); } mpi_broadcast(g3, c, root); hcheck(g3, R[who[root]], "broadcast"); VP_REQUIRE(g3 == H[who[root]], "broadcast"); g3 << a; });
  s.nontrivial(edge && R[0].pts + R[1].pts > 3); if (lost) s.label("lost"); }
