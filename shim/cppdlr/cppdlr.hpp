// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
// Discrete Lehmann representation : frequencies and nodes are chosen by pivoted orthogonalisation of the kernel on a fine grid.
#pragma once
#include <map>
#include <mutex>
#include <numbers>
#include <nda/nda.hpp>
#include <nda/h5.hpp>
#include <nda/linalg.hpp>

namespace cppdlr {
  using nda::dcomplex;
  enum statistic_t { Boson = 0, Fermion = 1 };

  // kernels, in the units where beta = 1. Negative times count from the end : t < 0 stands for 1 + t.
  inline double k_it_abs(double t, double om) { return om >= 0 ? -std::exp(-t * om) / (1 + std::exp(-om)) : -std::exp((1 - t) * om) / (1 + std::exp(om)); }
  inline double k_it(double t, double om) { return t >= 0 ? k_it_abs(t, om) : k_it_abs(-t, -om); }
  inline double k_it(double t, double om, double beta) { return k_it(t / beta, beta * om); }
  inline dcomplex k_if(int n, double om, statistic_t s) {
    if (s == Fermion) return 1.0 / dcomplex(-om, (2 * n + 1) * std::numbers::pi);
    if (n == 0 and om == 0) return -0.5;
    return std::tanh(om / 2) / dcomplex(-om, 2 * n * std::numbers::pi);
  }
  inline dcomplex k_if(int n, double om, statistic_t s, double beta) { return beta * k_if(n, beta * om, s); }
  inline double rel2abs(double t) { return t < 0 ? t + 1 : t; }

  namespace detail {
    // greedy choice of rows : the largest remaining row is added to the basis until what remains is below eps, or k rows are chosen
    template <typename T> std::vector<long> pick_rows(std::vector<std::vector<T>> a, double eps, long k) {
      std::vector<long> res; std::vector<char> used(a.size(), 0); std::vector<std::vector<T>> basis;
      auto dot = [](std::vector<T> const &x, std::vector<T> const &y) { T s{}; for (size_t i = 0; i < x.size(); ++i) s += nda::conj(x[i]) * y[i]; return s; };
      while (k < 0 or long(res.size()) < k) {
        long p = -1; double best = 0;
        for (size_t i = 0; i < a.size(); ++i) if (not used[i]) { double n = std::sqrt(std::abs(dot(a[i], a[i]))); if (n > best) { best = n; p = long(i); } }
        if (p < 0 or (k < 0 and best < eps)) break;
        auto q = a[p]; for (auto const &b : basis) { T c = dot(b, q); for (size_t j = 0; j < q.size(); ++j) q[j] -= c * b[j]; }
        double n = std::sqrt(std::abs(dot(q, q))); for (auto &x : q) x /= n;
        used[p] = 1; res.push_back(p);
        for (size_t i = 0; i < a.size(); ++i) if (not used[i]) { T c = dot(q, a[i]); for (size_t j = 0; j < q.size(); ++j) a[i][j] -= c * q[j]; }
        basis.push_back(std::move(q));
      }
      std::sort(res.begin(), res.end()); return res;
    }
    inline std::vector<double> panel(double a, double b) { constexpr int p = 16; std::vector<double> r; for (int i = 0; i < p; ++i) r.push_back(a + (b - a) * 0.5 * (1 - std::cos((2 * i + 1) * std::numbers::pi / (2 * p)))); return r; }
    inline std::vector<double> om_grid(double lam) {
      int np = std::max(1, int(std::ceil(std::log2(lam)))); std::vector<double> pos;
      for (int k = np; k >= 0; --k) { double b = lam * std::pow(2.0, -k), a = k == np ? 0.0 : b / 2; for (double x : panel(a, b)) pos.push_back(x); }
      std::vector<double> r; for (auto i = pos.rbegin(); i != pos.rend(); ++i) r.push_back(-*i); for (double x : pos) r.push_back(x); return r;
    }
    inline std::vector<double> t_grid(double lam) { // relative format, in increasing absolute time
      int np = std::max(2, int(std::ceil(std::log2(lam))) - 1); std::vector<double> half;
      for (int k = np; k >= 0; --k) { double b = 0.5 * std::pow(2.0, -k), a = k == np ? 0.0 : b / 2; for (double x : panel(a, b)) half.push_back(x); }
      std::vector<double> r = half; for (auto i = half.rbegin(); i != half.rend(); ++i) r.push_back(-*i); return r;
    }
    template <typename T> nda::matrix<T> solve(nda::matrix<T> a, nda::matrix<T> b) { // Gauss with partial pivoting
      long n = a.extent(0), m = b.extent(1); T *A = a.data(), *B = b.data();
      for (long k = 0; k < n; ++k) {
        long p = k; for (long i = k + 1; i < n; ++i) if (std::abs(A[i * n + k]) > std::abs(A[p * n + k])) p = i;
        if (p != k) { for (long j = 0; j < n; ++j) std::swap(A[p * n + j], A[k * n + j]); for (long j = 0; j < m; ++j) std::swap(B[p * m + j], B[k * m + j]); }
        for (long i = k + 1; i < n; ++i) { T f = A[i * n + k] / A[k * n + k]; if (f == T{}) continue; for (long j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j]; for (long j = 0; j < m; ++j) B[i * m + j] -= f * B[k * m + j]; }
      }
      for (long k = n - 1; k >= 0; --k) for (long j = 0; j < m; ++j) { T s = B[k * m + j]; for (long i = k + 1; i < n; ++i) s -= A[k * n + i] * B[i * m + j]; B[k * m + j] = s / A[k * n + k]; }
      return b;
    }
    // linear maps acting on the first index of an array
    template <typename A> auto flat(A const &g) { using V = nda::get_value_t<A>; constexpr int R = nda::get_rank<A>; nda::array<V, R> c(g); long n = g.extent(0); nda::matrix<V> m(n, n ? g.size() / n : 0); std::copy_n(c.data(), c.size(), m.data()); return m; }
    template <typename A, typename M> auto unflat(A const &g, M const &m) { using V = nda::get_value_t<M>; constexpr int R = nda::get_rank<A>; auto sh = g.shape(); sh[0] = m.extent(0); nda::array<V, R> r(sh); std::copy_n(m.data(), r.size(), r.data()); return r; }
    template <typename T, typename U> nda::matrix<T> convert(nda::matrix<U> const &m) { return nda::matrix<T>(m); }
    template <typename K, typename A> auto apply(nda::matrix<K> const &k, A const &g) { return unflat(g, nda::matmul(k, flat(g))); }
    template <typename K, typename A> auto apply_inverse(nda::matrix<K> const &k, A const &g) {
      using V = std::common_type_t<K, nda::get_value_t<A>>; return unflat(g, solve<V>(convert<V>(k), convert<V>(flat(g))));
    }
  } // namespace detail

  inline nda::vector<double> build_dlr_rf(double lambda, double eps, bool = false) {
    static std::map<std::pair<double, double>, nda::vector<double>> memo; static std::mutex mtx;
    std::lock_guard<std::mutex> lock(mtx);
    if (auto it = memo.find({lambda, eps}); it != memo.end()) return it->second;
    auto om = detail::om_grid(lambda); auto t = detail::t_grid(lambda); std::vector<std::vector<double>> a;
    for (double o : om) { std::vector<double> r; for (double x : t) r.push_back(k_it(x, o)); a.push_back(std::move(r)); }
    auto idx = detail::pick_rows(a, eps, -1); nda::vector<double> res(idx.size()); for (size_t i = 0; i < idx.size(); ++i) res(i) = om[idx[i]];
    memo[{lambda, eps}] = res; return res;
  }

  class imtime_ops {
    double lambda_ = 0; nda::vector<double> rf, it; nda::matrix<double> cf2it;
    public:
    imtime_ops() = default;
    imtime_ops(double lambda, nda::vector<double> const &dlr_rf, bool = false) : lambda_(lambda), rf(dlr_rf), it(dlr_rf.size()), cf2it(dlr_rf.size(), dlr_rf.size()) {
      auto t = detail::t_grid(lambda); std::vector<std::vector<double>> a; long r = rf.size();
      for (double x : t) { std::vector<double> v; for (long l = 0; l < r; ++l) v.push_back(k_it(x, rf(l))); a.push_back(std::move(v)); }
      auto idx = detail::pick_rows(a, 0, r); for (long i = 0; i < r; ++i) { it(i) = t[idx[i]]; for (long l = 0; l < r; ++l) cf2it(i, l) = k_it(it(i), rf(l)); }
    }
    nda::vector_const_view<double> get_itnodes() const { return it; }
    double get_itnodes(long i) const { return it(i); }
    nda::vector_const_view<double> get_rfnodes() const { return rf; }
    double lambda() const { return lambda_; }
    long rank() const { return rf.size(); }
    template <typename A> auto vals2coefs(A const &g, bool = false) const { if (g.extent(0) != rf.size()) throw std::runtime_error("First dim of g != DLR rank r."); return detail::apply_inverse(cf2it, g); }
    template <typename A> auto coefs2vals(A const &g) const { if (g.extent(0) != rf.size()) throw std::runtime_error("First dim of g != DLR rank r."); return detail::apply(cf2it, g); }
    // least squares fit on arbitrary times, through the orthogonalised kernel
    template <typename T, typename A> auto fitvals2coefs(T const &t, A const &g) const {
      long n = t.size(), r = rf.size(); using V = nda::get_value_t<A>; if (g.extent(0) != n) throw std::runtime_error("First dim of g != number of times.");
      nda::matrix<dcomplex> k(n, r); for (long i = 0; i < n; ++i) for (long l = 0; l < r; ++l) k(i, l) = k_it(t(i), rf(l));
      // householder-free : modified Gram-Schmidt with reorthogonalisation
      nda::matrix<double> q(n, r), R(r, r); R = 0; for (long i = 0; i < r; ++i) for (long j = 0; j < r; ++j) R(i, j) = 0;
      for (long l = 0; l < r; ++l) {
        std::vector<double> v(n); for (long i = 0; i < n; ++i) v[i] = k(i, l).real();
        for (int pass = 0; pass < 2; ++pass) for (long m = 0; m < l; ++m) { double c = 0; for (long i = 0; i < n; ++i) c += q(i, m) * v[i]; R(m, l) += c; for (long i = 0; i < n; ++i) v[i] -= c * q(i, m); }
        double nn = 0; for (double x : v) nn += x * x; nn = std::sqrt(nn); R(l, l) = nn; for (long i = 0; i < n; ++i) q(i, l) = nn > 0 ? v[i] / nn : 0;
      }
      auto b = detail::flat(g); nda::matrix<V> y(r, b.extent(1));
      for (long l = 0; l < r; ++l) for (long j = 0; j < b.extent(1); ++j) { V s{}; for (long i = 0; i < n; ++i) s += q(i, l) * b(i, j); y(l, j) = s; }
      for (long l = r - 1; l >= 0; --l) for (long j = 0; j < b.extent(1); ++j) { V s = y(l, j); for (long m = l + 1; m < r; ++m) s -= R(l, m) * y(m, j); y(l, j) = R(l, l) > 0 ? V(s / R(l, l)) : V{}; }
      return detail::unflat(g, y);
    }
    bool operator==(imtime_ops const &o) const { return lambda_ == o.lambda_ and rf == o.rf and it == o.it; }
    static std::string hdf5_format() { return "cppdlr::imtime_ops"; }
    friend void h5_write(h5::group fg, std::string const &n, imtime_ops const &m) { auto g = fg.create_group(n); write_hdf5_format(g, m); h5::write(g, "lambda", m.lambda_); h5::write(g, "rf", m.rf); h5::write(g, "it", m.it); h5::write(g, "cf2it", m.cf2it); }
    friend void h5_read(h5::group fg, std::string const &n, imtime_ops &m) { auto g = fg.open_group(n); h5::read(g, "lambda", m.lambda_); h5::read(g, "rf", m.rf); h5::read(g, "it", m.it); h5::read(g, "cf2it", m.cf2it); }
    static imtime_ops h5_read_construct(h5::group fg, std::string const &n) { imtime_ops m; h5_read(fg, n, m); return m; }
  };

  class imfreq_ops {
    double lambda_ = 0; statistic_t stat = Fermion; nda::vector<double> rf; nda::vector<int> nodes; nda::matrix<dcomplex> cf2if;
    public:
    imfreq_ops() = default;
    imfreq_ops(double lambda, nda::vector<double> const &dlr_rf, statistic_t s, bool = false) : lambda_(lambda), stat(s), rf(dlr_rf), nodes(dlr_rf.size()), cf2if(dlr_rf.size(), dlr_rf.size()) {
      long nmax = std::max<long>(8, std::ceil(lambda)); std::vector<int> cand; std::vector<std::vector<dcomplex>> a; long r = rf.size();
      for (long n = s == Fermion ? -nmax - 1 : -nmax; n <= nmax; ++n) cand.push_back(int(n));
      for (int n : cand) { std::vector<dcomplex> v; for (long l = 0; l < r; ++l) v.push_back(k_if(n, rf(l), s)); a.push_back(std::move(v)); }
      if (long(cand.size()) < r) throw std::runtime_error("cppdlr: not enough frequencies");
      auto idx = detail::pick_rows(a, 0, r); for (long i = 0; i < r; ++i) { nodes(i) = cand[idx[i]]; for (long l = 0; l < r; ++l) cf2if(i, l) = k_if(nodes(i), rf(l), s); }
    }
    nda::vector_const_view<int> get_ifnodes() const { return nodes; }
    int get_ifnodes(long i) const { return nodes(i); }
    nda::vector_const_view<double> get_rfnodes() const { return rf; }
    double lambda() const { return lambda_; }
    statistic_t statistic() const { return stat; }
    long rank() const { return rf.size(); }
    template <typename A> auto vals2coefs(A const &g, bool = false) const { if (g.extent(0) != rf.size()) throw std::runtime_error("First dim of g != DLR rank r."); return detail::apply_inverse(cf2if, g); }
    template <typename A> auto coefs2vals(A const &g) const { if (g.extent(0) != rf.size()) throw std::runtime_error("First dim of g != DLR rank r."); return detail::apply(cf2if, g); }
    bool operator==(imfreq_ops const &o) const { return lambda_ == o.lambda_ and stat == o.stat and rf == o.rf and nodes == o.nodes; }
    static std::string hdf5_format() { return "cppdlr::imfreq_ops"; }
    friend void h5_write(h5::group fg, std::string const &n, imfreq_ops const &m) { auto g = fg.create_group(n); write_hdf5_format(g, m); h5::write(g, "lambda", m.lambda_); h5::write(g, "stat", int(m.stat)); h5::write(g, "rf", m.rf); h5::write(g, "if", m.nodes); h5::write(g, "cf2if", m.cf2if); }
    friend void h5_read(h5::group fg, std::string const &n, imfreq_ops &m) { auto g = fg.open_group(n); int s; h5::read(g, "lambda", m.lambda_); h5::read(g, "stat", s); m.stat = statistic_t(s); h5::read(g, "rf", m.rf); h5::read(g, "if", m.nodes); h5::read(g, "cf2if", m.cf2if); }
    static imfreq_ops h5_read_construct(h5::group fg, std::string const &n) { imfreq_ops m; h5_read(fg, n, m); return m; }
  };
} // namespace cppdlr
