// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <memory>
#include <optional>
#include "../linalg/eigenelements.hpp"
extern "C" void zgesvd_(const char *, const char *, const int *, const int *, std::complex<double> *, const int *, double *, std::complex<double> *, const int *, std::complex<double> *, const int *, std::complex<double> *, const int *, double *, int *);
namespace nda::lapack {
  // least squares problems sharing the same matrix A (M x N, M >= N) : minimises || A x - B ||
  template <typename T> class gelss_worker {
    long M, N; matrix<dcomplex> pinv, unull; array<double, 1> s;
    public:
    gelss_worker(matrix<T> const &a) : M(a.extent(0)), N(a.extent(1)) {
      std::vector<dcomplex> f(M * N); for (long i = 0; i < M; ++i) for (long j = 0; j < N; ++j) f[i + M * j] = a(i, j);
      long K = std::min(M, N); s = array<double, 1>(K); std::vector<dcomplex> u(M * M), vt(N * N), wk(64 * (M + N)); std::vector<double> rw(5 * std::max<long>(1, K));
      int m = M, n = N, lw = wk.size(), info = 0; zgesvd_("A", "A", &m, &n, f.data(), &m, s.data(), u.data(), &m, vt.data(), &n, wk.data(), &lw, rw.data(), &info);
      if (info != 0) throw std::runtime_error("nda::lapack: svd failed");
      pinv = matrix<dcomplex>(N, M); pinv = dcomplex(0);
      for (long i = 0; i < N; ++i) for (long j = 0; j < M; ++j) { dcomplex x = 0; for (long k = 0; k < K; ++k) x += std::conj(vt[k + N * i]) / s(k) * std::conj(u[j + M * k]); pinv(i, j) = x; }
      unull = matrix<dcomplex>(std::max<long>(0, M - N), M); for (long i = N; i < M; ++i) for (long j = 0; j < M; ++j) unull(i - N, j) = std::conj(u[j + M * i]);
    }
    long n_var() const { return N; }
    array<double, 1> const &S_vec() const { return s; }
    std::pair<matrix<dcomplex>, double> operator()(matrix_const_view<dcomplex> B, std::optional<long> = {}) const {
      double err = 0;
      if (M != N) { matrix<dcomplex> r = unull * B; for (long j = 0; j < r.extent(1); ++j) { double e = 0; for (long i = 0; i < r.extent(0); ++i) e += std::norm(r(i, j)); err = std::max(err, std::sqrt(e) / std::sqrt(double(B.extent(0)))); } }
      return {pinv * B, err};
    }
  };
  // the same with the additional constraint that, for each value of the other indices, x(i; m, n) = conj(x(i; n, m))
  class gelss_worker_hermitian {
    matrix<dcomplex> A; gelss_worker<dcomplex> plain, stacked;
    static matrix<dcomplex> stack(matrix<dcomplex> const &a, matrix<dcomplex> const &b) { matrix<dcomplex> r(a.extent(0) + b.extent(0), a.extent(1)); r(range(0, a.extent(0)), range::all) = a; r(range(a.extent(0), r.extent(0)), range::all) = b; return r; }
    public:
    gelss_worker_hermitian(matrix<dcomplex> const &a) : A(a), plain(a), stacked(stack(a, matrix<dcomplex>(conj(a)))) {}
    long n_var() const { return A.extent(1); }
    array<double, 1> const &S_vec() const { return plain.S_vec(); }
    std::pair<matrix<dcomplex>, double> operator()(matrix_const_view<dcomplex> B, std::optional<long> inner) const {
      if (not inner) throw std::runtime_error("nda::lapack: inner dimension needed");
      long d = *inner, nb = B.extent(1) / (d * d); matrix<dcomplex> C(B.shape());
      for (long i = 0; i < B.extent(0); ++i) for (long b = 0; b < nb; ++b) for (long m = 0; m < d; ++m) for (long n = 0; n < d; ++n) C(i, (b * d + m) * d + n) = std::conj(B(i, (b * d + n) * d + m));
      auto [x, err] = stacked(stack(matrix<dcomplex>(B), C));
      matrix<dcomplex> y(x.shape()); // exact hermiticity
      for (long i = 0; i < x.extent(0); ++i) for (long b = 0; b < nb; ++b) for (long m = 0; m < d; ++m) for (long n = 0; n < d; ++n) y(i, (b * d + m) * d + n) = 0.5 * (x(i, (b * d + m) * d + n) + std::conj(x(i, (b * d + n) * d + m)));
      return {y, err};
    }
  };
} // namespace nda::lapack
