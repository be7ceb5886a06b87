// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include "../nda.hpp"
extern "C" {
void dsyev_(const char *, const char *, const int *, double *, const int *, double *, double *, const int *, int *);
void zheev_(const char *, const char *, const int *, std::complex<double> *, const int *, double *, std::complex<double> *, const int *, double *, int *);
}
namespace nda::linalg {
  namespace detail {
    // on return a holds the eigenvectors (columns), in Fortran order
    template <typename T> array<double, 1> eig(std::vector<T> &a, int n, char job) {
      array<double, 1> w(n); if (n == 0) return w;
      int info = 0, lw = std::max(1, 64 * n); std::vector<T> work(lw);
      if constexpr (std::is_same_v<T, double>) dsyev_(&job, "U", &n, a.data(), &n, w.data(), work.data(), &lw, &info);
      else { std::vector<double> rw(std::max(1, 3 * n)); zheev_(&job, "U", &n, a.data(), &n, w.data(), work.data(), &lw, rw.data(), &info); }
      if (info != 0) throw std::runtime_error("nda::linalg: diagonalisation failed");
      return w;
    }
    template <typename M> auto pack(M const &m) {
      using T = get_value_t<M>; if (m.extent(0) != m.extent(1)) throw std::runtime_error("nda::linalg: matrix which is not square");
      long n = m.extent(0); std::vector<T> a(n * n); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) a[i + n * j] = m(i, j); return a;
    }
  } // namespace detail
  template <typename M> std::pair<array<double, 1>, matrix<get_value_t<M>>> eigenelements(M const &m) {
    auto a = detail::pack(m); long n = m.extent(0); auto w = detail::eig(a, int(n), 'V'); matrix<get_value_t<M>> v(n, n);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) v(i, j) = a[i + n * j]; return {w, v};
  }
  template <typename M> array<double, 1> eigenvalues(M const &m) { auto a = detail::pack(m); return detail::eig(a, int(m.extent(0)), 'N'); }
  template <typename M> array<double, 1> eigenvalues_in_place(M &m) { return eigenvalues(m); }
} // namespace nda::linalg
