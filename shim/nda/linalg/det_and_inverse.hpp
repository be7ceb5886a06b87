// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include "../nda.hpp"
namespace nda {
  namespace detail {
    template <typename T> using float_of = std::conditional_t<std::is_integral_v<T>, double, T>;
    // LU with partial pivoting, in place; returns the determinant
    template <typename T> T lu_det(matrix<T> &m) {
      long n = m.extent(0); T det{1};
      for (long k = 0; k < n; ++k) {
        long p = k; for (long i = k + 1; i < n; ++i) if (std::abs(m(i, k)) > std::abs(m(p, k))) p = i;
        if (std::abs(m(p, k)) == 0) return T{0};
        if (p != k) { for (long j = 0; j < n; ++j) std::swap(m(p, j), m(k, j)); det = -det; }
        det *= m(k, k);
        for (long i = k + 1; i < n; ++i) { T f = m(i, k) / m(k, k); for (long j = k; j < n; ++j) m(i, j) -= f * m(k, j); }
      }
      return det;
    }
  } // namespace detail
  template <typename M> requires(Array<M> and get_rank<M> == 2) auto determinant(M const &m) {
    using T = detail::float_of<get_value_t<M>>;
    if (m.extent(0) != m.extent(1)) throw std::runtime_error("nda: determinant of a matrix which is not square");
    matrix<T> c(m); return detail::lu_det(c);
  }
  template <typename M> auto determinant_in_place(M &m) { return determinant(m); }
  template <typename M> void inverse_in_place(M &&m) {
    using T = get_value_t<M>;
    if (m.extent(0) != m.extent(1)) throw std::runtime_error("nda: inverse of a matrix which is not square");
    long n = m.extent(0); matrix<T> a(m), b(n, n); b = T(1);
    for (long k = 0; k < n; ++k) {
      long p = k; for (long i = k + 1; i < n; ++i) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
      if (not(std::abs(a(p, k)) > 0)) { NDA_RUNTIME_ERROR << "nda: inverse of a singular matrix"; }
      if (p != k) for (long j = 0; j < n; ++j) { std::swap(a(p, j), a(k, j)); std::swap(b(p, j), b(k, j)); }
      T f = T(1) / a(k, k);
      for (long j = 0; j < n; ++j) { a(k, j) *= f; b(k, j) *= f; }
      for (long i = 0; i < n; ++i) if (i != k) { T g = a(i, k); for (long j = 0; j < n; ++j) { a(i, j) -= g * a(k, j); b(i, j) -= g * b(k, j); } }
    }
    m = b;
  }
  template <typename M> matrix<get_value_t<M>> inverse(M const &m) { matrix<get_value_t<M>> r(m); inverse_in_place(r); return r; }
  CLEF_MAKE_FNT_LAZY(determinant) CLEF_MAKE_FNT_LAZY(inverse)
} // namespace nda
