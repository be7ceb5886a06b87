// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include "./nda.hpp"
namespace nda::blas {
  template <typename X, typename Y> auto dot_impl(X const &x, Y const &y, bool cj) {
    using V = std::remove_cvref_t<decltype(x(0l) * y(0l))>;
    if (x.extent(0) != y.extent(0)) throw std::runtime_error("nda::blas::dot: sizes");
    V s{}; for (long i = 0; i < x.extent(0); ++i) { if (cj) s += nda::conj(x(i)) * y(i); else s += x(i) * y(i); } return s;
  }
  template <Array X, Array Y> auto dot(X const &x, Y const &y) { return dot_impl(x, y, false); }
  template <Array X, Array Y> auto dotc(X const &x, Y const &y) { return dot_impl(x, y, true); }
  template <bool star = false, typename X, typename Y> auto dot_generic(X const &x, Y const &y) { return dot_impl(x, y, star); }
  template <bool star = false, typename X, typename Y> auto dotc_generic(X const &x, Y const &y) { return dot_impl(x, y, true); }
  template <typename X, typename Y> auto outer_product(X const &x, Y const &y) {
    constexpr int R = get_rank<X>, Q = get_rank<Y>; using V = std::remove_cvref_t<decltype(std::declval<get_value_t<X>>() * std::declval<get_value_t<Y>>())>;
    if constexpr (R == 1 and Q == 1) { array<V, 2> r(x.extent(0), y.extent(0)); for (long i = 0; i < x.extent(0); ++i) for (long j = 0; j < y.extent(0); ++j) r(i, j) = x(i) * y(j); return r; }
    else {
      array<V, R + Q> r(stdutil::join(x.shape(), y.shape()));
      for_each(x.shape(), [&](auto... i) { for_each(y.shape(), [&](auto... j) { r(i..., j...) = x(i...) * y(j...); }); }); return r;
    }
  }
  // y <- alpha A x + beta y ; y is not read if beta is zero
  template <typename T, typename A, typename X, typename Y> void gemv(T alpha, A const &a, X const &x, T beta, Y &&y) {
    if (a.extent(0) != y.extent(0) or a.extent(1) != x.extent(0)) throw std::runtime_error("nda::blas::gemv: sizes");
    using V = get_value_t<Y>; V al(alpha), be(beta); vector<V> r(y.extent(0));
    for (long i = 0; i < y.extent(0); ++i) { V s{}; for (long k = 0; k < x.extent(0); ++k) s += a(i, k) * x(k); r(i) = al * s; if (be != V{}) r(i) += be * y(i); }
    y = r;
  }
  template <typename T, typename U, typename A, typename B, typename C> void gemm(T alpha, A const &a, B const &b, U beta, C &&c) {
    if (a.extent(1) != b.extent(0)) throw std::runtime_error("nda::blas::gemm: sizes");
    using V = get_value_t<C>; V al(alpha), be(beta); matrix<V> r(a.extent(0), b.extent(1));
    if constexpr (is_regular_v<C>) c.resize(r.shape());
    if (c.shape() != r.shape()) throw std::runtime_error("nda::blas::gemm: sizes of the result");
    for (long i = 0; i < r.extent(0); ++i) for (long j = 0; j < r.extent(1); ++j) { V s{}; for (long k = 0; k < a.extent(1); ++k) s += a(i, k) * b(k, j); r(i, j) = al * s; if (be != V{}) r(i, j) += be * c(i, j); }
    c = r;
  }
  // m <- m + alpha x y^t
  template <typename T, typename X, typename Y, typename M> void ger(T alpha, X const &x, Y const &y, M &&m) {
    if (m.extent(0) != x.extent(0) or m.extent(1) != y.extent(0)) throw std::runtime_error("nda::blas::ger: sizes");
    for (long i = 0; i < x.extent(0); ++i) for (long j = 0; j < y.extent(0); ++j) m(i, j) += get_value_t<M>(alpha) * x(i) * y(j);
  }
  template <typename T, typename X> void scal(T alpha, X &&x) { for (long i = 0; i < x.extent(0); ++i) x(i) *= alpha; }
} // namespace nda::blas
namespace nda { template <Array X, Array Y> requires(get_rank<X> == 1 and get_rank<Y> == 1) auto dot(X const &x, Y const &y) { return blas::dot(x, y); } }
