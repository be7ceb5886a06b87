// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <array>
#include <complex>
#include <ostream>
#include <numeric>
#include <type_traits>
#include <vector>

namespace std { // arithmetics and printing of std::array
  template <typename T, size_t R> ostream &operator<<(ostream &out, array<T, R> const &a) {
    out << '('; for (size_t i = 0; i < R; ++i) { if (i) out << ' '; out << a[i]; } return out << ')';
  }
  template <typename T, size_t R> constexpr array<T, R> operator+(array<T, R> const &a, array<T, R> const &b) { array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i] + b[i]; return r; }
  template <typename T, size_t R> constexpr array<T, R> operator-(array<T, R> const &a, array<T, R> const &b) { array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i] - b[i]; return r; }
  template <typename T, size_t R> constexpr array<T, R> operator*(array<T, R> const &a, array<T, R> const &b) { array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i] * b[i]; return r; }
  template <typename T, size_t R> constexpr array<T, R> operator-(array<T, R> const &a) { array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = -a[i]; return r; }
  template <typename T, size_t R> constexpr array<T, R> operator*(T const &s, array<T, R> const &b) { array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = s * b[i]; return r; }
} // namespace std

namespace nda::stdutil {
  template <typename T, size_t R> constexpr std::array<T, R> make_initialized_array(T v) { std::array<T, R> r{}; r.fill(v); return r; }
  template <typename T, typename U, size_t R> constexpr std::array<T, R> make_std_array(std::array<U, R> const &a) { std::array<T, R> r{}; for (size_t i = 0; i < R; ++i) r[i] = T(a[i]); return r; }
  template <typename T, size_t R> constexpr std::array<T, R + 1> append(std::array<T, R> const &a, T const &x) { std::array<T, R + 1> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i]; r[R] = x; return r; }
  template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> front_append(std::array<T, R> const &a, U const &x) { std::array<T, R + 1> r{}; r[0] = T(x); for (size_t i = 0; i < R; ++i) r[i + 1] = a[i]; return r; }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> mpop(std::array<T, R> const &a) { std::array<T, R - N> r{}; for (size_t i = 0; i < R - N; ++i) r[i] = a[i]; return r; }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> front_mpop(std::array<T, R> const &a) { std::array<T, R - N> r{}; for (size_t i = 0; i < R - N; ++i) r[i] = a[i + N]; return r; }
  template <typename T, size_t R> constexpr std::array<T, R - 1> pop(std::array<T, R> const &a) { return mpop<1>(a); }
  template <typename T, size_t R> constexpr std::array<T, R - 1> front_pop(std::array<T, R> const &a) { return front_mpop<1>(a); }
  template <typename T, size_t R, typename U, size_t Q> constexpr std::array<T, R + Q> join(std::array<T, R> const &a, std::array<U, Q> const &b) {
    std::array<T, R + Q> r{}; for (size_t i = 0; i < R; ++i) r[i] = a[i]; for (size_t i = 0; i < Q; ++i) r[R + i] = T(b[i]); return r;
  }
  template <typename T, size_t R> constexpr T sum(std::array<T, R> const &a) { T s{}; for (auto const &x : a) s += x; return s; }
  template <typename T, size_t R> constexpr T product(std::array<T, R> const &a) { T s{1}; for (auto const &x : a) s *= x; return s; }
  template <typename T, size_t R> constexpr auto dot_product(std::array<T, R> const &a, std::array<T, R> const &b) { T s{}; for (size_t i = 0; i < R; ++i) s += a[i] * b[i]; return s; }
  template <typename T, size_t R> std::vector<T> to_vector(std::array<T, R> const &a) { return {a.begin(), a.end()}; }
} // namespace nda::stdutil
