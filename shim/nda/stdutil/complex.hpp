// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <complex>
#include <type_traits>
using dcomplex = std::complex<double>;
using namespace std::literals::complex_literals;
namespace std { // complex<T> op U with U another arithmetic type
#define VP_OP(OP)                                                                                                                                    \
  template <typename T, typename U> requires(is_arithmetic_v<U> and not is_same_v<T, U>) auto operator OP(complex<T> const &x, U y) {                \
    using C = complex<common_type_t<T, U>>; return C(x.real(), x.imag()) OP C(y); }                                                                  \
  template <typename T, typename U> requires(is_arithmetic_v<U> and not is_same_v<T, U>) auto operator OP(U x, complex<T> const &y) {                \
    using C = complex<common_type_t<T, U>>; return C(x) OP C(y.real(), y.imag()); }                                                                  \
  template <typename T, typename U> requires(not is_same_v<T, U>) auto operator OP(complex<T> const &x, complex<U> const &y) {                       \
    using C = complex<common_type_t<T, U>>; return C(x.real(), x.imag()) OP C(y.real(), y.imag()); }
  VP_OP(+) VP_OP(-) VP_OP(*) VP_OP(/)
#undef VP_OP
} // namespace std
namespace nda {
  template <typename T> inline constexpr bool is_complex_v = false;
  template <typename T> inline constexpr bool is_complex_v<std::complex<T>> = true;
  template <typename T> inline constexpr bool is_complex_v<T const> = is_complex_v<T>;
  template <typename T> inline constexpr bool is_complex_v<T &> = is_complex_v<T>;
  template <typename T> inline constexpr bool is_complex_v<T &&> = is_complex_v<T>;
} // namespace nda
