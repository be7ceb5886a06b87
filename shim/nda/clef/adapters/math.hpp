// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <cmath>
#include <complex>
#include "../clef.hpp"
namespace nda::clef {
#define VP_STD(NAME) template <typename A> requires(is_any_lazy<A>) auto NAME(A &&a) { return make_expr_call([](auto const &x) { using std::NAME; return NAME(x); }, std::forward<A>(a)); } using std::NAME;
  VP_STD(abs) VP_STD(cos) VP_STD(sin) VP_STD(tan) VP_STD(acos) VP_STD(asin) VP_STD(atan) VP_STD(cosh) VP_STD(sinh) VP_STD(tanh) VP_STD(exp) VP_STD(log) VP_STD(sqrt) VP_STD(real) VP_STD(imag) VP_STD(conj)
#undef VP_STD
  template <typename A, typename B> requires(is_any_lazy<A, B>) auto pow(A &&a, B &&b) { return make_expr_call([](auto const &x, auto const &y) { using std::pow; return pow(x, y); }, std::forward<A>(a), std::forward<B>(b)); }
  using std::pow;
} // namespace nda::clef
