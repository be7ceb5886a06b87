// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <gtest/gtest.h>
#include "./nda.hpp"
namespace nda::vp_gt {
  template <typename X, typename Y> ::testing::AssertionResult array_near(X const &x, Y const &y, double p = 1e-10) {
    if (x.shape() != y.shape()) return ::testing::AssertionFailure() << "shapes " << x.shape() << " " << y.shape();
    double m = 0; for_each(x.shape(), [&](auto... i) { double d = std::abs(x(i...) - y(i...)); if (not(d <= m)) m = d; });
    if (m <= p) return ::testing::AssertionSuccess();
    return ::testing::AssertionFailure() << "difference " << m << "\n" << x << "\n" << y;
  }
  template <typename X, typename Y> ::testing::AssertionResult array_eq(X const &x, Y const &y) { if (x.shape() == y.shape() and x == y) return ::testing::AssertionSuccess(); return ::testing::AssertionFailure() << x << "\n" << y; }
  template <typename X> ::testing::AssertionResult array_zero(X const &x, double p = 1e-10) { double m = 0; for_each(x.shape(), [&](auto... i) { m = std::max<double>(m, std::abs(x(i...))); }); if (m <= p) return ::testing::AssertionSuccess(); return ::testing::AssertionFailure() << x; }
  template <typename T> std::complex<double> cplx(T const &x) { if constexpr (std::is_convertible_v<T, std::complex<double>>) return x; else return double(x); }
  template <typename A, typename B> ::testing::AssertionResult close(A const &a_, B const &b_, double p = 1e-10) { auto a = cplx(a_), b = cplx(b_); if (std::abs(a - b) <= p) return ::testing::AssertionSuccess(); return ::testing::AssertionFailure() << a << " " << b; }
}
#define EXPECT_ARRAY_NEAR(X, ...) EXPECT_TRUE(nda::vp_gt::array_near(X, __VA_ARGS__))
#define EXPECT_ARRAY_EQ(X, Y) EXPECT_TRUE(nda::vp_gt::array_eq(X, Y))
#define EXPECT_EQ_ARRAY(X, Y) EXPECT_ARRAY_EQ(X, Y)
#define EXPECT_ARRAY_ZERO(X) EXPECT_TRUE(nda::vp_gt::array_zero(X))
#define EXPECT_CLOSE(X, ...) EXPECT_TRUE(nda::vp_gt::close(X, __VA_ARGS__))
#define EXPECT_COMPLEX_NEAR(X, ...) EXPECT_TRUE(nda::vp_gt::close(X, __VA_ARGS__))
#define ASSERT_ARRAY_NEAR(X, ...) ASSERT_TRUE(nda::vp_gt::array_near(X, __VA_ARGS__))
#ifndef PRINT
#define PRINT(X) std::cerr << AS_STRING(X) << " = " << (X) << std::endl
#endif
