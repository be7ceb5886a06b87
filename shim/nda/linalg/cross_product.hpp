// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include "../nda.hpp"
namespace nda::linalg {
  template <Vector V> auto cross_product(V const &a, V const &b) {
    if (a.extent(0) != 3 or b.extent(0) != 3) throw std::runtime_error("nda::linalg::cross_product: dimension");
    vector<get_value_t<V>> r(3); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; r(i) = a(j) * b(k) - a(k) * b(j); } return r;
  }
} // namespace nda::linalg
