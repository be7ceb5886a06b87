// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include "./clef.hpp"
#include <optional>
namespace nda::clef {
  template <typename F, typename D> auto sum_f_domain_impl(F const &f, D const &d) {
    using V = std::remove_cvref_t<decltype(f(*d.begin()))>;
    if constexpr (is_lazy<V>) throw std::runtime_error("clef: lazy sum");
    else { std::optional<V> r; for (auto const &x : d) { if (r) *r = V(*r + f(x)); else r.emplace(f(x)); } if (not r) throw std::runtime_error("Empty domain in sum"); return *r; }
  }
  template <typename F, typename D0, typename... D> requires(not is_any_lazy<F, D0, D...>) auto sum_f_domain(F const &f, D0 const &d0, D const &...d) {
    if constexpr (sizeof...(D) == 0) return sum_f_domain_impl(f, d0);
    else return sum_f_domain_impl([&](auto const &x) { return sum_f_domain([&](auto const &...y) { return f(x, y...); }, d...); }, d0);
  }
  CLEF_MAKE_FNT_LAZY(sum_f_domain)
  // sum(expression, i_ = domain, ...)
  template <typename E, int... N, typename... D> auto sum(E const &f, pair<N, D>... d) { return sum_f_domain(make_function(f, placeholder<N>()...), d.rhs...); }
} // namespace nda::clef
