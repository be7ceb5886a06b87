// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <optional>
#include <array>
#include <cstddef>
#include <functional>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <vector>
#include <cstdlib>

namespace itertools {

  template <typename EndIter> struct sentinel_t { EndIter it; };
  template <typename Iter> sentinel_t<Iter> make_sentinel(Iter it) { return {it}; }

  // CRTP base : the derived class has increment(), equal(other), dereference() [and decrement/advance/distance_to]
  template <typename Derived, typename Value, typename Tag = std::forward_iterator_tag, typename Reference = Value &, typename Difference = std::ptrdiff_t>
  struct iterator_facade {
    using value_type = Value; using reference = Reference; using pointer = Value *; using difference_type = Difference; using iterator_category = Tag;
    private:
    Derived &self() { return static_cast<Derived &>(*this); }
    Derived const &self() const { return static_cast<Derived const &>(*this); }
    public:
    Derived &operator++() { self().increment(); return self(); }
    Derived operator++(int) { auto c = self(); self().increment(); return c; }
    Derived &operator--() { self().decrement(); return self(); }
    Derived operator--(int) { auto c = self(); self().decrement(); return c; }
    template <typename U> bool operator==(U const &o) const { return self().equal(o); }
    template <typename U> bool operator!=(U const &o) const { return !self().equal(o); }
    decltype(auto) operator*() const { return self().dereference(); }
    auto operator->() const { return std::addressof(self().dereference()); }
    Derived &operator+=(Difference n) { self().advance(n); return self(); }
    Derived &operator-=(Difference n) { self().advance(-n); return self(); }
    friend Derived operator+(Derived const &it, Difference n) { auto c = it; c += n; return c; }
    friend Derived operator-(Derived const &it, Difference n) { auto c = it; c -= n; return c; }
    friend Difference operator-(Derived const &a, Derived const &b) { return a.distance_to(b); }
  };

  // ---------------------------------------------------------------- range
  class range {
    long first_ = 0, last_ = 0, step_ = 1;
    public:
    range() = default;
    template <typename I> requires(std::is_integral_v<I>) explicit range(I n) : range(0, n) {}
    range(long first, long last, long step = 1) : first_(first), last_(last), step_(step) {
      if (step == 0) throw std::range_error("range: zero step");
    }
    long first() const { return first_; }
    long last() const { return last_; }
    long step() const { return step_; }
    long size() const {
      auto n = (step_ > 0 ? last_ - first_ + step_ - 1 : first_ - last_ - step_ - 1) / std::abs(step_);
      return std::max(0l, n);
    }
    bool operator==(range const &) const = default;
    friend range operator+(range const &r, long s) { return {r.first_ + s, r.last_ + s, r.step_}; }
    struct const_iterator {
      using value_type = long; using reference = long; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
      long pos = 0, last = 0, step = 1;
      long operator*() const { return pos; }
      const_iterator &operator++() { pos += step; return *this; }
      const_iterator operator++(int) { auto c = *this; pos += step; return c; }
      const_iterator &operator--() { pos -= step; return *this; }
      const_iterator operator--(int) { auto c = *this; pos -= step; return c; }
      const_iterator &operator+=(long n) { pos += n * step; return *this; }
      const_iterator &operator-=(long n) { pos -= n * step; return *this; }
      friend const_iterator operator+(const_iterator a, long n) { return a += n; }
      friend const_iterator operator+(long n, const_iterator a) { return a += n; }
      friend const_iterator operator-(const_iterator a, long n) { return a -= n; }
      friend long operator-(const_iterator const &a, const_iterator const &b) { return (a.pos - b.pos) / a.step; }
      long operator[](long n) const { return pos + n * step; }
      bool at_end() const { return step > 0 ? pos >= last : pos <= last; }
      bool operator==(const_iterator const &o) const { return pos == o.pos or (at_end() and o.at_end()); }
      auto operator<=>(const_iterator const &o) const { return (pos - o.pos) * step <=> 0; }
    };
    const_iterator begin() const { return {first_, last_, step_}; }
    const_iterator end() const { return {first_ + size() * step_, last_, step_}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    friend std::ostream &operator<<(std::ostream &o, range const &r) { return o << "range(" << r.first_ << "," << r.last_ << "," << r.step_ << ")"; }
  };

  template <typename F> void foreach (range const &r, F f) { for (long i : r) f(i); }

  // ---------------------------------------------------------------- helpers
  namespace detail {
    template <typename T> decltype(auto) b(T &t) { using std::begin; return begin(t); }
    template <typename T> decltype(auto) e(T &t) { using std::end; return end(t); }
    template <typename T> using b_t = decltype(b(std::declval<std::remove_reference_t<T> &>()));
    template <typename T> using cb_t = decltype(b(std::declval<std::remove_reference_t<T> const &>()));
    template <typename T> using e_t = decltype(e(std::declval<std::remove_reference_t<T> &>()));
    template <typename T> using ce_t = decltype(e(std::declval<std::remove_reference_t<T> const &>()));
    template <typename It> using ref_t = decltype(*std::declval<It &>());
  }

  // ---------------------------------------------------------------- enumerate
  template <typename It> struct enum_iter {
    long i = 0; It it;
    using value_type = std::tuple<long, detail::ref_t<It>>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    enum_iter &operator++() { ++it; ++i; return *this; }
    enum_iter operator++(int) { auto c = *this; ++*this; return c; }
    value_type operator*() const { return {i, *const_cast<It &>(it)}; }
    bool operator==(enum_iter const &o) const { return it == o.it; }
    bool operator==(It const &o) const { return it == o; }
    template <typename E> bool operator==(sentinel_t<E> const &s) const { return it == s.it; }
  };
  template <typename T> struct enumerated {
    T x;
    auto begin() { return enum_iter<detail::b_t<T>>{0, detail::b(x)}; }
    auto begin() const { return enum_iter<detail::cb_t<T>>{0, detail::b(x)}; }
    auto cbegin() const { return begin(); }
    auto end() { return make_sentinel(detail::e(x)); }
    auto end() const { return make_sentinel(detail::e(x)); }
    auto cend() const { return end(); }
    auto size() const { return std::size(x); }
  };
  template <typename T> enumerated<T> enumerate(T &&x) { return {std::forward<T>(x)}; }

  // ---------------------------------------------------------------- transform
  namespace detail {
    template <typename F> struct callable { // copy assignable, whatever F is
      std::optional<F> f;
      callable() = default;
      callable(F const &g) : f(g) {}
      callable(callable const &) = default;
      callable &operator=(callable const &o) { if (this != &o) { f.reset(); if (o.f) f.emplace(*o.f); } return *this; }
    };
  } // namespace detail
  template <typename It, typename F> struct trans_iter {
    It it; detail::callable<F> f;
    using value_type = std::decay_t<std::invoke_result_t<F const &, detail::ref_t<It>>>; using reference = std::invoke_result_t<F const &, detail::ref_t<It>>;
    using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
    trans_iter &operator++() { ++it; return *this; }
    trans_iter operator++(int) { auto c = *this; ++*this; return c; }
    decltype(auto) operator*() const { return std::as_const(*f.f)(*const_cast<It &>(it)); }
    bool operator==(trans_iter const &o) const { return it == o.it; }
    template <typename E> bool operator==(sentinel_t<E> const &s) const { return it == s.it; }
  };
  template <typename T, typename F> struct transformed {
    T x; F f;
    auto begin() const { return trans_iter<detail::cb_t<T>, F>{detail::b(x), {f}}; }
    auto cbegin() const { return begin(); }
    auto end() const { return make_sentinel(detail::e(x)); }
    auto cend() const { return end(); }
    auto size() const { return std::size(x); }
  };
  template <typename T, typename F> transformed<T, std::decay_t<F>> transform(T &&x, F &&f) { return {std::forward<T>(x), std::forward<F>(f)}; }

  // ---------------------------------------------------------------- zip
  template <typename... It> struct zip_iter {
    std::tuple<It...> its;
    using value_type = std::tuple<detail::ref_t<It>...>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    zip_iter &operator++() { std::apply([](auto &...i) { (void(++i), ...); }, its); return *this; }
    zip_iter operator++(int) { auto c = *this; ++*this; return c; }
    value_type operator*() const { return std::apply([](auto &...i) { return value_type{*i...}; }, const_cast<std::tuple<It...> &>(its)); }
    bool operator==(zip_iter const &o) const { return std::get<0>(its) == std::get<0>(o.its); }
    template <typename... E> bool operator==(sentinel_t<std::tuple<E...>> const &s) const {
      return [&]<size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(its) == std::get<I>(s.it)) or ...); }(std::index_sequence_for<It...>{});
    }
  };
  template <typename... T> struct zipped {
    std::tuple<T...> xs;
    auto begin() { return std::apply([](auto &...x) { return zip_iter<detail::b_t<decltype(x)>...>{{detail::b(x)...}}; }, xs); }
    auto begin() const { return std::apply([](auto &...x) { return zip_iter<detail::b_t<decltype(x)>...>{{detail::b(x)...}}; }, xs); }
    auto end() { return std::apply([](auto &...x) { return make_sentinel(std::make_tuple(detail::e(x)...)); }, xs); }
    auto end() const { return std::apply([](auto &...x) { return make_sentinel(std::make_tuple(detail::e(x)...)); }, xs); }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
  };
  template <typename... T> zipped<T...> zip(T &&...x) { return {std::tuple<T...>{std::forward<T>(x)...}}; }

  // ---------------------------------------------------------------- product (last index fastest)
  template <typename... T> struct multiplied {
    std::tuple<T...> xs;
    template <typename Tup> struct iter { // self contained: the product object may be gone while it is used
      template <typename X> using el_t = std::conditional_t<std::is_const_v<Tup>, std::remove_reference_t<X> const, std::remove_reference_t<X>>;
      template <typename X> using it_t = detail::b_t<el_t<X>>;
      template <typename X> using end_t = decltype(detail::e(std::declval<el_t<X> &>()));
      std::tuple<it_t<T>...> its, firsts; std::tuple<end_t<T>...> lasts;
      bool done = false;
      using value_type = std::tuple<detail::ref_t<it_t<T>>...>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      template <int N> void inc() {
        ++std::get<N>(its);
        if (std::get<N>(its) == std::get<N>(lasts)) {
          if constexpr (N == 0) done = true;
          else { std::get<N>(its) = std::get<N>(firsts); inc<N - 1>(); }
        }
      }
      iter &operator++() { inc<int(sizeof...(T)) - 1>(); return *this; }
      iter operator++(int) { auto c = *this; ++*this; return c; }
      value_type operator*() const { return std::apply([](auto &...i) { return value_type{*i...}; }, const_cast<decltype(its) &>(its)); }
      bool operator==(sentinel_t<int>) const { return done; }
      bool operator==(iter const &o) const { return done == o.done and (done or its == o.its); }
    };
    template <typename Tup> static auto mk(Tup &t) {
      return [&]<size_t... I>(std::index_sequence<I...>) {
        using it = iter<Tup>;
        it r{{detail::b(static_cast<typename it::template el_t<T> &>(std::get<I>(t)))...}, {detail::b(static_cast<typename it::template el_t<T> &>(std::get<I>(t)))...}, {detail::e(static_cast<typename it::template el_t<T> &>(std::get<I>(t)))...}, false};
        r.done = ((std::get<I>(r.its) == std::get<I>(r.lasts)) or ...);
        return r;
      }(std::index_sequence_for<T...>{});
    }
    auto begin() { return mk(xs); }
    auto begin() const { return mk(xs); }
    sentinel_t<int> end() const { return {0}; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
  };
  template <typename... T> multiplied<T...> product(T &&...x) { return {std::tuple<T...>{std::forward<T>(x)...}}; }

  namespace detail {
    template <typename I> range to_range(I const &i) { if constexpr (std::is_integral_v<I>) return range(long(i)); else return range(i.first(), i.last(), i.step()); }
  }
  template <typename... I> auto product_range(I const &...i) requires((std::is_integral_v<I> or std::is_base_of_v<range, I>) and ...) { return product(detail::to_range(i)...); }
  template <typename I, size_t N> auto product_range(std::array<I, N> const &a) {
    return std::apply([](auto... i) { return product(range(long(i))...); }, a);
  }

  // the part of [0, end-start) given to one of n_chunks workers
  inline std::pair<std::ptrdiff_t, std::ptrdiff_t> chunk_range(std::ptrdiff_t start, std::ptrdiff_t end, long n_chunks, long rank) {
    auto size = (end - start) / n_chunks, rest = (end - start) - size * n_chunks;
    auto mul = rank < rest ? std::make_pair(start + rank * (size + 1), start + (rank + 1) * (size + 1)) :
                             std::make_pair(start + rest * (size + 1) + (rank - rest) * size, start + rest * (size + 1) + (rank - rest + 1) * size);
    return mul;
  }
  template <typename T> auto make_vector_from_range(T &&r) {
    std::vector<std::decay_t<decltype(*detail::b(r))>> v; for (auto &&x : r) v.emplace_back(x); return v;
  }
  inline namespace itertools_c {}
} // namespace itertools
