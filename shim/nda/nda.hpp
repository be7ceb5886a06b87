// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
// Dense arrays with runtime strides. Arithmetic is evaluated eagerly, every access is checked, and uninitialised
// numbers are poisoned, so that the code under test is observed under the strictest reading of the interface.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <itertools/itertools.hpp>
#include "./macros.hpp"
#include "./stdutil/array.hpp"
#include "./stdutil/complex.hpp"
#include "./clef/clef.hpp"

namespace nda {
  using dcomplex = std::complex<double>;
  using namespace std::literals::complex_literals;

  // ------------------------------------------------------------------ ranges
  struct range : itertools::range {
    using itertools::range::range;
    range(itertools::range const &r) : itertools::range(r) {}
    struct all_t {};
    static constexpr all_t all{};
  };
  struct ellipsis : range::all_t {};
  inline std::ostream &operator<<(std::ostream &out, range::all_t) { return out << "_"; }

  // ------------------------------------------------------------------ traits
  template <typename T> inline constexpr bool is_scalar_v = std::is_arithmetic_v<std::remove_cvref_t<T>> or is_complex_v<std::remove_cvref_t<T>>;
  template <typename T> inline constexpr bool is_scalar_or_convertible_v = is_scalar_v<T>;
  template <typename T> concept Scalar = is_scalar_v<T>;
  template <typename T> inline constexpr bool is_double_or_complex_v = std::is_same_v<std::remove_cvref_t<T>, double> or is_complex_v<T>;

  namespace detail {
    template <typename S> struct is_std_array_of_long : std::false_type {};
    template <size_t R> struct is_std_array_of_long<std::array<long, R>> : std::true_type { static constexpr int rank = R; };
    template <typename A> using shape_type = std::remove_cvref_t<decltype(std::declval<A const &>().shape())>;
    template <typename A, size_t... I> auto call_with_longs(A const &a, std::index_sequence<I...>) -> decltype(a((static_cast<void>(I), 0l)...));
    template <typename A> using value_of = std::remove_cvref_t<decltype(call_with_longs(std::declval<A const &>(), std::make_index_sequence<is_std_array_of_long<shape_type<A>>::rank>{}))>;
  } // namespace detail
  template <typename A> concept StdShaped = requires(A const &a) { a.shape(); requires detail::is_std_array_of_long<detail::shape_type<A>>::value; };
  template <typename A> struct get_rank_impl { static constexpr int value = -1; };
  template <StdShaped A> struct get_rank_impl<A> { static constexpr int value = detail::is_std_array_of_long<detail::shape_type<A>>::rank; };
  template <typename A> inline constexpr int get_rank = get_rank_impl<std::remove_cvref_t<A>>::value;
  // arrays : basic_array, basic_array_view, array_adapter carry the tag
  struct array_tag {};
  struct memory_array_tag : array_tag {};
  template <typename A> concept Array = std::is_base_of_v<array_tag, std::remove_cvref_t<A>>;
  template <typename A> concept MemoryArray = std::is_base_of_v<memory_array_tag, std::remove_cvref_t<A>>;
  template <typename A, int R> concept ArrayOfRank = Array<A> and (get_rank<A> == R);
  template <typename A, int R> concept MemoryArrayOfRank = MemoryArray<A> and (get_rank<A> == R);
  // an object which can shape and fill an array
  template <typename B, typename A> concept ArrayInitializer = requires(B const &b) { b.shape(); typename std::remove_cvref_t<B>::value_type; } and requires(B const &b, A &a) { b.invoke(a); };
  template <typename A> using get_value_t = typename std::remove_cvref_t<A>::value_type;
  template <typename A> struct get_algebra_impl { static constexpr char value = 'N'; };
  template <Array A> struct get_algebra_impl<A> { static constexpr char value = A::algebra; };
  template <typename A> inline constexpr char get_algebra = get_algebra_impl<std::remove_cvref_t<A>>::value;
  template <typename A> concept Matrix = Array<A> and get_rank<A> == 2 and get_algebra<A> == 'M';
  template <typename A> concept Vector = Array<A> and get_rank<A> == 1;
  template <typename A> inline constexpr bool is_view_v = [] { if constexpr (MemoryArray<A>) return std::remove_cvref_t<A>::is_view; else return false; }();
  template <typename A> inline constexpr bool is_regular_v = MemoryArray<A> and not is_view_v<A>;
  template <typename A> inline constexpr bool is_regular_or_view_v = MemoryArray<A>;

  // ------------------------------------------------------------------ permutations
  template <size_t N> constexpr uint64_t encode(std::array<int, N> const &a) { uint64_t r = 0; for (size_t i = 0; i < N; ++i) r |= (uint64_t(a[i]) << (4 * i)); return r; }
  template <size_t N> constexpr std::array<int, N> decode(uint64_t b) { std::array<int, N> r{}; for (size_t i = 0; i < N; ++i) r[i] = int((b >> (4 * i)) & 0xF); return r; }
  namespace permutations {
    template <int N> constexpr std::array<int, N> identity() { std::array<int, N> r{}; for (int i = 0; i < N; ++i) r[i] = i; return r; }
    template <int N> constexpr std::array<int, N> reverse_identity() { std::array<int, N> r{}; for (int i = 0; i < N; ++i) r[i] = N - 1 - i; return r; }
    template <int N> constexpr std::array<int, N> transposition(int i, int j) { auto r = identity<N>(); r[i] = j; r[j] = i; return r; }
    // cyclic permutation by p places of the first pos elements
    template <int N> constexpr std::array<int, N> cycle(int p, int pos = N) { auto r = identity<N>(); for (int i = 0; i < pos; ++i) { int m = (i + p) % pos; r[i] = (m < 0 ? m + pos : m); } return r; }
    template <size_t N> constexpr std::array<int, N> inverse(std::array<int, N> const &p) { std::array<int, N> r{}; for (size_t i = 0; i < N; ++i) r[p[i]] = int(i); return r; }
  } // namespace permutations

  // ------------------------------------------------------------------ layouts
  enum class layout_prop_e : uint64_t { none = 0, contiguous = 1 };
  inline constexpr uint64_t C_stride_order = 0;
  struct C_layout; struct F_layout; struct C_stride_layout;
  template <int R> class idx_map;
  template <uint64_t SE, uint64_t SO, layout_prop_e P> struct basic_layout { template <int R> using mapping = idx_map<R>; using with_lowest_guarantee_t = basic_layout<SE, SO, layout_prop_e::none>; using contiguous_t = basic_layout<SE, SO, layout_prop_e::contiguous>; static constexpr uint64_t order = SO; static constexpr int kind = 2; };
  struct C_stride_layout { template <int R> using mapping = idx_map<R>; using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = C_layout; static constexpr int kind = 0; };
  struct C_layout { template <int R> using mapping = idx_map<R>; using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = C_layout; static constexpr int kind = 0; };
  struct F_layout { template <int R> using mapping = idx_map<R>; using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = F_layout; static constexpr int kind = 1; };
  template <int R = 0> struct heap_t {};
  template <int = 0> struct heap {};
  struct default_accessor {};
  template <int = 0> struct borrowed {};

  template <int R> class idx_map {
    std::array<long, R> len{}, str{};
    public:
    static constexpr int rank() { return R; }
    idx_map() = default;
    explicit idx_map(std::array<long, R> const &l) : len(l) { long s = 1; for (int i = R - 1; i >= 0; --i) { str[i] = s; s *= len[i]; } }
    idx_map(std::array<long, R> const &l, std::array<long, R> const &s) : len(l), str(s) {}
    template <typename Layout> static idx_map make(std::array<long, R> const &l) {
      idx_map m{l};
      if constexpr (Layout::kind == 1) { long s = 1; for (int i = 0; i < R; ++i) { m.str[i] = s; s *= l[i]; } }
      if constexpr (Layout::kind == 2) { auto so = Layout::order == 0 ? permutations::identity<R>() : decode<R>(Layout::order); long s = 1; for (int i = R - 1; i >= 0; --i) { m.str[so[i]] = s; s *= l[so[i]]; } }
      return m;
    }
    std::array<long, R> const &lengths() const { return len; }
    std::array<long, R> const &strides() const { return str; }
    long size() const { long s = 1; for (auto x : len) s *= x; return s; }
    bool is_contiguous() const { return size() == 0 or str == idx_map{len}.str or dense(); }
    bool is_C() const { idx_map m{len}; for (int i = 0; i < R; ++i) if (len[i] > 1 and str[i] != m.str[i]) return size() == 0; return true; }
    private:
    bool dense() const { long s = 0; for (int i = 0; i < R; ++i) s += (len[i] - 1) * str[i]; return s == size() - 1; }
    public:
    bool operator==(idx_map const &) const = default;
    long offset(std::array<long, R> const &ix) const {
      long o = 0;
      for (int i = 0; i < R; ++i) {
        if (ix[i] < 0 or ix[i] >= len[i]) throw std::runtime_error("nda: index " + std::to_string(ix[i]) + " out of range [0, " + std::to_string(len[i]) + ") in dimension " + std::to_string(i));
        o += ix[i] * str[i];
      }
      return o;
    }
    template <typename... I> long operator()(I... i) const { return offset({long(i)...}); }
    std::array<long, R> to_idx(long n) const { std::array<long, R> ix{}; for (int i = R - 1; i >= 0; --i) { ix[i] = n % len[i]; n /= len[i]; } return ix; }
  };

  // ------------------------------------------------------------------ storage
  template <typename T> inline constexpr T poison() {
    if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::quiet_NaN();
    else if constexpr (std::is_same_v<T, bool>) return false;
    else if constexpr (std::is_integral_v<T>) return T(0x5a5a5a5a5a5a5a5aull);
    else return T{};
  }
  template <typename T> struct storage_t {
    std::unique_ptr<T[]> p; long n = 0;
    storage_t() = default;
    explicit storage_t(long n_) : n(n_) { if (n < 0) throw std::runtime_error("nda: negative size"); p.reset(new T[n]()); if constexpr (std::is_arithmetic_v<T>) std::fill_n(p.get(), n, poison<T>()); }
    storage_t(storage_t const &o) : n(o.n) { if (n) { p.reset(new T[n]()); std::copy_n(o.p.get(), n, p.get()); } }
    storage_t(storage_t &&o) noexcept : p(std::move(o.p)), n(std::exchange(o.n, 0)) {}
    storage_t &operator=(storage_t o) noexcept { std::swap(p, o.p); std::swap(n, o.n); return *this; }
    T *data() const { return p.get(); }
    long size() const { return n; }
    T &operator[](long i) const { return p[i]; }
  };

  template <typename T, int R, typename Layout = C_layout, char Algebra = 'A', typename Container = heap<>> class basic_array;
  template <typename T, int R, typename Layout = C_stride_layout, char Algebra = 'A', typename Accessor = default_accessor, typename Owning = borrowed<>> class basic_array_view;

  template <typename T, int R, typename L = C_layout> using array = basic_array<T, R, L, 'A', heap<>>;
  template <typename T, typename L = C_layout> using matrix = basic_array<T, 2, L, 'M', heap<>>;
  template <typename T> using vector = basic_array<T, 1, C_layout, 'V', heap<>>;
  template <typename T, int R, typename L = C_stride_layout> using array_view = basic_array_view<T, R, L, 'A', default_accessor, borrowed<>>;
  template <typename T, int R, typename L = C_stride_layout> using array_const_view = basic_array_view<T const, R, L, 'A', default_accessor, borrowed<>>;
  template <typename T, typename L = C_stride_layout> using matrix_view = basic_array_view<T, 2, L, 'M', default_accessor, borrowed<>>;
  template <typename T, typename L = C_stride_layout> using matrix_const_view = basic_array_view<T const, 2, L, 'M', default_accessor, borrowed<>>;
  template <typename T> using vector_view = basic_array_view<T, 1, C_stride_layout, 'V', default_accessor, borrowed<>>;
  template <typename T> using vector_const_view = basic_array_view<T const, 1, C_stride_layout, 'V', default_accessor, borrowed<>>;
  template <typename T, int R> using array_contiguous_view = array_view<T, R, C_layout>;
  template <typename T, int R> using array_contiguous_const_view = array_const_view<T, R, C_layout>;
  template <typename T, int N, int R = 1> struct stack_vector_impl { using type = vector<T>; };

  // ------------------------------------------------------------------ iterator over all the elements, in C order
  template <typename T, int R> struct arr_iterator {
    using value_type = std::remove_const_t<T>; using reference = T &; using pointer = T *; using difference_type = long; using iterator_category = std::random_access_iterator_tag;
    idx_map<R> m; T *base = nullptr; long n = 0, last = 0;
    T &operator*() const { if (n < 0 or n >= last) throw std::runtime_error("nda: iterator out of range"); if constexpr (R == 1) return base[n * m.strides()[0]]; else return base[m.offset(m.to_idx(n))]; }
    T *operator->() const { return &**this; }
    T &operator[](long k) const { auto c = *this; c.n += k; return *c; }
    auto indices() const { return m.to_idx(n); }
    arr_iterator &operator++() { ++n; return *this; }
    arr_iterator operator++(int) { auto c = *this; ++n; return c; }
    arr_iterator &operator--() { --n; return *this; }
    arr_iterator operator--(int) { auto c = *this; --n; return c; }
    arr_iterator &operator+=(long k) { n += k; return *this; }
    arr_iterator &operator-=(long k) { n -= k; return *this; }
    friend arr_iterator operator+(arr_iterator a, long k) { return a += k; }
    friend arr_iterator operator+(long k, arr_iterator a) { return a += k; }
    friend arr_iterator operator-(arr_iterator a, long k) { return a -= k; }
    friend long operator-(arr_iterator const &a, arr_iterator const &b) { return a.n - b.n; }
    bool operator==(arr_iterator const &o) const { return n == o.n; }
    auto operator<=>(arr_iterator const &o) const { return n <=> o.n; }
  };

  template <size_t R, typename F> void for_each(std::array<long, R> const &shape, F &&f) {
    long n = 1; for (auto x : shape) n *= x;
    std::array<long, R> ix{};
    for (long k = 0; k < n; ++k) { std::apply([&](auto... i) { f(i...); }, ix); for (int d = int(R) - 1; d >= 0; --d) { if (++ix[d] < shape[d]) break; ix[d] = 0; } }
  }
  template <typename I, size_t R, typename F> requires(not std::is_same_v<I, long>) void for_each(std::array<I, R> const &shape, F &&f) { for_each(stdutil::make_std_array<long>(shape), f); }

  // ------------------------------------------------------------------ common to containers and views
  namespace detail {
    template <typename A> inline constexpr bool is_ell = std::is_same_v<std::remove_cvref_t<A>, ellipsis>;
    template <typename A> inline constexpr bool is_all = std::is_same_v<std::remove_cvref_t<A>, range::all_t>;
    template <typename A> inline constexpr bool is_rng = std::is_base_of_v<itertools::range, std::remove_cvref_t<A>>;
    template <typename A> inline constexpr bool is_int = std::is_convertible_v<A, long> and not is_all<A> and not is_ell<A> and not is_rng<A>;
    template <typename... A> inline constexpr int n_ell = (0 + ... + int(is_ell<A>));
    template <typename... A> inline constexpr int n_int = (0 + ... + int(is_int<A>));

    // slices the map, returns (offset, lengths, strides) in out
    template <int R, int Q> struct slicer {
      idx_map<R> const &m; long off = 0; std::array<long, Q> l{}, s{}; int i = 0, q = 0;
      template <typename A> void operator()(A const &a, int nell) {
        if constexpr (is_ell<A>) { for (int k = 0; k < nell; ++k) keep(); }
        else if constexpr (is_all<A>) keep();
        else if constexpr (is_rng<A>) {
          long n = a.size(), L = m.lengths()[i];
          if (n > 0) { long b = a.first(), e = b + (n - 1) * a.step(); if (b < 0 or b >= L or e < 0 or e >= L) throw std::runtime_error("nda: range [" + std::to_string(a.first()) + ", " + std::to_string(a.last()) + ") out of the dimension " + std::to_string(L)); off += b * m.strides()[i]; }
          l[q] = n; s[q] = a.step() * m.strides()[i]; ++q; ++i;
        } else {
          long x = static_cast<long>(a);
          if (x < 0 or x >= m.lengths()[i]) throw std::runtime_error("nda: index " + std::to_string(x) + " out of range [0, " + std::to_string(m.lengths()[i]) + ") in dimension " + std::to_string(i));
          off += x * m.strides()[i]; ++i;
        }
      }
      void keep() { l[q] = m.lengths()[i]; s[q] = m.strides()[i]; ++q; ++i; }
    };
    constexpr char slice_algebra(char a, int r) { return a == 'M' ? (r == 2 ? 'M' : (r == 1 ? 'V' : 'A')) : (a == 'V' ? (r == 1 ? 'V' : 'A') : a); }

    // call operator
    template <char Alg, typename Self, typename... A> decltype(auto) call(Self &&self, A const &...a) {
      using S = std::remove_reference_t<Self>;
      constexpr int R = S::rank;
      using vt = std::conditional_t<std::is_const_v<S>, typename S::element_type const, typename S::element_type>;
      static_assert(n_ell<A...> <= 1, "at most one ellipsis");
      constexpr int nargs = sizeof...(A);
      if constexpr (n_ell<A...> == 0) static_assert(nargs == R, "nda: wrong number of arguments");
      else static_assert(nargs - 1 <= R, "nda: too many arguments");
      constexpr int Q = R - n_int<A...>;
      slicer<R, Q> sl{self.indexmap()};
      (sl(a, R - (nargs - n_ell<A...>)), ...);
      if constexpr (Q == 0) {
        if constexpr (S::is_view or std::is_lvalue_reference_v<Self>) { vt &r = const_cast<vt &>(self.data()[sl.off]); return static_cast<vt &>(r); }
        else { typename S::value_type r = self.data()[sl.off]; return r; }
      } else
        return basic_array_view<vt, Q, C_stride_layout, slice_algebra(Alg, Q)>{idx_map<Q>{sl.l, sl.s}, const_cast<vt *>(self.data() + sl.off)};
    }

    template <typename T> struct is_array_initializer : std::false_type {};
    template <typename A, typename V, size_t N> struct init_list_n;
  } // namespace detail

#define VP_NDA_COMMON                                                                                                                                  \
  layout_t const &indexmap() const { return lay; }                                                                                                    \
  std::array<long, R> const &shape() const { return lay.lengths(); }                                                                                  \
  long shape(int i) const { return lay.lengths()[i]; }                                                                                                \
  std::array<long, R> const &strides() const { return lay.strides(); }                                                                                \
  long extent(int i) const { if (i < 0 or i >= R) throw std::runtime_error("nda: extent of a dimension which does not exist"); return lay.lengths()[i]; } \
  long size() const { return lay.size(); }                                                                                                            \
  bool empty() const { return size() == 0; }                                                                                                          \
  bool is_contiguous() const { return lay.is_contiguous(); }                                                                                          \
  long is_empty() const { return size() == 0; }                                                                                                       \
  template <char Alg, bool Safe = false, typename Self, typename... A> static decltype(auto) call(Self &&self, A const &...a) {                        \
    return detail::call<Alg>(std::forward<Self>(self), a...);                                                                                         \
  }                                                                                                                                                   \
  template <typename... A> requires(sizeof...(A) > 0 and not clef::is_any_lazy<A...>) decltype(auto) operator()(A const &...a) const & { return detail::call<Algebra>(*this, a...); } \
  template <typename... A> requires(sizeof...(A) > 0 and not clef::is_any_lazy<A...>) decltype(auto) operator()(A const &...a) & { return detail::call<Algebra>(*this, a...); }       \
  template <typename... A> requires(sizeof...(A) > 0 and not clef::is_any_lazy<A...>) decltype(auto) operator()(A const &...a) && { return detail::call<Algebra>(std::move(*this), a...); } \
  template <typename... A> requires(clef::is_any_lazy<A...>) auto operator()(A &&...a) const & { return clef::make_expr_call(*this, std::forward<A>(a)...); } \
  template <typename... A> requires(clef::is_any_lazy<A...>) auto operator()(A &&...a) & { return clef::make_expr_call(*this, std::forward<A>(a)...); }       \
  template <typename... A> requires(clef::is_any_lazy<A...>) auto operator()(A &&...a) && { return clef::make_expr_call(std::move(*this), std::forward<A>(a)...); } \
  template <typename X> requires(not clef::is_any_lazy<X>) decltype(auto) operator[](X const &x) const & { static_assert(R == 1); return detail::call<Algebra>(*this, x); } \
  template <typename X> requires(not clef::is_any_lazy<X>) decltype(auto) operator[](X const &x) & { static_assert(R == 1); return detail::call<Algebra>(*this, x); }       \
  template <typename X> requires(not clef::is_any_lazy<X>) decltype(auto) operator[](X const &x) && { static_assert(R == 1); return detail::call<Algebra>(std::move(*this), x); } \
  template <typename X> requires(clef::is_any_lazy<X>) auto operator[](X &&x) const { return clef::make_expr_subscript(*this, std::forward<X>(x)); }    \
  template <typename X> requires(clef::is_any_lazy<X>) auto operator[](X &&x) { return clef::make_expr_subscript(*this, std::forward<X>(x)); }          \
  template <typename Rhs> auto &operator+=(Rhs const &r) { auto t = *this + r; assign_(t); return *this; }                                             \
  template <typename Rhs> auto &operator-=(Rhs const &r) { auto t = *this - r; assign_(t); return *this; }                                             \
  template <typename Rhs> auto &operator*=(Rhs const &r) { auto t = *this * r; assign_(t); return *this; }                                             \
  template <typename Rhs> auto &operator/=(Rhs const &r) { auto t = *this / r; assign_(t); return *this; }

  // copies the elements of rhs into lhs. rhs may overlap with lhs only if it is a temporary, hence the copy for views.
  template <typename L, typename A> void assign_elements(L &lhs, A const &rhs) {
    if (lhs.shape() != rhs.shape()) { std::ostringstream o; o << "nda: assignment of an array of shape " << rhs.shape() << " to one of shape " << lhs.shape(); throw std::runtime_error(o.str()); }
    constexpr int R = L::rank;
    auto const &m = lhs.indexmap(); long n = m.size(); auto *p = lhs.data();
    std::array<long, R> ix{};
    for (long k = 0; k < n; ++k) {
      if constexpr (MemoryArray<A>) p[m.offset(ix)] = rhs.data()[rhs.indexmap().offset(ix)];
      else p[m.offset(ix)] = std::apply([&](auto... i) -> decltype(auto) { return rhs(i...); }, ix);
      for (int d = R - 1; d >= 0; --d) { if (++ix[d] < lhs.shape()[d]) break; ix[d] = 0; }
    }
  }
  template <typename L, typename S> void fill_scalar(L &lhs, S const &x) {
    using V = typename L::value_type;
    if constexpr (L::algebra == 'M') {
      static_assert(L::rank == 2);
      for (long i = 0; i < lhs.extent(0); ++i) for (long j = 0; j < lhs.extent(1); ++j) { if (i == j) lhs(i, j) = x; else lhs(i, j) = V{}; }
    } else { auto const &m = lhs.indexmap(); long n = m.size(); for (long k = 0; k < n; ++k) lhs.data()[m.offset(m.to_idx(k))] = x; }
  }

  template <typename T> inline constexpr bool is_instance_init_shape = false;

  // ------------------------------------------------------------------ views
  template <typename T, int R, typename Layout, char Algebra, typename Accessor, typename Owning> class basic_array_view : public memory_array_tag {
    public:
    static constexpr int rank = R; static constexpr bool is_view = true; static constexpr bool is_const = std::is_const_v<T>; static constexpr char algebra = Algebra;
    using element_type = T; using value_type = std::remove_const_t<T>; using layout_policy_t = Layout; using layout_t = idx_map<R>;
    using regular_type = basic_array<value_type, R, C_layout, Algebra, heap<>>;
    using const_view_type = basic_array_view<T const, R, Layout, Algebra>;
    private:
    layout_t lay; T *p = nullptr;
    template <typename A> void assign_(A const &a) { assign_elements(*this, a); }
    public:
    basic_array_view() = default;
    basic_array_view(basic_array_view const &) = default;
    basic_array_view(layout_t const &m, T *q) : lay(m), p(q) {}
    template <typename U> basic_array_view(layout_t const &m, storage_t<U> const &s) : lay(m), p(s.data()) { if (m.size() > s.size()) throw std::runtime_error("nda: view larger than the memory"); }
    template <typename I> basic_array_view(std::array<I, R> const &sh, T *q) : lay(stdutil::make_std_array<long>(sh)), p(q) {}
    template <MemoryArrayOfRank<R> A>
      requires(not std::is_same_v<std::remove_cvref_t<A>, basic_array_view> and std::is_same_v<typename std::remove_cvref_t<A>::value_type, value_type>
               and (std::is_const_v<T> or not(std::is_const_v<std::remove_reference_t<A>> or std::is_const_v<typename std::remove_cvref_t<A>::element_type>)))
    basic_array_view(A &&a) : lay(a.indexmap()), p(const_cast<T *>(a.data())) {
      if constexpr (std::is_same_v<Layout, C_layout>) if (not lay.is_C()) throw std::runtime_error("nda: contiguous view of an array which is not");
    }
    template <size_t N> requires(R == 1) explicit basic_array_view(std::array<value_type, N> &a) : lay(std::array<long, 1>{long(N)}), p(a.data()) {}
    template <size_t N> requires(R == 1 and std::is_const_v<T>) explicit basic_array_view(std::array<value_type, N> const &a) : lay(std::array<long, 1>{long(N)}), p(a.data()) {}
    explicit basic_array_view(std::vector<value_type> &a) requires(R == 1) : lay(std::array<long, 1>{long(a.size())}), p(a.data()) {}
    explicit basic_array_view(std::vector<value_type> const &a) requires(R == 1 and std::is_const_v<T>) : lay(std::array<long, 1>{long(a.size())}), p(a.data()) {}

    basic_array_view &operator=(basic_array_view const &o) { if (lay == o.lay and p == o.p) return *this; *this = basic_array<value_type, R, C_layout, Algebra, heap<>>{o}; return *this; }
    template <ArrayOfRank<R> A> basic_array_view &operator=(A const &a) {
      if constexpr (is_view_v<A>) assign_(basic_array<typename A::value_type, R, C_layout, 'A', heap<>>{a}); else assign_(a);
      return *this;
    }
    template <typename S> requires(not Array<S> and not ArrayInitializer<S, basic_array_view> and std::is_assignable_v<value_type &, S const &>) basic_array_view &operator=(S const &x) { fill_scalar(*this, x); return *this; }
    template <ArrayInitializer<basic_array_view> I> basic_array_view &operator=(I const &in) { in.invoke(*this); return *this; }
    T const *data() const { return p; }
    T *data() { return p; }
    void rebind(basic_array_view const &o) { lay = o.lay; p = o.p; }
    template <typename U> requires(std::is_same_v<U const, T>) void rebind(basic_array_view<U, R, Layout, Algebra> o) { lay = o.indexmap(); p = o.data(); }
    friend void swap(basic_array_view &a, basic_array_view &b) { std::swap(a.lay, b.lay); std::swap(a.p, b.p); }
    auto begin() const { return arr_iterator<T const, R>{lay, p, 0, size()}; }
    auto end() const { return arr_iterator<T const, R>{lay, p, size(), size()}; }
    auto cbegin() const { return begin(); } auto cend() const { return end(); }
    auto begin() { return arr_iterator<T, R>{lay, p, 0, size()}; }
    auto end() { return arr_iterator<T, R>{lay, p, size(), size()}; }
    auto operator()() const & { return const_view_type{lay, p}; }
    auto operator()() & { return basic_array_view{*this}; }
    auto operator()() && { return basic_array_view{*this}; }
    auto as_array_view() { return basic_array_view<T, R, Layout, 'A'>{lay, p}; }
    auto as_array_view() const { return basic_array_view<T const, R, Layout, 'A'>{lay, p}; }
    auto storage() const { return p; }
    operator T() const requires(R == 0) { return *p; }
    template <typename L2> static basic_array_view from_(L2) = delete;
    VP_NDA_COMMON
  };

  // ------------------------------------------------------------------ containers
  template <typename T, int R, typename Layout, char Algebra, typename Container> class basic_array : public memory_array_tag {
    static_assert(not std::is_const_v<T>);
    public:
    static constexpr int rank = R; static constexpr bool is_view = false; static constexpr bool is_const = false; static constexpr char algebra = Algebra;
    using element_type = T; using value_type = T; using layout_policy_t = Layout; using layout_t = idx_map<R>;
    using regular_type = basic_array;
    private:
    layout_t lay; storage_t<T> mem;
    template <typename A> void assign_(A const &a) { *this = a; }
    static layout_t mk(std::array<long, R> const &s) { for (auto x : s) if (x < 0) throw std::runtime_error("nda: negative extent"); return layout_t::template make<Layout>(s); }
    public:
    basic_array() requires(R > 0) = default;
    basic_array() requires(R == 0) : lay(std::array<long, 0>{}), mem(1) {}
    basic_array(basic_array const &) = default;
    basic_array(basic_array &&o) noexcept : lay(std::exchange(o.lay, layout_t{})), mem(std::move(o.mem)) {}
    template <typename... I> requires(sizeof...(I) == R and R > 0 and (std::is_convertible_v<I, long> and ...)) explicit basic_array(I... i) : lay(mk({long(i)...})), mem(lay.size()) {}
    template <std::integral I, typename S> requires(R == 1 and std::is_convertible_v<S, T>) explicit basic_array(I n, S const &x) : lay(mk({long(n)})), mem(lay.size()) { std::fill_n(mem.data(), mem.size(), T(x)); }
    template <std::integral I> explicit basic_array(std::array<I, R> const &s) requires(std::is_default_constructible_v<T>) : lay(mk(stdutil::make_std_array<long>(s))), mem(lay.size()) {}
    explicit basic_array(layout_t const &m) : basic_array(m.lengths()) {}
    basic_array(layout_t const &m, storage_t<T> &&s) : lay(m), mem(std::move(s)) {}
    template <ArrayOfRank<R> A> requires(std::is_constructible_v<T, get_value_t<A>> and not std::is_same_v<A, basic_array>) basic_array(A const &a) : lay(mk(a.shape())), mem(lay.size()) { assign_elements(*this, a); }
    template <ArrayInitializer<basic_array> I> basic_array(I const &in) : basic_array(in.shape()) { in.invoke(*this); }
    basic_array(std::initializer_list<T> l) requires(R == 1) : lay(mk({long(l.size())})), mem(lay.size()) { std::copy(l.begin(), l.end(), mem.data()); }
    basic_array(std::initializer_list<std::initializer_list<T>> l) requires(R == 2) : lay(mk({long(l.size()), l.size() ? long(l.begin()->size()) : 0l})), mem(lay.size()) {
      long i = 0; for (auto const &r : l) { if (long(r.size()) != lay.lengths()[1]) throw std::runtime_error("nda: initializer list is not rectangular"); long j = 0; for (auto const &x : r) mem[lay(i, j++)] = x; ++i; }
    }
    basic_array(std::initializer_list<std::initializer_list<std::initializer_list<T>>> l) requires(R == 3)
       : lay(mk({long(l.size()), l.size() ? long(l.begin()->size()) : 0l, l.size() and l.begin()->size() ? long(l.begin()->begin()->size()) : 0l})), mem(lay.size()) {
      long i = 0; for (auto const &r : l) { long j = 0; for (auto const &s : r) { long k = 0; for (auto const &x : s) mem[lay(i, j, k++)] = x; ++j; } ++i; }
    }
    template <char A2> requires(A2 != Algebra) explicit basic_array(basic_array<T, R, Layout, A2, Container> &&o) : basic_array(o.indexmap(), std::move(o.mem_())) {}
    storage_t<T> &mem_() { return mem; }

    basic_array &operator=(basic_array const &) = default;
    basic_array &operator=(basic_array &&o) noexcept { lay = std::exchange(o.lay, layout_t{}); mem = std::move(o.mem); return *this; }
    template <ArrayOfRank<R> A> requires(not std::is_same_v<A, basic_array>) basic_array &operator=(A const &a) {
      if constexpr (is_view_v<A> and std::is_same_v<get_value_t<A>, T>) { basic_array t{a}; if (shape() == t.shape()) assign_elements(*this, t); else *this = std::move(t); }
      else { resize(a.shape()); assign_elements(*this, a); }
      return *this;
    }
    template <typename S> requires(not Array<S> and not ArrayInitializer<S, basic_array> and std::is_assignable_v<T &, S const &>) basic_array &operator=(S const &x) { fill_scalar(*this, x); return *this; }
    template <ArrayInitializer<basic_array> I> basic_array &operator=(I const &in) { resize(in.shape()); in.invoke(*this); return *this; }
    template <typename... I> requires(sizeof...(I) == R and R > 0 and (std::is_convertible_v<I, long> and ...)) void resize(I... i) { resize(std::array<long, R>{long(i)...}); }
    template <typename I> void resize(std::array<I, R> const &s) { auto sh = stdutil::make_std_array<long>(s); if (lay.lengths() == sh) return; *this = basic_array{sh}; }
    template <typename... I> void reshape_in_place(I... i) = delete;
    T const *data() const { return mem.data(); }
    T *data() { return mem.data(); }
    storage_t<T> const &storage() const & { return mem; }
    storage_t<T> &storage() & { return mem; }
    friend void swap(basic_array &a, basic_array &b) noexcept { std::swap(a.lay, b.lay); std::swap(a.mem, b.mem); }
    auto begin() const { return arr_iterator<T const, R>{lay, mem.data(), 0, size()}; }
    auto end() const { return arr_iterator<T const, R>{lay, mem.data(), size(), size()}; }
    auto cbegin() const { return begin(); } auto cend() const { return end(); }
    auto begin() { return arr_iterator<T, R>{lay, mem.data(), 0, size()}; }
    auto end() { return arr_iterator<T, R>{lay, mem.data(), size(), size()}; }
    auto operator()() const & { return basic_array_view<T const, R, Layout, Algebra>{*this}; }
    auto operator()() & { return basic_array_view<T, R, Layout, Algebra>{*this}; }
    auto operator()() && { return basic_array_view<T, R, Layout, Algebra>{*this}; }
    auto as_array_view() { return basic_array_view<T, R, Layout, 'A'>{lay, mem.data()}; }
    auto as_array_view() const { return basic_array_view<T const, R, Layout, 'A'>{lay, mem.data()}; }
    operator T() const requires(R == 0) { return mem[0]; }
    template <std::integral I = long> static basic_array zeros(std::array<I, R> const &s) { basic_array r(s); std::fill_n(r.mem.data(), r.mem.size(), T{}); return r; }
    template <typename... I> requires(sizeof...(I) == R) static basic_array zeros(I... i) { return zeros(std::array<long, R>{long(i)...}); }
    template <std::integral I = long> static basic_array ones(std::array<I, R> const &s) { basic_array r(s); std::fill_n(r.mem.data(), r.mem.size(), T(1)); return r; }
    template <typename... I> requires(sizeof...(I) == R) static basic_array ones(I... i) { return ones(std::array<long, R>{long(i)...}); }
    template <std::integral I = long> static basic_array rand(std::array<I, R> const &s);
    template <typename... I> requires(sizeof...(I) == R) static basic_array rand(I... i) { return rand(std::array<long, R>{long(i)...}); }
    VP_NDA_COMMON
  };
  template <typename V> basic_array(std::initializer_list<V>) -> basic_array<V, 1, C_layout, 'A', heap<>>;
  template <typename V> basic_array(std::initializer_list<std::initializer_list<V>>) -> basic_array<V, 2, C_layout, 'A', heap<>>;
  template <typename V> basic_array(std::initializer_list<std::initializer_list<std::initializer_list<V>>>) -> basic_array<V, 3, C_layout, 'A', heap<>>;
  template <Array A> basic_array(A const &) -> basic_array<get_value_t<A>, get_rank<A>, C_layout, get_algebra<A> == 'N' ? 'A' : get_algebra<A>, heap<>>;
  template <typename T, int R, typename L, char A, typename C> basic_array_view(basic_array<T, R, L, A, C> &) -> basic_array_view<T, R, C_stride_layout, A>;
  template <typename T, int R, typename L, char A, typename Ac, typename O> basic_array_view(basic_array_view<T, R, L, A, Ac, O> const &) -> basic_array_view<T, R, L, A, Ac, O>;
  template <typename T, int R, typename L, char A, typename C> basic_array_view(basic_array<T, R, L, A, C> const &) -> basic_array_view<T const, R, C_stride_layout, A>;
  template <typename T, size_t N> basic_array_view(std::array<T, N> &) -> basic_array_view<T, 1, C_stride_layout, 'V'>;
  template <typename T, size_t N> basic_array_view(std::array<T, N> const &) -> basic_array_view<T const, 1, C_stride_layout, 'V'>;
  template <typename T> basic_array_view(std::vector<T> &) -> basic_array_view<T, 1, C_stride_layout, 'V'>;
  template <typename T> basic_array_view(std::vector<T> const &) -> basic_array_view<T const, 1, C_stride_layout, 'V'>;

  template <typename T, int N> struct stack_vector : vector<T> { // of static size N
    stack_vector() : vector<T>(N) {}
    template <std::integral I> explicit stack_vector(std::array<I, 1> const &) : vector<T>(N) {}
    template <typename A> requires(Array<A>) stack_vector(A const &a) : vector<T>(a) { check(); }
    stack_vector(std::initializer_list<T> l) : vector<T>(l) { check(); }
    template <typename X> requires(std::is_assignable_v<vector<T> &, X const &>) stack_vector &operator=(X const &x) { vector<T>::operator=(x); check(); return *this; }
    void check() const { if (this->size() != N) throw std::runtime_error("nda: size of a stack_vector"); }
    using vector<T>::resize;
  };

  // a function seen as an array
  template <size_t R, typename F> struct array_adapter : array_tag {
    static constexpr int rank = R; static constexpr char algebra = 'A';
    std::array<long, R> sh; F f;
    template <typename I> array_adapter(std::array<I, R> const &s, F g) : sh(stdutil::make_std_array<long>(s)), f(std::move(g)) {}
    std::array<long, R> const &shape() const { return sh; }
    long size() const { return stdutil::product(sh); }
    long extent(int i) const { return sh[i]; }
    template <typename... I> auto operator()(I const &...i) const { return f(i...); }
    template <typename I> auto operator[](I i) const { return f(i); }
    template <size_t... I> static auto vt_(std::index_sequence<I...>) -> std::remove_cvref_t<decltype(std::declval<F const &>()((static_cast<void>(I), 0l)...))>;
    using value_type = decltype(vt_(std::make_index_sequence<R>{}));
  };
  template <typename I, size_t R, typename F> array_adapter(std::array<I, R> const &, F) -> array_adapter<R, F>;

  // ------------------------------------------------------------------ make_...
  template <typename A> decltype(auto) make_regular(A &&a) {
    if constexpr (Array<A>) { using V = get_value_t<A>; return basic_array<V, get_rank<A>, C_layout, get_algebra<A>, heap<>>{std::forward<A>(a)}; }
    else if constexpr (requires { typename std::remove_cvref_t<A>::regular_type; }) return typename std::remove_cvref_t<A>::regular_type{std::forward<A>(a)};
    else if constexpr (std::is_rvalue_reference_v<A &&>) return std::remove_cvref_t<A>(a);
    else return std::forward<A>(a);
  }
  namespace detail {
    template <char Alg, typename A> auto as(A &&a) {
      using S = std::remove_reference_t<A>; using vt = std::conditional_t<std::is_const_v<S>, typename S::element_type const, typename S::element_type>;
      return basic_array_view<vt, S::rank, C_stride_layout, Alg>{a.indexmap(), const_cast<vt *>(a.data())};
    }
  } // namespace detail
  template <MemoryArray A> auto make_array_view(A &&a) { return detail::as<'A'>(a); }
  template <MemoryArray A> auto make_matrix_view(A &&a) { static_assert(get_rank<A> == 2); return detail::as<'M'>(a); }
  template <MemoryArray A> auto make_vector_view(A &&a) { static_assert(get_rank<A> == 1); return detail::as<'V'>(a); }
  template <MemoryArray A> auto make_array_const_view(A const &a) { return basic_array_view<get_value_t<A> const, get_rank<A>, C_stride_layout, 'A'>{a}; }
  template <MemoryArray A> auto make_const_view(A const &a) { return basic_array_view<get_value_t<A> const, get_rank<A>, C_stride_layout, get_algebra<A>>{a}; }

  template <typename A> requires(requires(A const &a) { a.extent(0); }) long first_dim(A const &a) { return a.extent(0); }
  template <typename A> requires(requires(A const &a) { a.extent(1); }) long second_dim(A const &a) { return a.extent(1); }
  template <typename A> requires(requires(A const &a) { a.extent(2); }) long third_dim(A const &a) { return a.extent(2); }
  template <typename A, typename B> void deep_swap(A &&a, B &&b) { auto t = make_regular(a); a = b; b = t; }

  // axis i of the result is axis p[i] of a
  template <uint64_t P, typename A> auto permuted_indices_view(A &&a) {
    using S = std::remove_reference_t<A>; constexpr int R = S::rank; constexpr auto p = decode<R>(P);
    using vt = std::conditional_t<std::is_const_v<S>, typename S::element_type const, typename S::element_type>;
    std::array<long, R> l, s; for (int i = 0; i < R; ++i) { l[i] = a.shape()[p[i]]; s[i] = a.indexmap().strides()[p[i]]; }
    return basic_array_view<vt, R, C_stride_layout, S::algebra>{idx_map<R>{l, s}, const_cast<vt *>(a.data())};
  }
  template <int I, int J, typename A> auto transposed_view(A &&a) { return permuted_indices_view<encode(permutations::transposition<get_rank<A>>(I, J))>(a); }
  template <MemoryArray A> auto transpose(A &&a) {
    constexpr int R = get_rank<A>; auto v = permuted_indices_view<encode(permutations::reverse_identity<R>())>(a);
    if constexpr (not is_view_v<A> and not std::is_lvalue_reference_v<A>) return make_regular(v); else return v;
  }
  template <typename A, typename I, size_t N> auto reshape(A &&a, std::array<I, N> const &sh0) {
    auto sh = stdutil::make_std_array<long>(sh0);
    if (stdutil::product(sh) != a.size()) throw std::runtime_error("nda: reshape changes the size");
    if (not a.indexmap().is_C()) throw std::runtime_error("nda: reshape of a non contiguous array");
    using S = std::remove_reference_t<A>; constexpr char Alg = (N == 2 and S::algebra == 'M') ? 'M' : (N == 1 and S::algebra == 'V' ? 'V' : 'A');
    using vt = std::conditional_t<std::is_const_v<S>, typename S::element_type const, typename S::element_type>;
    if constexpr (not S::is_view and not std::is_lvalue_reference_v<A>) { basic_array<typename S::value_type, N, C_layout, Alg, heap<>> r(sh); std::copy_n(a.data(), a.size(), r.data()); return r; }
    else return basic_array_view<vt, N, C_layout, Alg>{idx_map<N>{sh}, const_cast<vt *>(a.data())};
  }
  template <typename A, typename... I> requires(sizeof...(I) > 0 and (std::is_integral_v<I> and ...)) auto reshape(A &&a, I... i) { return reshape(std::forward<A>(a), std::array<long, sizeof...(I)>{long(i)...}); }
  template <typename A> auto flatten(A &&a) { return reshape(std::forward<A>(a), std::array<long, 1>{a.size()}); }
  template <int N, typename A> auto reinterpret_add_fast_dims_of_size_one(A &&a) {
    using S = std::remove_reference_t<A>; constexpr int R = S::rank; using vt = std::conditional_t<std::is_const_v<S>, typename S::element_type const, typename S::element_type>;
    std::array<long, R + N> l, s; l.fill(1); s.fill(1); for (int i = 0; i < R; ++i) { l[i] = a.shape()[i]; s[i] = a.indexmap().strides()[i]; }
    return basic_array_view<vt, R + N, C_stride_layout, 'A'>{idx_map<R + N>{l, s}, const_cast<vt *>(a.data())};
  }

  // ------------------------------------------------------------------ factories
  template <typename T, std::integral I, size_t R> auto zeros(std::array<I, R> const &s) { if constexpr (R == 0) return T{}; else return array<T, R>::zeros(s); }
  template <typename T, std::integral... I> auto zeros(I... i) { return array<T, sizeof...(I)>::zeros(std::array<long, sizeof...(I)>{long(i)...}); }
  template <typename T, std::integral I, size_t R> auto ones(std::array<I, R> const &s) { if constexpr (R == 0) return T{1}; else return array<T, R>::ones(s); }
  template <typename T, std::integral... I> auto ones(I... i) { return array<T, sizeof...(I)>::ones(std::array<long, sizeof...(I)>{long(i)...}); }
  inline std::mt19937_64 &rand_engine() { static thread_local std::mt19937_64 e{42}; return e; }
  template <typename T = double> T rand() {
    std::uniform_real_distribution<double> d(0, 1);
    if constexpr (is_complex_v<T>) return {d(rand_engine()), d(rand_engine())}; else return T(d(rand_engine()));
  }
  template <typename T = double, std::integral I, size_t R> auto rand(std::array<I, R> const &s) { array<T, R> r(s); for (auto &x : r) x = nda::rand<T>(); return r; }
  template <typename T = double, std::integral... I> requires(sizeof...(I) > 0) auto rand(I... i) { return nda::rand<T>(std::array<long, sizeof...(I)>{long(i)...}); }
  template <typename T, int R, typename L, char A, typename C> template <std::integral I> basic_array<T, R, L, A, C> basic_array<T, R, L, A, C>::rand(std::array<I, R> const &s) { return basic_array(nda::rand<T>(s)); }
  template <typename T = double> matrix<T> eye(long n) { matrix<T> m(n, n); m = T(1); return m; }
  template <typename T = double> matrix<T> eye(std::array<long, 2> const &s) { matrix<T> m(s); m = T(1); return m; }
  template <typename T> array<T, 1> arange(T first, T last, T step = 1) { std::vector<T> v; for (T i = first; step > 0 ? i < last : i > last; i += step) v.push_back(i); array<T, 1> r(v.size()); std::copy(v.begin(), v.end(), r.data()); return r; }
  inline array<long, 1> arange(long last) { return arange<long>(0, last); }
  template <typename V> requires(Array<V> and get_rank<V> == 1) auto diag(V const &v) { matrix<get_value_t<V>> m(v.size(), v.size()); m = get_value_t<V>{}; for (long i = 0; i < v.size(); ++i) m(i, i) = v(i); return m; }
  template <typename T> auto diag(std::initializer_list<T> l) { return diag(array<T, 1>(l)); }
  template <typename T, size_t N> auto diag(std::array<T, N> const &v) { matrix<T> m(N, N); m = T{}; for (size_t i = 0; i < N; ++i) m(i, i) = v[i]; return m; }
  template <typename M> requires(MemoryArray<M> and get_rank<M> == 2) auto diagonal(M &&m) {
    using S = std::remove_reference_t<M>; using vt = std::conditional_t<std::is_const_v<S>, typename S::element_type const, typename S::element_type>;
    return basic_array_view<vt, 1, C_stride_layout, 'V'>{idx_map<1>{{std::min(m.extent(0), m.extent(1))}, {m.indexmap().strides()[0] + m.indexmap().strides()[1]}}, const_cast<vt *>(m.data())};
  }

  // ------------------------------------------------------------------ element-wise operations
  namespace detail {
    template <typename A> decltype(auto) elem(A const &a, auto const &ix) {
      if constexpr (MemoryArray<A>) return (a.data()[a.indexmap().offset(ix)]); else return std::apply([&](auto... i) -> decltype(auto) { return a(i...); }, ix);
    }
    template <char Alg, typename F, typename A, typename... B> auto zip_with(F &&f, A const &a, B const &...b) {
      constexpr int R = get_rank<A>;
      auto const sh = a.shape();
      ([&] { if (sh != b.shape()) { std::ostringstream o; o << "nda: operation on arrays of shapes " << sh << " and " << b.shape(); throw std::runtime_error(o.str()); } }(), ...);
      std::array<long, R> ix{};
      using V = std::remove_cvref_t<decltype(f(elem(a, ix), elem(b, ix)...))>;
      basic_array<V, R, C_layout, Alg, heap<>> r(sh);
      long n = r.size();
      for (long k = 0; k < n; ++k) {
        r.data()[k] = f(elem(a, ix), elem(b, ix)...);
        for (int d = R - 1; d >= 0; --d) { if (++ix[d] < sh[d]) break; ix[d] = 0; }
      }
      return r;
    }
    template <typename A> inline constexpr char alg = get_algebra<A> == 'N' ? 'A' : get_algebra<A>;
    template <typename S, typename V> concept ScalarFor = not Array<S> and not clef::is_any_lazy<S> and (is_scalar_v<S> or std::is_convertible_v<S, V>);
  } // namespace detail

  template <typename F> struct mapped { F f; template <Array A, typename... B> auto operator()(A const &a, B const &...b) const { return detail::zip_with<detail::alg<A>>(f, a, b...); } };
  template <typename F> mapped<F> map(F f) { return {std::move(f)}; }

  template <Array A> auto operator-(A const &a) { return detail::zip_with<detail::alg<A>>([](auto const &x) { return -x; }, a); }
#define VP_AOP(OP)                                                                                                                                     \
  template <Array A, Array B> requires(get_rank<A> == get_rank<B>) auto operator OP(A const &a, B const &b) {                                          \
    return detail::zip_with<detail::alg<A>>([](auto const &x, auto const &y) { return x OP y; }, a, b);                                                \
  }                                                                                                                                                    \
  template <Array A, typename S> requires(detail::ScalarFor<S, get_value_t<A>>) auto operator OP(A const &a, S const &s) {                             \
    if constexpr (detail::alg<A> == 'M') {                                                                                                             \
      using V = std::remove_cvref_t<decltype(a(0l, 0l) OP s)>; matrix<V> r(a);                                                                         \
      for (long i = 0; i < std::min(r.extent(0), r.extent(1)); ++i) r(i, i) = a(i, i) OP s; return r;                                                   \
    } else return detail::zip_with<detail::alg<A>>([&](auto const &x) { return x OP s; }, a);                                                          \
  }                                                                                                                                                    \
  template <Array A, typename S> requires(detail::ScalarFor<S, get_value_t<A>>) auto operator OP(S const &s, A const &a) {                             \
    if constexpr (detail::alg<A> == 'M') {                                                                                                             \
      using V = std::remove_cvref_t<decltype(s OP a(0l, 0l))>; matrix<V> r(a.shape());                                                                 \
      for (long i = 0; i < r.extent(0); ++i) for (long j = 0; j < r.extent(1); ++j) { if (i == j) r(i, j) = s OP a(i, j); else r(i, j) = V{} OP a(i, j); } return r; \
    } else return detail::zip_with<detail::alg<A>>([&](auto const &x) { return s OP x; }, a);                                                          \
  }
  VP_AOP(+) VP_AOP(-)
#undef VP_AOP

  template <typename A, typename B> auto matmul(A const &a, B const &b) {
    if (a.extent(1) != b.extent(0)) { std::ostringstream o; o << "nda: matrix product of shapes " << a.shape() << " and " << b.shape(); throw std::runtime_error(o.str()); }
    using V = std::remove_cvref_t<decltype(a(0l, 0l) * b(0l, 0l) + a(0l, 0l) * b(0l, 0l))>;
    matrix<V> r(a.extent(0), b.extent(1));
    for (long i = 0; i < r.extent(0); ++i) for (long j = 0; j < r.extent(1); ++j) { V s{}; for (long k = 0; k < a.extent(1); ++k) s += a(i, k) * b(k, j); r(i, j) = s; }
    return r;
  }
  template <typename A, typename B> auto matvecmul(A const &a, B const &b) {
    if (a.extent(1) != b.extent(0)) { std::ostringstream o; o << "nda: matrix vector product of shapes " << a.shape() << " and " << b.shape(); throw std::runtime_error(o.str()); }
    using V = std::remove_cvref_t<decltype(a(0l, 0l) * b(0l) + a(0l, 0l) * b(0l))>;
    vector<V> r(a.extent(0));
    for (long i = 0; i < r.extent(0); ++i) { V s{}; for (long k = 0; k < a.extent(1); ++k) s += a(i, k) * b(k); r(i) = s; }
    return r;
  }
  template <typename M> matrix<get_value_t<M>> inverse(M const &m);
  template <Array A, Array B> auto operator*(A const &a, B const &b) {
    if constexpr (detail::alg<A> == 'M' and get_rank<B> == 1) return matvecmul(a, b);
    else if constexpr (detail::alg<A> == 'M' or detail::alg<B> == 'M') return matmul(a, b);
    else return detail::zip_with<detail::alg<A>>([](auto const &x, auto const &y) { return x * y; }, a, b);
  }
  template <Array A, typename S> requires(detail::ScalarFor<S, get_value_t<A>>) auto operator*(A const &a, S const &s) { return detail::zip_with<detail::alg<A>>([&](auto const &x) { return x * s; }, a); }
  template <Array A, typename S> requires(detail::ScalarFor<S, get_value_t<A>>) auto operator*(S const &s, A const &a) { return detail::zip_with<detail::alg<A>>([&](auto const &x) { return s * x; }, a); }
  template <Array A, Array B> auto operator/(A const &a, B const &b) {
    if constexpr (detail::alg<A> == 'M' and detail::alg<B> == 'M') return matmul(a, inverse(b));
    else return detail::zip_with<detail::alg<A>>([](auto const &x, auto const &y) { return x / y; }, a, b);
  }
  template <Array A, typename S> requires(detail::ScalarFor<S, get_value_t<A>>) auto operator/(A const &a, S const &s) { return detail::zip_with<detail::alg<A>>([&](auto const &x) { return x / s; }, a); }
  template <Array A, typename S> requires(detail::ScalarFor<S, get_value_t<A>>) auto operator/(S const &s, A const &a) {
    if constexpr (detail::alg<A> == 'M') return s * inverse(a);
    else return detail::zip_with<detail::alg<A>>([&](auto const &x) { return s / x; }, a);
  }
  template <Array A, Array B> bool operator==(A const &a, B const &b) {
    if constexpr (get_rank<A> != get_rank<B>) return false;
    else {
      if (a.shape() != b.shape()) return false;
      bool eq = true; for_each(a.shape(), [&](auto... i) { if (not(a(i...) == b(i...))) eq = false; }); return eq;
    }
  }
  template <Array A> std::ostream &operator<<(std::ostream &out, A const &a) {
    if constexpr (get_rank<A> == 1) { out << "["; for (long i = 0; i < a.extent(0); ++i) out << (i ? "," : "") << a(i); return out << "]"; }
    else if constexpr (get_rank<A> == 2) {
      out << "\n["; for (long i = 0; i < a.extent(0); ++i) { out << (i ? "\n [" : "["); for (long j = 0; j < a.extent(1); ++j) out << (j ? "," : "") << a(i, j); out << "]"; } return out << "]";
    } else { out << "["; bool f = true; for_each(a.shape(), [&](auto... i) { out << (f ? "" : ",") << a(i...); f = false; }); return out << "]"; }
  }

  // ------------------------------------------------------------------ functions
  template <typename T> requires(is_scalar_v<T>) auto conj(T const &x) { if constexpr (is_complex_v<T>) return std::conj(x); else return x; }
  template <typename T> requires(is_scalar_v<T>) auto real(T const &x) { if constexpr (is_complex_v<T>) return x.real(); else return x; }
  template <typename T> requires(is_scalar_v<T>) auto imag(T const &x) { if constexpr (is_complex_v<T>) return x.imag(); else return T{}; }
  template <typename T> requires(is_scalar_v<T>) auto abs2(T const &x) { if constexpr (is_complex_v<T>) return std::norm(x); else return x * x; }
  template <typename T> requires(is_scalar_v<T>) bool isnan(T const &x) { if constexpr (is_complex_v<T>) return std::isnan(x.real()) or std::isnan(x.imag()); else return std::isnan(x); }
  template <typename T> requires(std::is_arithmetic_v<T>) double floor(T x) { return std::floor(x); }
  template <typename T> requires(std::is_integral_v<T>) double pow(T x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
#define VP_MAP(NAME) template <Array A> auto NAME(A const &a) { return detail::zip_with<detail::alg<A>>([](auto const &x) { using std::abs; using std::NAME; return NAME(x); }, a); }
#define VP_MAPN(NAME) template <Array A> auto NAME(A const &a) { return detail::zip_with<detail::alg<A>>([](auto const &x) { return nda::NAME(x); }, a); }
  VP_MAP(abs) VP_MAP(exp) VP_MAP(cos) VP_MAP(sin) VP_MAP(tan) VP_MAP(cosh) VP_MAP(sinh) VP_MAP(tanh) VP_MAP(log) VP_MAP(sqrt)
  VP_MAPN(conj) VP_MAPN(real) VP_MAPN(imag) VP_MAPN(abs2) VP_MAPN(floor) VP_MAPN(isnan)
  template <Array A> auto pow(A const &a, double n) { return detail::zip_with<detail::alg<A>>([n](auto const &x) { using std::pow; return pow(x, n); }, a); }
  template <Array A> auto dagger(A const &a) { return conj(make_regular(transpose(a))); }
  template <Array A> auto trace(A const &a) { if (a.extent(0) != a.extent(1)) throw std::runtime_error("nda: trace of a matrix which is not square"); get_value_t<A> s{}; for (long i = 0; i < a.extent(0); ++i) s += a(i, i); return s; }
  template <Array A> auto sum(A const &a) { get_value_t<A> s{}; for_each(a.shape(), [&](auto... i) { s += a(i...); }); return s; }
  template <Array A> auto product(A const &a) { get_value_t<A> s{1}; for_each(a.shape(), [&](auto... i) { s *= a(i...); }); return s; }
  template <Array A> auto max_element(A const &a) { if (a.size() == 0) throw std::runtime_error("nda: max_element of an empty array"); std::optional<get_value_t<A>> m; for_each(a.shape(), [&](auto... i) { auto x = a(i...); if (not m or *m < x) m = x; }); return *m; }
  template <Array A> auto min_element(A const &a) { if (a.size() == 0) throw std::runtime_error("nda: min_element of an empty array"); std::optional<get_value_t<A>> m; for_each(a.shape(), [&](auto... i) { auto x = a(i...); if (not m or x < *m) m = x; }); return *m; }
  template <Array A> bool any(A const &a) { bool r = false; for_each(a.shape(), [&](auto... i) { r = r or a(i...); }); return r; }
  template <Array A> bool all(A const &a) { bool r = true; for_each(a.shape(), [&](auto... i) { r = r and a(i...); }); return r; }
  template <Array A> double frobenius_norm(A const &a) { double s = 0; for_each(a.shape(), [&](auto... i) { s += abs2(a(i...)); }); return std::sqrt(s); }
  template <Array A> double norm(A const &a, double p = 2.0) {
    static_assert(get_rank<A> == 1);
    if (p == 2.0) return frobenius_norm(a);
    if (std::isinf(p)) { double m = 0; for_each(a.shape(), [&](auto... i) { m = std::max(m, std::abs(a(i...))); }); return m; }
    double s = 0; for_each(a.shape(), [&](auto... i) { s += std::pow(std::abs(a(i...)), p); }); return std::pow(s, 1 / p);
  }
  template <Array A> bool is_diagonal(A const &m) { if (m.extent(0) != m.extent(1)) return false; for (long i = 0; i < m.extent(0); ++i) for (long j = 0; j < m.extent(1); ++j) if (i != j and std::abs(m(i, j)) > 1e-13) return false; return true; }
  template <Array A> bool is_matrix_diagonal(A const &m) { return is_diagonal(m); }
  template <Array A> bool is_matrix_square(A const &m) { return m.extent(0) == m.extent(1); }

  // lazy calls : A(i_, j_) << expression
  template <MemoryArray A, typename F> void clef_auto_assign(A &&a, F const &f) {
    using S = std::remove_cvref_t<A>;
    for_each(a.shape(), [&](auto... i) {
      auto &&y = f(i...);
      if constexpr (clef::is_make_fun<std::remove_cvref_t<decltype(y)>>) clef_auto_assign(a(i...), y); else a(i...) = y;
    });
  }
  template <MemoryArray A, typename F> void clef_auto_assign_subscript(A &&a, F const &f) { clef_auto_assign(a, f); }
  CLEF_MAKE_FNT_LAZY(conj) CLEF_MAKE_FNT_LAZY(real) CLEF_MAKE_FNT_LAZY(imag) CLEF_MAKE_FNT_LAZY(abs2) CLEF_MAKE_FNT_LAZY(trace) CLEF_MAKE_FNT_LAZY(dagger) CLEF_MAKE_FNT_LAZY(transpose) CLEF_MAKE_FNT_LAZY(max_element)

  inline namespace nda_c {}
} // namespace nda
namespace nda::nda_c_ {}
#include "./linalg/det_and_inverse.hpp"
namespace triqs::gfs { using nda::MemoryArray; }
