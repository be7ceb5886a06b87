// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
// Compile-time lazy expressions.
#pragma once
#include <complex>
#include <cmath>
#include <functional>
#include <ostream>
#include <tuple>
#include <type_traits>
#include <utility>

namespace nda::clef {

  namespace tags { struct function {}; struct subscript {}; struct terminal {}; struct if_else {}; struct unaryplus {}; struct negate {}; struct lognot {};
    struct plus {}; struct minus {}; struct multiplies {}; struct divides {}; struct greater {}; struct less {}; struct leq {}; struct geq {}; struct eq {}; }

  template <typename Tag, typename... T> struct expr;
  template <int N> struct placeholder;
  template <typename Expr, int... Is> struct make_fun_impl;

  // ---------------------------------------------------------------- traits
  template <typename T> inline constexpr bool is_lazy_impl = false;
  template <int N> inline constexpr bool is_lazy_impl<placeholder<N>> = true;
  template <typename Tag, typename... T> inline constexpr bool is_lazy_impl<expr<Tag, T...>> = true;
  // a function is lazy if it still contains placeholders other than its arguments
  template <typename E, int... Is> inline constexpr bool is_lazy_impl<make_fun_impl<E, Is...>> = make_fun_impl<E, Is...>::still_lazy;
  template <typename... T> inline constexpr bool is_any_lazy = (is_lazy_impl<std::remove_cvref_t<T>> or ... or false);
  template <typename T> inline constexpr bool is_lazy = is_any_lazy<T>;
  template <typename T> inline constexpr bool is_clef_expression_impl = false;
  template <typename Tag, typename... T> inline constexpr bool is_clef_expression_impl<expr<Tag, T...>> = true;
  template <typename... T> inline constexpr bool is_clef_expression = is_any_lazy<T...>;
  template <typename T> inline constexpr bool is_make_fun = false;
  template <typename E, int... Is> inline constexpr bool is_make_fun<make_fun_impl<E, Is...>> = true;

  // bitmask of the placeholders of a type
  template <typename T> inline constexpr unsigned long long ph_set = 0;
  template <int N> inline constexpr unsigned long long ph_set<placeholder<N>> = 1ull << N;
  template <typename Tag, typename... T> inline constexpr unsigned long long ph_set<expr<Tag, T...>> = (ph_set<T> | ... | 0ull);
  template <typename E, int... Is> inline constexpr unsigned long long ph_set<make_fun_impl<E, Is...>> = ph_set<E> & ~((1ull << Is) | ... | 0ull);

  // ---------------------------------------------------------------- storage : references for lvalues, values for the rest
  template <typename T> struct force_copy_in_expr_impl : std::false_type {};
  template <typename T> struct store { using type = std::remove_cvref_t<T>; };
  template <typename T> inline constexpr bool store_by_value = is_lazy_impl<std::remove_cvref_t<T>> or is_make_fun<std::remove_cvref_t<T>> or force_copy_in_expr_impl<std::remove_cvref_t<T>>::value or std::is_arithmetic_v<std::remove_cvref_t<T>> or [] {
    using U = std::remove_cvref_t<T>; if constexpr (requires { U::is_view; }) return bool(U::is_view); else return false; }();
  template <typename T> struct store<T &> { using type = std::conditional_t<store_by_value<T>, std::remove_cvref_t<T>, std::reference_wrapper<T>>; };
  template <typename T> using store_t = typename store<T>::type;

  template <typename Tag, typename... T> struct expr {
    std::tuple<T...> childs;
    expr(expr const &) = default; expr(expr &&) = default;
    template <typename... U> requires(sizeof...(U) == sizeof...(T)) expr(Tag, U &&...u) : childs(std::forward<U>(u)...) {}
    template <typename... A> expr<tags::function, expr, store_t<A>...> operator()(A &&...a) const { return {tags::function{}, *this, std::forward<A>(a)...}; }
    template <typename A> expr<tags::subscript, expr, store_t<A>> operator[](A &&a) const { return {tags::subscript{}, *this, std::forward<A>(a)}; }
  };

  template <int N, typename T> struct pair { static constexpr int p = N; T rhs; };

  template <int N> struct placeholder {
    static constexpr int index = N;
    template <typename R> pair<N, R> operator=(R &&r) const { return {std::forward<R>(r)}; }
    template <typename... A> expr<tags::function, placeholder, store_t<A>...> operator()(A &&...a) const { return {tags::function{}, *this, std::forward<A>(a)...}; }
    template <typename A> expr<tags::subscript, placeholder, store_t<A>> operator[](A &&a) const { return {tags::subscript{}, *this, std::forward<A>(a)}; }
    placeholder() = default; placeholder(placeholder const &) = default;
  };
  template <int N> std::ostream &operator<<(std::ostream &out, placeholder<N>) { return out << "_" << N; }

  template <typename F, typename... A> auto make_expr_call(F &&f, A &&...a) { return expr<tags::function, store_t<F>, store_t<A>...>{tags::function{}, std::forward<F>(f), std::forward<A>(a)...}; }
  template <typename F, typename... A> auto make_expr_subscript(F &&f, A &&...a) { return expr<tags::subscript, store_t<F>, store_t<A>...>{tags::subscript{}, std::forward<F>(f), std::forward<A>(a)...}; }
  template <typename T> auto make_expr(T &&x) { return expr<tags::terminal, store_t<T>>{tags::terminal{}, std::forward<T>(x)}; }

  // ---------------------------------------------------------------- operations
  template <typename T> decltype(auto) unwrap(T &&x) { return std::forward<T>(x); }
  template <typename T> T &unwrap(std::reference_wrapper<T> const &x) { return x.get(); }
  template <typename T> T &unwrap(std::reference_wrapper<T> &x) { return x.get(); }
  template <typename T> T &unwrap(std::reference_wrapper<T> &&x) { return x.get(); }

  template <typename Tag> struct operation;
  template <> struct operation<tags::function> { template <typename F, typename... A> decltype(auto) operator()(F &&f, A &&...a) const { return unwrap(std::forward<F>(f))(unwrap(std::forward<A>(a))...); } };
  template <> struct operation<tags::subscript> {
    template <typename F, typename... A> decltype(auto) operator()(F &&f, A &&...a) const { return unwrap(std::forward<F>(f)).operator[](unwrap(std::forward<A>(a))...); }
    template <typename F, typename A> requires(std::is_pointer_v<std::remove_cvref_t<F>>) decltype(auto) operator()(F &&f, A &&a) const { return f[a]; }
  };
  template <> struct operation<tags::terminal> { template <typename T> decltype(auto) operator()(T &&x) const { return unwrap(std::forward<T>(x)); } };
  template <> struct operation<tags::if_else> { template <typename C, typename A, typename B> auto operator()(C const &c, A const &a, B const &b) const { return bool(unwrap(c)) ? unwrap(a) : unwrap(b); } };
#define VP_CLEF_BIN(TAG, OP)                                                                                                                           \
  template <> struct operation<tags::TAG> { template <typename L, typename R> decltype(auto) operator()(L &&l, R &&r) const { return unwrap(std::forward<L>(l)) OP unwrap(std::forward<R>(r)); } }; \
  template <typename L, typename R> requires(is_any_lazy<L, R>) auto operator OP(L &&l, R &&r) { return expr<tags::TAG, store_t<L>, store_t<R>>{tags::TAG{}, std::forward<L>(l), std::forward<R>(r)}; }
  VP_CLEF_BIN(plus, +) VP_CLEF_BIN(minus, -) VP_CLEF_BIN(multiplies, *) VP_CLEF_BIN(divides, /) VP_CLEF_BIN(greater, >) VP_CLEF_BIN(less, <) VP_CLEF_BIN(leq, <=) VP_CLEF_BIN(geq, >=) VP_CLEF_BIN(eq, ==)
#undef VP_CLEF_BIN
#define VP_CLEF_UN(TAG, OP)                                                                                                                            \
  template <> struct operation<tags::TAG> { template <typename L> decltype(auto) operator()(L &&l) const { return OP unwrap(std::forward<L>(l)); } };  \
  template <typename L> requires(is_any_lazy<L>) auto operator OP(L &&l) { return expr<tags::TAG, store_t<L>>{tags::TAG{}, std::forward<L>(l)}; }
  VP_CLEF_UN(negate, -) VP_CLEF_UN(unaryplus, +) VP_CLEF_UN(lognot, !)
#undef VP_CLEF_UN
  template <typename C, typename A, typename B> auto if_else(C &&c, A &&a, B &&b) { return expr<tags::if_else, store_t<C>, store_t<A>, store_t<B>>{tags::if_else{}, std::forward<C>(c), std::forward<A>(a), std::forward<B>(b)}; }

  // ---------------------------------------------------------------- evaluation
  template <typename T, typename... P> decltype(auto) eval(T const &ex, P &...p);
  namespace detail {
    template <int N, typename P0, typename... P> decltype(auto) find(P0 &p0, P &...p) { if constexpr (P0::p == N) return (p0.rhs); else return find<N>(p...); }
    template <typename T> struct is_ref_wrap : std::false_type {};
    template <typename T> struct is_ref_wrap<std::reference_wrapper<T>> : std::true_type {};
    template <typename Tag, typename... A> decltype(auto) op_dispatch(A &&...a) {
      if constexpr (is_any_lazy<A...>) return expr<Tag, std::conditional_t<is_ref_wrap<std::remove_cvref_t<A>>::value, std::remove_cvref_t<A>, store_t<A>>...>{Tag{}, std::forward<A>(a)...};
      else return operation<Tag>()(std::forward<A>(a)...);
    }
  } // namespace detail
  template <typename T, typename... P> decltype(auto) eval(T const &ex, P &...p) {
    if constexpr (is_make_fun<T>) return ex.eval_(p...);
    else if constexpr (is_clef_expression_impl<T>)
      return [&]<size_t... I>(std::index_sequence<I...>) -> decltype(auto) {
        return [&]<typename Tag, typename... C>(expr<Tag, C...> const &e) -> decltype(auto) { return detail::op_dispatch<Tag>(clef::eval(std::get<I>(e.childs), p...)...); }(ex);
      }(std::make_index_sequence<std::tuple_size_v<decltype(ex.childs)>>{});
    else if constexpr (is_lazy<T>) {
      if constexpr (((P::p == T::index) or ... or false)) return detail::find<T::index>(p...);
      else return T{};
    } else if constexpr (detail::is_ref_wrap<T>::value) return ex.get();
    else return (ex);
  }

  template <typename T, int... N, typename... R> decltype(auto) eval(T const &ex, pair<N, R> &&...p) { return clef::eval(ex, p...); }

  template <typename Expr, int... Is> struct make_fun_impl {
    static constexpr bool still_lazy = (ph_set<Expr> & ~((1ull << Is) | ... | 0ull)) != 0;
    Expr ex;
    template <typename... A> decltype(auto) operator()(A &&...a) const {
      static_assert(sizeof...(A) >= sizeof...(Is) or sizeof...(Is) == 0);
      return call_(std::make_index_sequence<sizeof...(Is)>{}, std::forward_as_tuple(a...));
    }
    template <typename... P> auto eval_(P &...p) const { auto e = clef::eval(ex, p...); return make_fun_impl<std::remove_cvref_t<decltype(e)>, Is...>{e}; }
    private:
    template <size_t... I, typename Tu> decltype(auto) call_(std::index_sequence<I...>, Tu const &t) const {
      auto ps = std::make_tuple(pair<Is, std::tuple_element_t<I, Tu>>{std::get<I>(t)}...);
      using R = decltype(std::apply([this](auto &...p) -> decltype(auto) { return clef::eval(ex, p...); }, ps));
      return finish_<R>(ps);
    }
    // placeholders may only be bound by reference to arguments which outlive the call
    template <typename R, typename Ps> auto finish_(Ps &ps) const { return std::apply([this](auto &...p) -> std::remove_cvref_t<R> { return clef::eval(ex, p...); }, ps); }
  };
  template <typename T, int... Is> auto make_function(T &&x, placeholder<Is>...) { return make_fun_impl<std::remove_cvref_t<T>, Is...>{std::forward<T>(x)}; }

  // ---------------------------------------------------------------- assignment
  template <typename F, typename RHS, int... Is> void operator<<(expr<tags::function, F, placeholder<Is>...> const &ex, RHS &&rhs);
  template <typename F, typename RHS, int... Is> void operator<<(expr<tags::subscript, F, placeholder<Is>...> const &ex, RHS &&rhs);
  template <typename Tag, typename... C, typename RHS> void clef_auto_assign(expr<Tag, C...> const &ex, RHS const &rhs) { ex << rhs; }
  template <typename Tag, typename... C, typename RHS> void clef_auto_assign_subscript(expr<Tag, C...> const &ex, RHS const &rhs) { ex << rhs; }
  template <typename T, typename RHS> void clef_auto_assign(std::reference_wrapper<T> r, RHS &&rhs) { clef_auto_assign(r.get(), std::forward<RHS>(rhs)); }
  template <typename T, typename RHS> void clef_auto_assign_subscript(std::reference_wrapper<T> r, RHS &&rhs) { clef_auto_assign_subscript(r.get(), std::forward<RHS>(rhs)); }
  template <typename F, typename RHS, int... Is> void operator<<(expr<tags::function, F, placeholder<Is>...> const &ex, RHS &&rhs) {
    auto &f = const_cast<F &>(std::get<0>(ex.childs));
    clef_auto_assign(f, make_function(std::forward<RHS>(rhs), placeholder<Is>()...));
  }
  template <typename F, typename RHS, int... Is> void operator<<(expr<tags::subscript, F, placeholder<Is>...> const &ex, RHS &&rhs) {
    auto &f = const_cast<F &>(std::get<0>(ex.childs));
    clef_auto_assign_subscript(f, make_function(std::forward<RHS>(rhs), placeholder<Is>()...));
  }
} // namespace nda::clef

#define CLEF_MAKE_FNT_LAZY(name)                                                                                                                       \
  template <typename... VpA_> auto name(VpA_ &&...vp_a_) requires(nda::clef::is_any_lazy<VpA_...>) {                                                   \
    return nda::clef::make_expr_call([](auto const &...vp_b_) -> decltype(auto) { return name(vp_b_...); }, std::forward<VpA_>(vp_a_)...);             \
  }
#define CLEF_IMPLEMENT_LAZY_METHOD(TY, name)                                                                                                           \
  template <typename... VpA_> auto name(VpA_ &&...vp_a_) requires(nda::clef::is_any_lazy<VpA_...>) {                                                   \
    return nda::clef::make_expr_call([](auto &&vp_o_, auto &&...vp_b_) -> decltype(auto) { return vp_o_.name(vp_b_...); }, *this, std::forward<VpA_>(vp_a_)...); \
  }
#define CLEF_IMPLEMENT_LAZY_CALL(...)                                                                                                                  \
  template <typename... VpA_> auto operator()(VpA_ &&...vp_a_) const & requires(nda::clef::is_any_lazy<VpA_...>) { return nda::clef::make_expr_call(*this, std::forward<VpA_>(vp_a_)...); } \
  template <typename... VpA_> auto operator()(VpA_ &&...vp_a_) & requires(nda::clef::is_any_lazy<VpA_...>) { return nda::clef::make_expr_call(*this, std::forward<VpA_>(vp_a_)...); } \
  template <typename... VpA_> auto operator()(VpA_ &&...vp_a_) && requires(nda::clef::is_any_lazy<VpA_...>) { return nda::clef::make_expr_call(std::move(*this), std::forward<VpA_>(vp_a_)...); }
