// stand-alone utilities: numeric categories, Legendre transforms, generators, buffers, guards, streams, names, tuples
#include "vp.hpp"
#include <triqs/utility/numeric_ops.hpp>
#include <triqs/utility/legendre.hpp>
#include <triqs/utility/buffered_function.hpp>
#include <triqs/utility/scope_guard.hpp>
#include <triqs/utility/report_stream.hpp>
#include <triqs/utility/typeid_name.hpp>
#include <triqs/utility/tuple_serialize.hpp>
#include <triqs/utility/variant_extensions.hpp>
#include <triqs/utility/function_arg_ret_type.hpp>
#include <triqs/mc_tools/mc_measure_aux_set.hpp>
#include <cxxabi.h>
#include <map>
#include <vector>
#include <optional>
namespace U = triqs::utility;
using dc = std::complex<double>;

template <typename T> void num_int(vp::Src &s) {
  T x = T(s.integer(long(std::numeric_limits<T>::min() < 0 ? -100 : 0), 100));
  if (s.chance(1, 4)) x = s.boolean() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
  s.say("int ", long(x));
  VP_REQUIRE(U::is_zero(x) == (x == T(0)), "is_zero of an integer");
  VP_REQUIRE(U::conj(x) == x && U::real(x) == x && U::imag(x) == T(0), "conj, real, imag of an integer");
  static_assert(std::is_same_v<decltype(U::real(x)), T> && std::is_same_v<decltype(U::imag(x)), T>);
  s.nontrivial(x != T(0));
}
template <typename T> T mag(vp::Src &s) { // magnitudes around the tolerance
  T e = std::numeric_limits<T>::epsilon();
  T f = s.pick<T>({T(0), T(1), T(50), T(99), T(101), T(200), T(1e4)}) * e;
  if (s.chance(1, 3)) f = T(s.real(-3, 3));
  return s.boolean() ? -f : f;
}
template <typename T> void num_fp(vp::Src &s) {
  T x = mag<T>(s), y = mag<T>(s), e = std::numeric_limits<T>::epsilon(), tol = s.pick<T>({T(1e-3), T(.5), T(2), T(0)});
  s.say("fp ", double(x), ",", double(y), " tol ", double(tol));
  VP_REQUIRE(U::is_zero(x) == (std::abs(x) < 100 * e), "is_zero with the default tolerance", x);
  VP_REQUIRE(U::is_zero(x, tol) == (std::abs(x) < tol), "is_zero with a tolerance", x);
  VP_REQUIRE(U::conj(x) == x && U::real(x) == x && U::imag(x) == T(0), "conj, real, imag of a real");
  std::complex<T> z(x, y);
  VP_REQUIRE(U::is_zero(z) == (std::abs(x) < 100 * e && std::abs(y) < 100 * e), "is_zero of a complex");
  VP_REQUIRE(U::is_zero(z, tol) == (std::abs(x) < tol && std::abs(y) < tol), "is_zero of a complex with a tolerance");
  VP_REQUIRE(U::conj(z) == std::complex<T>(x, -y) && U::real(z) == x && U::imag(z) == y, "conj, real, imag of a complex");
  T nan = std::numeric_limits<T>::quiet_NaN();
  VP_REQUIRE(!U::is_zero(nan) && !U::is_zero(std::complex<T>(nan, x)) && !U::is_zero(std::complex<T>(x, nan)), "nan is not zero");
  s.nontrivial(x != 0 && y != 0);
}
VP_TEST(numeric_ops) {
  switch (s.raw(9)) {
    case 0: num_int<int>(s); break;
    case 1: num_int<long>(s); break;
    case 2: num_int<unsigned>(s); break;
    case 3: num_int<short>(s); break;
    case 4: num_int<char>(s); break;
    case 5: num_int<unsigned long long>(s); break;
    case 6: num_fp<float>(s); break;
    case 7: num_fp<long double>(s); break;
    default: num_fp<double>(s);
  }
}

// Gauss-Legendre nodes on [-1,1]
static std::pair<std::vector<double>, std::vector<double>> const &gauss() {
  static auto r = [] {
    int n = 200; std::vector<double> x(n), w(n);
    for (int i = 0; i < n; ++i) {
      double z = std::cos(M_PI * (i + .75) / (n + .5)), p1, p2, pp;
      for (int it = 0; it < 100; ++it) {
        p1 = 1; p2 = 0;
        for (int j = 0; j < n; ++j) { double p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
        pp = n * (z * p1 - p2) / (z * z - 1); double dz = p1 / pp; z -= dz; if (std::abs(dz) < 1e-15) break;
      }
      x[i] = z; w[i] = 2 / ((1 - z * z) * pp * pp);
    }
    return std::make_pair(x, w);
  }();
  return r;
}
static double P(int l, double x) { double a = 1, b = x; if (l == 0) return 1; for (int n = 2; n <= l; ++n) { double c = ((2 * n - 1) * x * b - (n - 1) * a) / n; a = b; b = c; } return b; }

VP_TEST(legendre_matsubara) {
  int n = int(s.integer(-60, 60)), l = int(s.integer(0, 40)); s.say("n=", n, " l=", l); s.nontrivial(l > 0 && n != 0);
  dc w = 0; auto const &[x, wt] = gauss(); // T_nl = sqrt(2l+1)/2 int_-1^1 exp(i pi (n+1/2)(x+1)) P_l(x)
  for (size_t i = 0; i < x.size(); ++i) w += wt[i] * std::exp(dc(0, M_PI * (n + .5) * (x[i] + 1))) * P(l, x[i]);
  w *= std::sqrt(2 * l + 1.) / 2;
  auto g = U::legendre_T(n, l); VP_REQUIRE(std::abs(g - w) < 1e-9, "matrix element of the Legendre transform: got ", g, " want ", w);
  auto m = U::legendre_T(-n - 1, l); VP_REQUIRE(std::abs(m - std::conj(g)) < 1e-12, "opposite frequency gives the conjugate");
  dc v = 0; for (size_t i = 0; i < x.size(); ++i) v += wt[i] * std::exp(dc(0, M_PI * n * (x[i] + 1))) * P(l, x[i]); v *= std::sqrt(2 * l + 1.) / 2; // bosonic frequencies
  auto b = U::legendre_T_boson(n, l); VP_REQUIRE(std::abs(b - v) < 1e-9, "matrix element of the Legendre transform at a bosonic frequency: got ", b, " want ", v);
}
VP_TEST(legendre_unitarity) {
  int l = int(s.integer(0, 12)), k = int(s.integer(0, 12)); s.say(l, ",", k); s.nontrivial(l != k);
  dc r = 0; int N = 4000; for (int n = -N; n < N; ++n) r += std::conj(U::legendre_T(n, l)) * U::legendre_T(n, k);
  // tail ~ 1/n^2 : corrected below the tolerance
  double tail = l % 2 == 0 && k % 2 == 0 ? 2 * std::sqrt((2 * l + 1.) * (2 * k + 1.)) / (M_PI * M_PI * N) : 0;
  r += tail; VP_REQUIRE(std::abs(r - dc(l == k)) < 2e-5 * (1 + std::sqrt((2 * l + 1.) * (2 * k + 1.))), "unitarity: got ", r);
}
VP_TEST(legendre_tail) {
  int l = int(s.integer(0, 20)), p = int(s.integer(1, 22)); s.say("l=", l, " p=", p);
  // derivative of order p-1 of P_l at 1, from the recursion of the derivatives: P^(d)_n = ((2n-1)(x P^(d)_{n-1} + d P^(d-1)_{n-1}) - (n-1) P^(d)_{n-2})/n
  int D = p; std::vector<std::vector<long double>> d(l + 2, std::vector<long double>(D + 1, 0));
  d[0][0] = 1; d[1][0] = 1; if (D >= 1) d[1][1] = 1;
  for (int n = 2; n <= l; ++n) for (int k = 0; k <= D; ++k) d[n][k] = ((2 * n - 1) * (d[n - 1][k] + (k ? k * d[n - 1][k - 1] : 0)) - (n - 1) * d[n - 2][k]) / n;
  long double w = (l + p) % 2 ? ((p % 2) ? -1.L : 1.L) * 2 * std::sqrt((long double)(2 * l + 1)) * std::pow(2.L, p - 1) * d[l][p - 1] : 0.L;
  double g = U::legendre_t(l, p); VP_REQUIRE(std::abs(g - (double)w) <= 1e-9 * std::max(1., std::abs((double)w)), "tail coefficient: got ", g, " want ", (double)w);
  s.nontrivial(w != 0);
}
VP_TEST(bessel) {
  int n = int(s.integer(0, 25)); double x = s.boolean() ? s.real(0, 20) : s.chance(1, 8) ? 0. : std::exp(s.generic(-14, 3)); s.say("n=", n, " x=", x); s.nontrivial(x > 0);
  double w = 0; { long double t = 1; for (int k = 1; k <= n; ++k) t *= (long double)x / (2 * k + 1); long double sum = 0, z = (long double)x * x / 2; for (int k = 0; k < 400; ++k) { sum += t; t *= z / ((k + 1) * (2.L * (n + k + 1) + 1)); if (t < 1e-22L * sum) break; } w = double(sum); }
  double g = U::mod_cyl_bessel_i(n, x); VP_REQUIRE(std::abs(g - w) <= 1e-10 * std::abs(w) + 1e-300, "modified spherical Bessel function: got ", g, " want ", w);
}
VP_TEST(legendre_generator) {
  U::legendre_generator g; int rounds = int(s.integer(1, 3));
  for (int r = 0; r < rounds; ++r) {
    double x = s.real(-1, 1); int m = int(s.integer(0, 40)); s.say("x=", x, " m=", m); g.reset(x);
    for (int l = 0; l <= m; ++l) { double v = g.next(); VP_CLOSE(v, std::legendre(l, x), 1e-10, "P_", l, "(", x, ")"); }
    s.nontrivial(m > 1 && r > 0);
  }
}

struct Counter { long n = 0, step = 1; long operator()() { n += step; return n; } };
VP_TEST(buffered_function) {
  struct M { std::optional<U::buffered_function<long>> b; long next = 0, step = 1; bool def = true; };
  std::vector<M> v(3); v[0].b.emplace(); v[1].b.emplace(); v[2].b.emplace();
  int ops = int(s.integer(1, 40));
  for (int i = 0; i < ops; ++i) {
    auto k = s.raw(2); auto &m = v[k]; int op = int(s.raw(6));
    if (op == 0) { long st = s.integer(1, 3), sz = s.integer(1, 5); s.say("new ", k, " step ", st, " size ", sz); Counter c; c.step = st; m.b.emplace(c, size_t(sz)); m.next = st; m.step = st; m.def = false; }
    else if (op == 1) { auto j = s.raw(2); s.say("copy ", j, "->", k); auto const &o = v[j]; if (j != k) { if (s.boolean()) m.b.emplace(*o.b); else *m.b = *o.b; m.next = o.next; m.step = o.step; m.def = o.def; } }
    else if (op == 2) { auto j = s.raw(2); if (j == k) continue; s.say("move ", j, "->", k); *m.b = std::move(*v[j].b); m.next = v[j].next; m.step = v[j].step; m.def = v[j].def; v[j].b.emplace(); v[j].def = true; }
    else if (m.def) { s.say("empty ", k); VP_REQUIRE(vp::throws([&] { (void)(op == 3 ? m.b->preview() : (*m.b)()); }), "a buffer without function throws"); }
    else if (op == 3) { s.say("preview ", k); VP_REQUIRE(m.b->preview() == m.next, "preview: want ", m.next); VP_REQUIRE(m.b->preview() == m.next, "preview does not advance"); }
    else { s.say("call ", k); long g = (*m.b)(); VP_REQUIRE(g == m.next, "element of the stream: got ", g, " want ", m.next); m.next += m.step; }
  }
  s.nontrivial(ops > 5);
}

VP_TEST(scope_guards) {
  // every function runs exactly once at the end of its scope, unless its guard was dismissed
  int n = int(s.integer(1, 5)); std::map<int, int> ran; std::map<int, bool> live; bool thrown = s.boolean(), order = true; std::vector<int> seq;
  using G = U::scope_guard<std::function<void()>>;
  try {
    std::vector<std::unique_ptr<G>> g; std::vector<int> owner; // index of the function held
    for (int i = 0; i < n; ++i) { auto f = std::function<void()>([&ran, &seq, i] { ran[i]++; seq.push_back(i); }); if (i % 2) g.emplace_back(new G(f)); else g.emplace_back(new G(U::make_scope_guard(f))); owner.push_back(i); live[i] = true; }
    int ops = int(s.integer(0, 8));
    for (int k = 0; k < ops; ++k) {
      int a = int(s.raw(n - 1)), b = int(s.raw(n - 1));
      switch (s.raw(2)) {
        case 0: s.say("dismiss ", a); g[a]->dismiss(); live[owner[a]] = false; VP_REQUIRE(!g[a]->active(), "dismissed guard is not active"); break;
        case 1: { s.say("move ", a); bool was = g[a]->active(); auto h = std::make_unique<G>(std::move(*g[a])); VP_REQUIRE(!g[a]->active() && h->active() == was, "activity moves"); g[a] = std::move(h); break; }
        default: if (a != b) { s.say("assign ", a, "<-", b); bool was = g[b]->active(); *g[a] = std::move(*g[b]); VP_REQUIRE(g[a]->active() == was, "activity is assigned"); std::swap(owner[a], owner[b]); }
      }
      VP_REQUIRE(ran.empty(), "ran before the end of the scope");
    }
    s.nontrivial(ops > 2 && n > 1);
    { SCOPE_EXIT { ran[100]++; }; SCOPE_EXIT { ran[101]++; if (ran[100]) order = false; }; VP_REQUIRE(!ran.count(100), "too early"); }
    auto e = U::exec_at_scope_exit([&] { ran[102]++; });
    live[100] = live[101] = live[102] = true;
    if (thrown) throw 5;
  } catch (int) {}
  for (auto [i, l] : live) VP_REQUIRE(ran[i] == (l ? 1 : 0), "function ", i, " ran ", ran[i], " times, expected ", l);
  VP_REQUIRE(order, "guards of a scope run in reverse order");
}

VP_TEST(report_stream) {
  int v = int(s.integer(-2, 4)); std::ostringstream o; U::report_stream r(&o, v); std::string w; int n = int(s.integer(1, 6)); s.say("verbosity ", v);
  for (int i = 0; i < n; ++i) {
    long k = s.integer(0, 5), x = s.integer(-9, 9); bool sub = s.boolean(); int kind = int(s.raw(2)); s.say(sub ? "level " : "plain ", k, " kind ", kind);
    auto sub_r = r(int(k)); auto &t = sub ? sub_r : r; bool on = sub ? v - k + 1 > 0 : v > 0;
    auto ex = [&](std::string y) { if (on) w += y; };
    if (kind == 0) { t << x << " a"; ex(std::to_string(x) + " a"); }
    else if (kind == 1) { t << "line" << std::endl; ex("line\n"); }
    else { auto u = t(2); u << 'c'; if ((sub ? v - k + 1 : v) - 1 > 0) w += "c"; }
  }
  VP_REQUIRE(o.str() == w, "printed ", o.str(), " expected ", w); s.nontrivial(n > 2);
}

struct Arc { std::vector<std::string> l; template <typename T> Arc &operator&(T &x) { std::ostringstream o; o << x; l.push_back(o.str()); return *this; } };
struct In { std::vector<std::string> l; size_t i = 0; template <typename T> In &operator&(T &x) { std::istringstream o(l.at(i++)); o >> x; return *this; } };
VP_TEST(tuples_and_variants) {
  std::tuple<int, double, long, std::string> t{int(s.integer(-5, 5)), s.integer(-8, 8) / 4., s.integer(0, 100), std::string(size_t(s.integer(1, 4)), 'x')}, u; s.say(std::get<0>(t), ",", std::get<1>(t));
  Arc a; boost::serialization::serialize(a, t, 0); VP_REQUIRE(a.l.size() == 4 && a.l[0] == std::to_string(std::get<0>(t)) && a.l[3] == std::get<3>(t), "order of the elements"); In i{a.l}; boost::serialization::serialize(i, u, 0); VP_REQUIRE(t == u, "round trip of a tuple");
  std::tuple<long> t1{s.integer(0, 9)}, u1; Arc b; boost::serialization::serialize(b, t1, 0); In j{b.l}; boost::serialization::serialize(j, u1, 0); VP_REQUIRE(t1 == u1, "round trip of a tuple of one");
  using V = std::variant<long, std::string>; std::vector<V> v; std::string w; int n = int(s.integer(0, 5));
  for (int k = 0; k < n; ++k) { V x; std::string e; if (s.boolean()) { long z = s.integer(-99, 99); x = z; e = std::to_string(z); } else { e = s.pick<std::string>({"up", "a b", ""}); x = e; } using std::to_string; VP_REQUIRE(std::to_string(x) == e, "to_string of a variant"); std::ostringstream o; o << x; VP_REQUIRE(o.str() == e, "printed variant"); w += (k ? "," : "") + e; v.push_back(x); }
  std::ostringstream o; o << v; VP_REQUIRE(o.str() == w, "printed vector of variants: ", o.str(), " want ", w); VP_REQUIRE(std::to_string(std::string("q")) == "q", "to_string of a string"); s.nontrivial(n > 1);
}

template <typename T> void name_of(vp::Src &s) {
  int st = 0; char *d = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &st); std::string w = d; free(d); s.say(w);
  for (std::string e : {", boost::tuples::null_type", ", -1", ", void"}) for (size_t p; (p = w.find(e)) != std::string::npos;) w.erase(p, e.size());
  VP_REQUIRE(U::typeid_name<T>() == w && U::get_name(typeid(T)) == w && U::demangle(typeid(T).name()) == w && U::demangle(std::string(typeid(T).name())) == w, "name of a type: ", U::typeid_name<T>(), " want ", w);
  if constexpr (std::is_default_constructible_v<T>) { T x{}; VP_REQUIRE(U::typeid_name(x) == w, "name of the type of an object"); }
}
template <int D, typename T> void deep(vp::Src &s) {
  if constexpr (D == 0) name_of<T>(s); else switch (s.raw(4)) { case 0: name_of<T>(s); break; case 1: deep<D - 1, std::vector<T>>(s); break; case 2: deep<D - 1, std::pair<T, int>>(s); break; case 3: deep<D - 1, std::complex<double>>(s); break; default: deep<D - 1, std::map<int, T>>(s); } }
VP_TEST(type_names) {
  switch (s.raw(2)) { case 0: deep<2, int>(s); break; case 1: deep<2, std::string>(s); break; default: deep<2, Counter>(s); }
  std::string raw = s.pick<std::string>({"not mangled", "", "foo()", "12"}); VP_REQUIRE(U::demangle(raw) == raw, "a name that is not mangled is kept"); s.nontrivial();
}

VP_TEST(callables) {
  // arity, argument and result types; auxiliary measures keep their object alive and share its state
  auto f = [](int const &, double, std::string &&) -> long { return 0; }; using F = U::function_arg_ret_type<decltype(f)>;
  static_assert(F::arity == 3 && std::is_same_v<F::result_type, long> && std::is_same_v<F::arg<0>::type, int const &> && std::is_same_v<F::arg<1>::type, double> && std::is_same_v<F::arg<2>::type, std::string &&>);
  static_assert(std::is_same_v<F::decay_arg<0>::type, int> && std::is_same_v<F::decay_arg<2>::type, std::string>);
  int n = int(s.integer(0, 6)); auto m = [n](double) mutable { return n; }; using G = U::function_arg_ret_type<decltype(m)>; static_assert(G::arity == 1 && std::is_same_v<G::result_type, int>);
  struct Aux { int *c, own = 0; void operator()() { ++*c; ++own; } }; int c = 0; auto p = std::make_shared<Aux>(Aux{&c}); triqs::mc_tools::measure_aux a(p), b = a; auto w = std::weak_ptr<Aux>(p);
  for (int i = 0; i < n; ++i) { if (s.boolean()) a(); else b(); } VP_REQUIRE(c == n && p->own == n, "auxiliary measures share their object"); p.reset(); a(); VP_REQUIRE(!w.expired() && c == n + 1, "the object is kept alive"); s.nontrivial(n > 1); s.say(n);
}
