// Generic programming helpers: tuples, lazy brackets, factories, dressed iterators, run-time real or complex numbers, errors, dumps on a crash, clocks as text
#include "vp.hpp"
#include <triqs/utility/tuple_tools.hpp>
#include <triqs/utility/lazy_bracket.hpp>
#include <triqs/utility/factory.hpp>
#include <triqs/utility/dressed_iterator.hpp>
#include <triqs/utility/real_or_complex.hpp>
#include <triqs/utility/exceptions.hpp>
#include <triqs/utility/timer.hpp>
#include <triqs/utility/timestamp.hpp>
#include <triqs/utility/crash_logger.hpp>
#include <triqs/utility/stack_trace.hpp>
#include <triqs/utility/kronecker.hpp>
#include <list>
#include <memory>
#include <cstring>
// the debugger is not run: its output is generated
static std::string debugger_output, debugger_command; static int pipes = 0;
extern "C" FILE *popen(char const *c, char const *) { debugger_command = c; ++pipes; FILE *f = tmpfile(); fwrite(debugger_output.data(), 1, debugger_output.size(), f); rewind(f); return f; }
extern "C" int pclose(FILE *f) { --pipes; return fclose(f); }
using dc = std::complex<double>;
namespace tt = triqs::tuple;
static std::string word(vp::Src &s) { std::string r; int n = int(s.integer(0, 6)); for (int i = 0; i < n; ++i) r += char(s.integer(33, 126)); return r; }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(tuple_tools) {
  long a = s.integer(-9, 9), b = s.integer(-9, 9), c = s.integer(-9, 9), d = s.integer(-9, 9); double x = s.real(-9, 9); std::string w = word(s), w2 = word(s);
  auto t = std::make_tuple(a, x, w, b); auto const &ct = t; auto log = std::make_shared<std::string>(); auto txt = [](auto const &...v) { std::ostringstream o; ((o << v << ';'), ...); return o.str(); };
  VP_REQUIRE(tt::apply(txt, t) == std::apply(txt, t) && tt::apply(txt, ct) == std::apply(txt, t) && tt::apply(txt, std::make_tuple(a, w)) == txt(a, w) && tt::apply(txt, std::tuple<>{}) == "", "apply");
  VP_REQUIRE(tt::called_on_tuple(txt)(t) == txt(a, x, w, b), "called_on_tuple");
  { struct P { long a; double x; std::string w; long b; }; auto p = tt::apply_construct<P>(t); VP_REQUIRE(p.a == a && p.x == x && p.w == w && p.b == b, "apply_construct"); auto v = tt::apply_construct_parenthesis<std::vector<long>>(std::make_tuple(size_t(s.integer(0, 5)), c)); for (auto y : v) VP_REQUIRE(y == c, "apply_construct_parenthesis"); auto z = tt::apply_construct<std::vector<long>>(std::make_tuple(a, b, c)); VP_REQUIRE((z == std::vector<long>{a, b, c}), "apply_construct of a list"); }
  { std::ostringstream o; tt::for_each(t, [&](auto const &v) { o << v << ';'; }); VP_REQUIRE(o.str() == txt(a, x, w, b), "for_each order"); auto t2 = t; tt::for_each(t2, [](auto &v) { v = v + v; }); VP_REQUIRE(t2 == std::make_tuple(2 * a, 2 * x, w + w, 2 * b), "for_each in place"); tt::for_each(std::tuple<>{}, [](auto const &) { vp::fail(__LINE__, "called on an empty tuple"); }); }
  { std::ostringstream o; tt::for_each_enumerate(ct, [&](int i, auto const &v) { o << i << ':' << v << ';'; }); std::ostringstream p; p << "0:" << a << ";1:" << x << ";2:" << w << ";3:" << b << ';'; VP_REQUIRE(o.str() == p.str(), "for_each_enumerate"); auto t2 = t; tt::for_each_enumerate(t2, [&](int i, auto &v) { if (i == 0 || i == 3) v = v + v; }); VP_REQUIRE(t2 == std::make_tuple(2 * a, x, w, 2 * b), "for_each_enumerate in place"); }
  { auto u = std::make_tuple(c, w2, x, d); std::ostringstream o; tt::for_each_zip([&](auto const &p, auto const &q) { o << p << ',' << q << ';'; }, t, u); std::ostringstream p; p << a << ',' << c << ';' << x << ',' << w2 << ';' << w << ',' << x << ';' << b << ',' << d << ';'; VP_REQUIRE(o.str() == p.str(), "for_each_zip");
    auto t3 = std::make_tuple(a, b, c); auto u3 = std::make_tuple(b, x, d); auto v3 = std::make_tuple(1L, 2L, 3L); VP_REQUIRE((tt::map_on_zip([](auto p, auto q, auto r) { return p - 2 * q + r; }, t3, u3, v3)) == std::make_tuple(a - 2 * b + 1, b - 2 * x + 2, c - 2 * d + 3), "map_on_zip"); tt::for_each_zip([](auto &p, auto q) { p += q; }, t3, v3); VP_REQUIRE(t3 == std::make_tuple(a + 1, b + 2, c + 3), "for_each_zip in place"); }
  VP_REQUIRE((tt::map([](auto const &v) { return v + v; }, t)) == std::make_tuple(2 * a, 2 * x, w + w, 2 * b), "map"); { std::string order; (void)order; }
  { auto f = [](auto const &v, std::string r) { std::ostringstream o; o << '(' << r << v << ')'; return o.str(); }; std::ostringstream p; p << "((((i" << a << ")" << x << ")" << w << ")" << b << ")"; VP_REQUIRE(tt::fold(f, t, std::string("i")) == p.str(), "fold of one tuple"); VP_REQUIRE(tt::fold([](auto p, auto q, double r) { return 2 * r + p * q; }, std::make_tuple(a, b), std::make_tuple(c, x), double(d)) == 2 * (2. * d + a * c) + b * x, "fold of two tuples"); VP_REQUIRE(tt::fold([](auto, long r) { return r; }, std::tuple<>{}, long(a)) == a, "fold of nothing"); }
  VP_REQUIRE((tt::replace<2>(t, c)) == std::make_tuple(a, x, c, b) && (tt::replace<0, 3>(t, w2)) == std::make_tuple(w2, x, w, w2) && tt::replace<1>(ct, w2) == std::make_tuple(a, w2, w, b), "replace");
  VP_REQUIRE((tt::filter<0, 2>(t)) == std::make_tuple(a, w) && (tt::filter<3, 1>(ct)) == std::make_tuple(b, x) && (tt::filter_out<0, 2>(t)) == std::make_tuple(x, b) && (tt::filter_out<1>(ct)) == std::make_tuple(a, w, b) && (tt::filter_out<0, 1, 2, 3>(t)) == std::tuple<>{}, "filter");
  VP_REQUIRE(tt::push_back(t, c) == std::make_tuple(a, x, w, b, c) && tt::push_front(t, w2) == std::make_tuple(w2, a, x, w, b) && tt::pop_front(t) == std::make_tuple(x, w, b), "push and pop"); VP_REQUIRE((tt::make_tuple_repeat<3>(w)) == std::make_tuple(w, w, w) && tt::make_tuple_repeat<0>(w) == std::tuple<>{}, "make_tuple_repeat");
  { auto r = std::reverse(t); VP_REQUIRE(std::get<0>(r) == b && std::get<1>(r) == w && std::get<2>(r) == x && std::get<3>(r) == a, "reverse"); std::get<3>(r) = c; VP_REQUIRE(std::get<0>(t) == c, "reverse refers to the tuple"); std::get<0>(t) = a; auto r2 = std::reverse(std::make_tuple(w, w2)); VP_REQUIRE(std::get<0>(r2) == w2 && std::get<1>(r2) == w, "reverse of a temporary"); VP_REQUIRE(std::get<0>(std::reverse(ct)) == b, "reverse of a constant"); std::string o; tt::for_each(std::reverse(ct), [&](auto const &v) { std::ostringstream q; q << v << ';'; o += q.str(); }); VP_REQUIRE(o == txt(b, w, x, a), "loop over the reverse"); }
  { std::ostringstream o, p; o << t << std::tuple<>{} << std::make_tuple(w) << std::make_pair(a, w2); p << '(' << a << ',' << x << ',' << w << ',' << b << ")()(" << w << ")(" << a << ", " << w2 << ')'; VP_REQUIRE(o.str() == p.str(), "text of tuples: ", o.str()); }
  { using triqs::utility::kronecker; VP_REQUIRE(kronecker(a, b) == (a == b) && kronecker(x, a) == (x == a), "kronecker"); nda::clef::placeholder<0> i_; nda::clef::placeholder<1> j_; VP_REQUIRE(nda::clef::eval(kronecker(i_, j_), i_ = a, j_ = b) == (a == b), "lazy kronecker"); }
  (void)log; s.nontrivial(a != b && b != c); }
VP_TEST(brackets_and_factories) {
  long a = s.integer(-99, 99), b = s.integer(-99, 99), c = s.integer(-99, 99); std::string w = word(s); int calls = 0; using namespace triqs::utility;
  auto f3 = [&](long p, long q, std::string const &r) { ++calls; return std::make_tuple(p, q, r); }; VP_REQUIRE((make_lazy_bracket<3>(f3, a)[b][w]) == std::make_tuple(a, b, w) && calls == 1, "three brackets"); VP_REQUIRE(make_lazy_bracket<2>([&](long p, long q) { return 3 * p - q; }, a)[b] == 3 * a - b && make_lazy_bracket<1>([&](long p) { return -p; }, c) == -c, "brackets"); long v[2] = {a, b}; auto ref = [&](long, long k) -> long & { return v[k]; }; long one = 1; make_lazy_bracket<2>(ref, a)[one] = c; VP_REQUIRE(v[1] == c && v[0] == a, "assignment through brackets");
  std::vector<std::vector<int>> m(s.integer(0, 3)); for (auto &r : m) for (long n = s.integer(0, 3); n-- > 0;) r.push_back(int(s.integer(-5, 5))); auto m0 = m; using T = std::vector<std::vector<double>>; auto same = [&](T const &q) { VP_REQUIRE(q.size() == m0.size(), "rows"); for (size_t i = 0; i < q.size(); ++i) { VP_REQUIRE(q[i].size() == m0[i].size(), "columns"); for (size_t j = 0; j < q[i].size(); ++j) VP_REQUIRE(q[i][j] == m0[i][j], "element ", i, " ", j); } };
  same(factory<T>(m)); VP_REQUIRE(m == m0, "argument of a factory"); same(factory<T>(std::as_const(m))); same(factory<T>(std::vector<std::vector<int>>(m))); VP_REQUIRE(factory<std::vector<std::vector<int>>>(m) == m0 && factory<std::vector<std::vector<int>>>(std::as_const(m)) == m0 && factory<std::vector<std::vector<int>>>(std::move(m)) == m0, "factory of the same type"); VP_REQUIRE(factory<double>(a) == double(a) && factory<std::string>(w.c_str()) == w, "factory of a value");
  std::vector<std::unique_ptr<int>> u; for (int i = 0; i < 3; ++i) u.push_back(std::make_unique<int>(i)); auto sh = factory<std::vector<std::shared_ptr<int>>>(std::move(u)); for (int i = 0; i < 3; ++i) VP_REQUIRE(sh[i] && *sh[i] == i, "factory by moving"); s.nontrivial(!m0.empty()); }
template <typename C, bool Bidir> static void dressed(vp::Src &s) { // a pair (key, value) seen through a structure of references
  using namespace triqs::utility; using it_t = typename C::iterator; struct D { long const &k; long &v; D(it_t const &i) : k(i->first), v(i->second) {} }; using di = dressed_iterator<it_t, D>; struct DA { long k; C *c; DA(it_t const &i, C *cc) : k(i->first), c(cc) {} }; using da = dressed_iterator<it_t, DA, C>;
  C c; std::vector<std::pair<long, long>> ref; int n = int(s.integer(0, 6)); for (int i = 0; i < n; ++i) { long v = s.integer(-9, 9); if constexpr (requires { c.emplace(1L, 1L).second; }) c.emplace(long(i), v); else c.emplace_back(long(i), v); ref.push_back({i, v}); }
  int k = 0; for (di i = c.begin(), e = c.end(); i != e; ++i, ++k) { VP_REQUIRE((*i).k == ref[k].first && i->v == ref[k].second, "element ", k); long x = s.integer(-9, 9); i->v = x; ref[k].second = x; } VP_REQUIRE(k == n, "loop of ", k, " want ", n); k = 0; for (auto const &p : c) VP_REQUIRE(p.second == ref[k++].second, "assignment through the references"); if (n == 0) return;
  di x = c.begin(), y = c.begin(); da xa(c.begin(), &c), ya(c.begin(), &c); long px = 0, py = 0; int steps = int(s.integer(1, 25));
  for (int i = 0; i < steps; ++i) { switch (s.raw(7)) {
      case 0: if (px < n) { if (s.boolean()) { auto o = x++; VP_REQUIRE(o.get() == std::next(c.begin(), px), "value of x++"); xa++; } else { ++x; ++xa; } ++px; } break;
      case 1: if constexpr (Bidir) { if (px > 0) { if (s.boolean()) x--; else --x; --xa; --px; } } break;
      case 2: x = y; xa = ya; px = py; break;
      case 3: { auto z = x; auto za = xa; x = std::move(y); y = std::move(z); xa = std::move(ya); ya = std::move(za); std::swap(px, py); break; }
      case 4: { using std::swap; swap(x, y); swap(xa, ya); std::swap(px, py); break; }
      case 5: { di z(x); da za(xa); VP_REQUIRE(z == x && za == xa, "copy"); break; }
      case 6: if (py < n) { ++y; ++ya; ++py; } break;
      default: x = di(c.begin()); xa = da(c.begin(), &c); px = 0; }
    VP_REQUIRE((x == y) == (px == py) && (x != y) == (px != py) && (xa == ya) == (px == py), "comparison"); VP_REQUIRE(x.get() == std::next(c.begin(), px) && it_t(xa) == std::next(c.begin(), px), "position"); VP_REQUIRE(xa.get_aux() == &c && ya.get_aux() == &c, "container of the iterator"); if (px < n) VP_REQUIRE((*x).k == px && x->v == ref[px].second && xa->k == px && (*xa).c == &c, "element at the position"); VP_REQUIRE((x == itertools::sentinel_t<it_t>{c.end()}) == (px == n) && (xa == itertools::sentinel_t<it_t>{c.end()}) == (px == n), "end"); }
  s.nontrivial(n > 1 && steps > 3); }
VP_TEST(dressed_iterators) { switch (s.raw(2)) { case 0: dressed<std::map<long, long>, true>(s); break; case 1: dressed<std::list<std::pair<long, long>>, true>(s); break; default: dressed<std::vector<std::pair<long, long>>, false>(s); } }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(real_or_complex) {
  using R = triqs::utility::real_or_complex; struct M { bool re; dc v; }; auto num = [&]() { return s.chance(1, 5) ? 0. : s.chance(1, 3) ? double(s.integer(-3, 3)) : s.generic(-10, 10); };
  auto near = [](dc a, dc b) { return std::abs(a - b) <= 1e-9 * std::max(1., std::abs(b)); }; auto check = [&](R const &r, M const &m, std::string const &w) { VP_REQUIRE(r.is_real() == m.re, w, ": real is ", r.is_real()); VP_REQUIRE(near(dc(r), m.v), w, ": ", dc(r), " want ", m.v); VP_REQUIRE(real(r) == dc(r).real() && imag(r) == dc(r).imag() && abs(r) == std::abs(dc(r)), w, ": parts"); if (m.re) VP_REQUIRE(double(r) == real(r) && imag(r) == 0, w, ": as a double"); else VP_REQUIRE(vp::throws([&] { (void)double(r); }), w, ": a complex number became a double");
    R cj = conj(r), ng = -r; VP_REQUIRE(cj.is_real() == m.re && dc(cj) == std::conj(dc(r)) && ng.is_real() == m.re && dc(ng) == -dc(r), w, ": conjugate or opposite"); double tol = 1e-6; VP_REQUIRE(is_zero(r, tol) == triqs::utility::is_zero(m.re ? dc(r) : dc(r), tol) || std::abs(std::abs(dc(r)) - tol) < 1e-9, w, ": is_zero"); VP_REQUIRE(is_zero(R(0.)) && is_zero(R(dc(0))) && !is_zero(R(1.)) && !is_zero(R(dc(0, 1))), "zeros");
    std::ostringstream o, p; o << r; if (m.re) p << dc(r).real(); else { p << '(' << dc(r).real(); if (!std::signbit(dc(r).imag())) p << '+'; p << dc(r).imag() << "j)"; } VP_REQUIRE(o.str() == p.str(), w, ": text ", o.str()); };
  R x; M m{true, 0}; check(x, m, "default"); int n = int(s.integer(1, 8)); std::string log;
  for (int i = 0; i < n; ++i) { int op = int(s.raw(3)), kind = int(s.raw(8)); double d = num(); dc z(num(), num()); R y; M my; if (s.boolean()) { y = R(d); my = {true, d}; } else { y = R(z); my = {false, z}; } auto f = [&](dc a, dc b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; };
    auto divisor = [&](dc q) { return op != 3 || std::abs(q) > 1e-2; }; std::string w = "operation " + std::to_string(op) + " kind " + std::to_string(kind); if (std::abs(m.v) > 1e6) { x = R(d); m = {true, d}; }
#define OPS(X, Y) (op == 0 ? R(X + Y) : op == 1 ? R(X - Y) : op == 2 ? R(X * Y) : R(X / Y))
#define OPA(X, Y) { if (op == 0) X += Y; else if (op == 1) X -= Y; else if (op == 2) X *= Y; else X /= Y; }
    switch (kind) {
      case 0: if (!divisor(d)) break; OPA(x, d); m.v = f(m.v, d); break;
      case 1: if (!divisor(z)) break; OPA(x, z); m = {false, f(m.v, z)}; break;
      case 2: if (!divisor(my.v)) break; OPA(x, y); m = {m.re && my.re, f(m.v, my.v)}; check(y, my, "right operand"); break;
      case 3: if (!divisor(d)) break; x = OPS(x, d); m.v = f(m.v, d); break;
      case 4: if (!divisor(z)) break; x = OPS(x, z); m = {false, f(m.v, z)}; break;
      case 5: if (!divisor(my.v)) break; x = OPS(x, y); m = {m.re && my.re, f(m.v, my.v)}; break;
      case 6: if (!divisor(m.v)) break; x = OPS(d, x); m.v = f(d, m.v); break;
      case 7: if (!divisor(m.v)) break; x = OPS(z, x); m = {false, f(z, m.v)}; break;
      default: { R q = x; VP_REQUIRE(q == x && !(q != x), "equal to its copy"); R e = R(dc(x)); VP_REQUIRE(e == x && !(e != x), "equal to its complex form"); R o = x + 1.; VP_REQUIRE(o != x && !(o == x), "different numbers"); x = s.boolean() ? R(d) : R(z); m = {x.is_real(), x.is_real() ? dc(d) : z}; } }
    check(x, m, w); }
  s.nontrivial(n > 2); }
VP_TEST(errors) {
  std::string a = word(s), b = word(s), c = word(s), e = word(s); long k = s.integer(-1000, 1000); double x = s.real(-10, 10); std::ostringstream want; want << a << k << x << b; std::string got, trace; int levels = int(s.integer(0, 4)); std::string full = want.str();
  auto raise = [&]() { throw triqs::runtime_error() << a << k << x << b.c_str(); }; std::function<void(int)> nest = [&](int l) { if (l == 0) raise(); try { nest(l - 1); } catch (triqs::runtime_error &q) { switch (s.raw(3)) { case 0: throw; case 1: q << c; full += c; throw; case 2: { triqs::runtime_error r(q); r << e << l; full += e + std::to_string(l); throw r; } default: { std::string before = q.what(); triqs::runtime_error r(q); r << "other"; VP_REQUIRE(before == q.what(), "a copy changes the original"); throw; } } } };
  bool caught = false; try { nest(levels); } catch (std::exception const &q) { caught = true; got = q.what(); VP_REQUIRE(got == std::string(q.what()), "message asked for twice"); VP_REQUIRE(dynamic_cast<triqs::exception const *>(&q) && dynamic_cast<triqs::runtime_error const *>(&q), "type of the error"); } VP_REQUIRE(caught && got.rfind(full, 0) == 0 && (got.size() == full.size() || got[full.size()] == '\n'), "message ", got, " want ", full);
  try { TRIQS_RUNTIME_ERROR << a << k; } catch (triqs::runtime_error const &q) { std::string w = q.what(); VP_REQUIRE(w.find(a + std::to_string(k)) != std::string::npos && w.find("u_generic.cpp") != std::string::npos, "message of the macro"); } int z = int(k); VP_REQUIRE(vp::throws<triqs::runtime_error>([&] { TRIQS_ASSERT(z != k); }) && !vp::throws([&] { TRIQS_ASSERT(z == k); TRIQS_ASSERT2(z == k, "x"); }), "assertions"); try { TRIQS_ASSERT2(z != k, "because " << a); } catch (triqs::runtime_error const &q) { VP_REQUIRE(std::string(q.what()).find("because " + a) != std::string::npos, "message of an assertion"); } VP_REQUIRE(vp::throws<triqs::keyboard_interrupt>([&] { TRIQS_KEYBOARD_INTERRUPT << a; }), "interruption");
  s.nontrivial(levels > 0); }
VP_TEST(durations) {
  using namespace triqs::utility; double t = s.pick({s.real(0, 100), s.real(0, 1e5), s.real(0, 4e6)}); std::string r = hours_minutes_seconds_from_seconds(t); long q = long(t); char buf[64]; snprintf(buf, 64, "%02ld:%02ld:%02ld", q / 3600, q / 60 % 60, q % 60); VP_REQUIRE(r == buf, "duration ", t, ": ", r, " want ", buf);
  timer T; int N = int(s.integer(1, 1000)), i = int(s.integer(0, N - 1)); VP_REQUIRE(estimate_time_left(N, i, T) == "00:00:00", "time left of a timer never started"); std::string now = timestamp(); VP_REQUIRE(now.size() == 8 && now[2] == ':' && now[5] == ':', "timestamp ", now); s.nontrivial(t >= 60); }
VP_TEST(stack_traces) {
  std::string want = "\n"; debugger_output.clear(); bool in = false, out = false; int n = int(s.integer(0, 12)); bool last = s.boolean();
  for (int i = 0; i < n; ++i) { std::string l; int k = int(s.raw(5)); for (long q = s.pick({0, 3, 40, 300, 600}); q-- > 0;) l += char(s.integer(32, 126)); l += k == 0 ? "triqs::exception::exception" : k == 1 ? "libpython" : ""; if (s.boolean()) l += word(s); bool ex = l.find("triqs::exception::exception") != std::string::npos, py = l.find("libpython") != std::string::npos; debugger_output += l; if (i + 1 < n || last) debugger_output += '\n'; else if (l.empty()) { break; }
    if (!in) { if (ex) in = true; } else if (!out) { if (py) out = true; else want += l + '\n'; } }
  std::string r = triqs::utility::stack_trace(); VP_REQUIRE(r == want, "trace ", r, " want ", want); VP_REQUIRE(pipes == 0, "pipe left open"); VP_REQUIRE(debugger_command.find(std::to_string(getpid())) != std::string::npos && debugger_command.find("gdb") == 0, "command ", debugger_command); s.nontrivial(in && want.size() > 1); }
#endif // part
#if !defined(VP_PART) || VP_PART == 3
VP_TEST(dumps) {
  using triqs::utility::crash_logger; char name[] = "crashXXXXXX"; int fd = mkstemp(name); close(fd); std::string f = name; struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f}; unlink(f.c_str());
  int n = int(s.integer(0, 5)); std::vector<double> v(n); std::vector<std::string> w(n); for (auto &x : v) x = s.generic(-9, 9); for (auto &x : w) x = word(s); bool dismiss = s.boolean(), thrown = s.boolean(), moved = s.chance(1, 3), assigned = s.chance(1, 3); std::vector<double> last = v;
  auto body = [&](crash_logger &log) { for (int i = 0; i < n; ++i) log(v[i], "v" + std::to_string(i))(w[i], "w" + std::to_string(i)); for (int i = 0; i < n; ++i) if (s.boolean()) last[i] = v[i] = s.generic(-9, 9); };
  auto run = [&]() { auto log = crash_logger(f); body(log); if (moved) { auto l2 = std::make_unique<crash_logger>(std::move(log)); if (assigned) { crash_logger l3("nowhere.h5"); l3 = std::move(*l2); l2.reset(); if (dismiss) l3.dismiss(); if (thrown) throw 1; } else { if (dismiss) l2->dismiss(); if (thrown) throw 1; } } else { if (dismiss) log.dismiss(); if (thrown) throw 1; } };
  try { run(); } catch (int) {} bool there = access(f.c_str(), F_OK) == 0, want = !dismiss && n > 0; VP_REQUIRE(there == want, "dump ", there ? "written" : "missing", " with ", n, " objects, dismissed ", dismiss); VP_REQUIRE(access("nowhere.h5", F_OK) != 0, "dump in another file");
  if (there) { h5::file q(f.c_str(), 'r'); for (int i = 0; i < n; ++i) { double x = 0; std::string y; h5::read(q, "v" + std::to_string(i), x); h5::read(q, "w" + std::to_string(i), y); VP_REQUIRE(x == last[i] && y == w[i], "object ", i, " of the dump"); } } s.nontrivial(n > 1 && !dismiss); }
#endif // part
