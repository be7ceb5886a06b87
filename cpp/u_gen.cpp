// named random generators and points of the imaginary-time segment
#include "vp.hpp"
#include <cstring>
#include <iomanip>
#include <triqs/mc_tools/random_generator.hpp>
#include <triqs/mc_tools/MersenneRNG.hpp>
#include <triqs/utility/time_pt.hpp>
#include <boost/random.hpp>
using triqs::mc_tools::random_generator;
// the numbers of the generator with a given name, drawn without any buffer
static std::function<double()> raw(std::string const &n, uint32_t seed) {
#define G(X) if (n == #X) { auto g = std::make_shared<boost::X>(seed); return [g] { return boost::uniform_real<>(0, 1)(*g); }; }
  G(mt19937) G(mt11213b) G(lagged_fibonacci607) G(lagged_fibonacci1279) G(lagged_fibonacci2281) G(lagged_fibonacci3217) G(lagged_fibonacci4423) G(lagged_fibonacci9689) G(lagged_fibonacci19937) G(lagged_fibonacci23209) G(lagged_fibonacci44497) G(ranlux3)
#undef G
  if (n.empty()) { auto g = std::make_shared<triqs::mc_tools::RandomGenerators::RandMT>(seed); return [g] { return (*g)(); }; }
  throw vp::Failure{"unknown generator " + n + " in the list of names"};
}
VP_TEST(named_generators) {
  auto names = triqs::mc_tools::random_generator_names_list(); { std::string j; for (auto &n : names) j += (j.empty() ? "" : "|") + n; VP_REQUIRE(triqs::mc_tools::random_generator_names("|") == j, "joined names"); std::set<std::string> u(names.begin(), names.end()); VP_REQUIRE(u.size() == names.size() && names.size() >= 12, "names"); }
  auto nm = s.chance(1, 4) ? std::string() : s.pick(names); if (s.chance(3, 4) && nm.find("fib") != std::string::npos) nm = "lagged_fibonacci607"; uint32_t seed = s.chance(1, 4) ? s.pick<uint32_t>({0u, 1u, 0xffffffffu, 0x80000000u}) : uint32_t(s.raw(0xffffffffull)); s.say(nm, " seed ", seed);
  random_generator g(nm, seed); VP_REQUIRE(g.name() == nm, "name"); auto w = raw(nm, seed); if (s.chance(1, 3)) { random_generator h(std::move(g)); g = std::move(h); }
  long drawn = 0; int n = int(s.integer(1, 12)); double next = w();
  for (int i = 0; i < n; ++i) { int k = int(s.pick<long>({1, 1, 5, 300, 999, 1000})), kind = int(s.raw(5)); for (int j = 0; j < k; ++j, ++drawn) { double u = next; VP_REQUIRE(u >= 0 && u < 1, "number of the generator"); if (kind == 0 || s.rep) VP_REQUIRE(g.preview() == u, "preview of number ", drawn);
      if (kind <= 1) { double x = g(); VP_REQUIRE(x == u, "number ", drawn, " is ", x, " want ", u); next = w(); }
      else if (kind == 2) { int m = int(s.integer(1, 1000)); int x = g(m); VP_REQUIRE(x >= 0 && x < m, "integer ", x, " below ", m); if (m > 1) { VP_REQUIRE(x == int(std::floor(m * u)), "integer ", x, " of ", m); next = w(); } }
      else if (kind == 3) { uint64_t m = s.raw(~0ull >> 1) >> s.raw(60); m += 2; uint64_t x = g(m); VP_REQUIRE(x < m, "integer ", x, " below ", m); VP_REQUIRE(std::abs(double(x) - double(m) * u) <= 1 + double(m) * 1e-15, "integer ", x, " of ", m); next = w(); }
      else if (kind == 4) { double b = s.generic(0.1, 100); double x = g(b); VP_REQUIRE(x >= 0 && x < b && std::abs(x - b * u) < 1e-12 * b, "number below ", b); next = w(); }
      else { double a = s.generic(-10, 10), b = a + s.generic(0.01, 10); double x = g(a, b); VP_REQUIRE(x >= a && x <= b && std::abs(x - a - (b - a) * u) < 1e-12, "number between ", a, " and ", b); next = w(); } } }
  VP_REQUIRE(vp::throws([&] { random_generator bad("unknown", 1); }), "an unknown name is accepted"); random_generator d; auto r = raw("mt19937", 198); for (int i = 0; i < 3; ++i) VP_REQUIRE(d() == r(), "default generator"); s.nontrivial(drawn > 1000);
}
using triqs::utility::time_pt; using triqs::utility::time_segment;
struct Fix { uint64_t v; uint64_t operator()(uint64_t) { return v; } };
static uint64_t num(time_pt const &t) { time_pt z(0, 1), o(1, 1); return t == z ? 0 : floor_div(t, o); }
VP_TEST(time_points) {
  constexpr uint64_t N = time_pt::Nmax; using u128 = unsigned __int128; double beta = s.pick({1., 0.1, 10., 1000., s.generic(0.01, 200)}); time_segment seg(beta);
  auto pt = [&]() -> uint64_t { switch (s.raw(4)) { case 0: return s.pick<uint64_t>({0, 1, 2, N, N - 1, N / 2, N / 2 + 1}); case 1: return s.raw(~0ull); case 2: return N - s.raw(1000); default: return s.raw(~0ull) >> s.raw(63); } };
  uint64_t a = pt(), b = pt(); time_pt A(a, beta), B(b, beta); s.say("beta ", beta, " a ", a, " b ", b);
  VP_REQUIRE(num(A) == a, "grid number"); VP_REQUIRE((A < B) == (a < b) && (A == B) == (a == b) && (A <= B) == (a <= b) && (A > B) == (a > b), "order"); VP_REQUIRE(std::abs(double(A) - beta * (double(a) / double(N))) <= 1e-15 * beta && double(A) >= 0 && double(A) <= beta, "value ", double(A));
  auto cong = [&](time_pt const &t, u128 w, char const *what) { VP_REQUIRE(u128(num(t)) % N == w % N, what, " is ", num(t)); VP_REQUIRE(std::abs(double(t) - beta * (double(num(t)) / double(N))) <= 1e-15 * beta, what, ": value"); };
  cong(A + B, u128(a) + b, "sum"); cong(A - B, u128(a) + (u128(N) - b), "difference"); cong(-A, u128(N) - a, "opposite"); VP_REQUIRE((A - A) == seg.get_lower_pt(), "a - a"); VP_REQUIRE(num(A + B) < N, "a sum is below the end of the segment"); cong((A - B) + B, a, "(a - b) + b"); VP_REQUIRE(A + B == B + A, "order of a sum");
  size_t k = size_t(s.integer(1, 1000)); VP_REQUIRE(num(div_by_int(A, k)) == a / k, "division by an integer"); VP_REQUIRE(num(mult_by_int(div_by_int(A, k), k)) == a / k * k, "multiplication by an integer"); if (b) VP_REQUIRE(floor_div(A, B) == a / b, "floor_div");
  double x = s.generic(-3, 3), da = double(A), db = double(B); VP_REQUIRE(A * B == da * db && (b == 0 || A / B == da / db) && A + x == da + x && x + A == x + da && A - x == da - x && x - A == x - da && A * x == da * x && x * A == x * da && A / 2. == da / 2., "arithmetic with numbers");
  VP_REQUIRE(num(seg.get_upper_pt()) == N && num(seg.get_lower_pt()) == 0 && num(seg.get_epsilon()) == 1 && double(seg.get_upper_pt()) == beta && double(seg.get_lower_pt()) == 0, "ends of the segment");
  { double t = s.chance(1, 4) ? s.pick({0., beta}) : beta * s.unit(); time_pt T = seg.make_time_pt(t); VP_REQUIRE(std::abs(double(T) - t) <= 1e-12 * beta, "point of ", t, " has the value ", double(T)); VP_REQUIRE(std::abs((long double)(num(T)) - (long double)(t) / beta * N) <= 4096, "grid point of ", t, " is ", num(T)); VP_REQUIRE(seg.make_time_pt(beta) == seg.get_upper_pt() && seg.make_time_pt(0) == seg.get_lower_pt(), "points made from the ends"); }
  { random_generator g(s.pick<std::string>({"", "mt19937"}), uint32_t(s.raw(0xffffffffull))); for (int i = 0; i < 20; ++i) { auto t = seg.get_random_pt(g); VP_REQUIRE(num(t) < N && double(t) <= beta, "random point"); if (a) VP_REQUIRE(seg.get_random_pt(g, A) < A, "random point below another"); if (a < b) { auto r = seg.get_random_pt(g, A, B); VP_REQUIRE(r >= A && r < B, "random point between two"); } } }
  { alignas(time_pt) unsigned char dirt[sizeof(time_pt)]; std::memset(dirt, 0x2b, sizeof dirt); auto *z = new (dirt) time_pt(); VP_REQUIRE(double(*z) == 0 && num(*z) == 0, "default point"); }
  { h5::file f{}; h5_write(f, "t", A); time_pt R; VP_REQUIRE(double(R) == 0, "default point"); h5_read(f, "t", R); VP_REQUIRE(num(R) == a && double(R) == double(A), "point read from a file"); cong(R + B, u128(a) + b, "sum of a point read"); }
  s.nontrivial(a != 0 && b != 0 && a != b);
}
