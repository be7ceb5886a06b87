// Mersenne twister of the stand-alone generator
#include "vp.hpp"
#include <triqs/mc_tools/MersenneRNG.hpp>
#include <random>
#include <sstream>
using MT = triqs::mc_tools::RandomGenerators::RandMT;
static std::mt19937 reference(uint32_t seed) { // same twister, started from the documented multiplicative congruential seeding
  std::ostringstream o; uint32_t x = seed | 1u; for (int i = 0; i < 624; ++i) { o << x << " "; x *= 69069u; } o << 624; std::mt19937 g; std::istringstream i(o.str()); i >> g; return g;
}
static double map01(uint32_t u) { return double(u) / 4294967295.; }
VP_TEST(mersenne_twister) {
  struct P { MT g; std::mt19937 r; uint32_t seed; P(uint32_t k) : g(k), r(reference(k)), seed(k) {} };
  auto seed = [&] { return s.chance(1, 3) ? s.pick<uint32_t>({0u, 1u, 2u, 0xffffffffu, 0x80000000u}) : uint32_t(s.raw(0xffffffffull)); };
  std::vector<P> v; v.reserve(4); auto k0 = seed(); s.say("seed ", k0); v.emplace_back(k0); int n = int(s.integer(1, 10)); long drawn = 0;
  for (int i = 0; i < n; ++i) {
    auto &p = v[s.raw(v.size() - 1)];
    switch (s.raw(4)) {
      case 0: { auto k = seed(); s.say("reseed ", k); p.g.seedMT(k); p.r = reference(k); p.seed = k; break; }
      case 1: if (v.size() < 3) { auto k = seed(); s.say("other ", k); v.emplace_back(k); } break;
      default: {
        int m = int(s.pick<long>({1, 3, 200, 623, 624, 1500})); int kind = int(s.raw(2)); s.say("draw ", m, " kind ", kind); drawn += m;
        for (int j = 0; j < m; ++j) {
          uint32_t w = uint32_t(p.r());
          if (kind == 0) { auto u = p.g.randomMT(); VP_REQUIRE(u == w, "integer number ", j, ": got ", u, " want ", w); }
          else if (kind == 1) { double x = p.g.eval(); VP_REQUIRE(std::abs(x - map01(w)) < 1e-9 && x >= 0 && x <= 1, "uniform number: got ", x, " want ", map01(w)); }
          else { double x = p.g(); VP_REQUIRE(std::abs(x - map01(w)) < 1e-9, "uniform number: got ", x, " want ", map01(w)); VP_REQUIRE(x > 0 && x < 1, "a uniform number lies strictly between 0 and 1: ", x); }
        }
      }
    }
  }
  MT d; auto r = reference(1); for (int i = 0; i < 3; ++i) VP_REQUIRE(d.randomMT() == r(), "default seed is 1");
  s.nontrivial(drawn > 624); s.label(drawn > 624 ? "reloaded" : "short");
}
VP_TEST(copies) {
  uint32_t k = uint32_t(s.raw(0xffffffffull)); MT a(k); int n = int(s.integer(0, 1300)); s.say("seed ", k, " after ", n); for (int i = 0; i < n; ++i) a.randomMT();
  MT b(a); auto r = reference(k); for (int i = 0; i < 700; ++i) VP_REQUIRE(b.randomMT() == r(), "a copy starts the same stream");
  auto q = reference(k); q.discard(n); for (int i = 0; i < 700; ++i) VP_REQUIRE(a.randomMT() == q(), "a copied generator goes on"); s.nontrivial(n > 0);
  // assignment: same streams as a copy, and independent of the source afterwards
  auto h = std::make_unique<MT>(uint32_t(s.raw(0xffffffffull))); uint32_t k2 = uint32_t(s.raw(0xffffffffull)); MT c(k2); for (int i = 0, m = int(s.integer(0, 700)); i < m; ++i) c.randomMT();
  for (int i = 0, m = int(s.integer(0, 700)); i < m; ++i) h->randomMT();
  c = *h; h->seedMT(5); for (int i = 0; i < 20; ++i) h->randomMT(); MT e(c); h.reset(); for (int i = 0; i < 700; ++i) VP_REQUIRE(c.randomMT() == e.randomMT(), "an assigned generator is independent of its source and equals its own copy");
}
