// Closeness assertions on Green's functions and families of them
#include "gfx.hpp"
#include <triqs/test_tools/gfs.hpp>
#include <filesystem>
using namespace gfx;
static double const NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
template <typename F> static bool refuses(F &&f) { try { f(); return false; } catch (triqs::exception const &e) { VP_REQUIRE(std::string(e.what()).size() > 10, "a refusal without explanation"); return true; } }
struct Pert { double prec, d; bool close; };
static Pert pert(vp::Src &s) { double p = s.chance(1, 10) ? 0 : s.pick({1e-6, 1e-9, 1e-3, 0.5, 10.}); if (p == 0) { double e = s.pick({0., 1e-9, 1.}); s.say("precision 0 difference ", e); return {p, e, e == 0}; } double f = s.pick({0., 0.01, 0.5, 0.98, 1.02, 2., 100., 1e6, NaN, INF}); s.say("precision ", p, " difference ", f, " times"); return {p, f * p, f <= 1}; }
template <typename G> static void disturb(vp::Src &s, G &g, double d) { using S = typename G::scalar_t; std::vector<S *> v; for (auto &x : g.data()) v.push_back(&x); if (v.empty()) return; auto &x = *v[s.raw(v.size() - 1)]; if constexpr (std::is_same_v<S, double>) x += s.boolean() ? d : -d; else switch (s.raw(2)) { case 0: x += d; break; case 1: x = S(x.real(), x.imag() - d); break; default: if (std::isfinite(d)) x += S(0.6, 0.8) * d; else x += d; } }
// all the ways to ask
template <typename X, typename Y> static void ask(vp::Src &s, X const &x, Y const &y, double p, bool want, char const *w) {
  auto q = [&](auto const &a, auto const &b, char const *how) { bool r = !refuses([&] { assert_gfs_are_close(a, b, p); }); VP_REQUIRE(r == want, w, ": functions ", want ? "within" : "beyond", " the precision are called ", r ? "close" : "different", " (", how, ")"); VP_REQUIRE(bool(test_gfs_are_close(a, b, p)) == want, w, ": assertion of the test tools"); if (p == 1e-6) VP_REQUIRE(bool(test_gfs_are_close(a, b)) == want, w, ": default precision of the test tools"); };
  switch (s.raw(3)) { case 0: q(x, y, "functions"); q(y, x, "exchanged"); break; case 1: q(x(), y(), "const views"); q(y(), x, "view and function"); break; case 2: { auto z = x; q(z(), y, "view and function"); break; } default: q(y, x, "exchanged"); } }
template <typename M, typename T> static void one(vp::Src &s, char const *w) {
  auto m = mesh_of<M>(s); auto sh = shape<T>(s); auto g = function<M, T>(s, m, sh); auto h = g; auto [p, d, close] = pert(s); bool empty = g.data().size() == 0; disturb(s, h, d); s.say(w, " of ", g.data().size(), " numbers"); ask(s, g, h, p, close || empty, w); ask(s, g, g, p, true, w);
  // both wrong at the same place is not the same as close
  if (std::isnan(d)) ask(s, h, h, p, false, w);
  { auto m2 = mesh_of<M>(s); gf<M, T> k{m2, sh}; auto z = k.data().begin(); (void)z; k.data() = 0; auto g0 = g; g0.data() = 0; ask(s, g0, k, p, m == m2, "another mesh"); }
  if constexpr (T::rank > 0) { auto sh2 = sh; sh2[s.raw(T::rank - 1)] += s.integer(1, 2); gf<M, T> k{m, sh2}; k.data() = 0; auto g0 = g; g0.data() = 0; ask(s, g0, k, p, false, "another shape"); if constexpr (T::rank > 1) { auto sh3 = sh; std::swap(sh3[0], sh3[T::rank - 1]); if (sh3 != sh) { gf<M, T> k3{m, sh3}; k3.data() = 0; ask(s, g0, k3, p, false, "a transposed shape"); } } }
  s.nontrivial(d != 0 && g.data().size() > 1); }
VP_TEST(functions) { switch (s.raw(6)) { case 0: one<imfreq, matrix_valued>(s, "imfreq matrix"); break; case 1: one<imtime, scalar_real_valued>(s, "imtime real"); break; case 2: one<imfreq, scalar_valued>(s, "imfreq scalar"); break; case 3: one<prod<brzone, imfreq>, tensor_valued<3>>(s, "two variables, tensor"); break; case 4: one<legendre, matrix_real_valued>(s, "legendre real matrix"); break; case 5: one<refreq, tensor_valued<1>>(s, "refreq vector"); break; default: one<prod<imfreq, imfreq, imfreq>, matrix_valued>(s, "three variables"); } }
static std::vector<std::string> names(vp::Src &s, long n) { std::vector<std::string> r; bool num = s.boolean(); for (long i = 0; i < n; ++i) r.push_back(num ? std::to_string(i) : "b" + std::to_string(i * 7 % 13)); return r; }
VP_TEST(families) {
  using G = gf<imfreq, matrix_valued>; long n = s.chance(1, 5) ? s.integer(9, 13) : s.integer(1, 4); auto nm = names(s, n); std::vector<G> v; for (long i = 0; i < n; ++i) { auto m = mesh_of<imfreq>(s); v.push_back(function<imfreq, matrix_valued>(s, m, shape<matrix_valued>(s))); } auto [p, d, close] = pert(s);
  auto v2 = v; long k = long(s.raw(n - 1)); disturb(s, v2[k], d); auto B = make_block_gf(nm, v), C = make_block_gf(nm, v2); auto q = [&](auto const &a, auto const &b, bool want, char const *w) { VP_REQUIRE(refuses([&] { assert_block_gfs_are_close(a, b, p); }) != want, "families: ", w, want ? ": refused" : ": accepted"); VP_REQUIRE(bool(test_block_gfs_are_close(a, b, p)) == want, "families: ", w, ", test tools"); };
  q(B, C, close, "one number changed"); q(C, B, close, "exchanged"); q(B, B, true, "itself"); q(block_gf_const_view<imfreq, matrix_valued>(B), C, close, "views");
  { auto nm2 = nm; nm2[s.raw(n - 1)] += "x"; q(B, make_block_gf(nm2, v), false, "another name"); } if (n > 1) { auto nm2 = nm; std::swap(nm2[0], nm2[n - 1]); q(B, make_block_gf(nm2, v), false, "names in another order"); std::vector<std::string> fewer(nm.begin(), nm.end() - 1); std::vector<G> vf(v.begin(), v.end() - 1); q(B, make_block_gf(fewer, vf), false, "fewer blocks"); q(make_block_gf(fewer, vf), B, false, "more blocks"); }
  { auto v3 = v; auto m = v[k].mesh(); v3[k] = G{imfreq(m.beta(), m.statistic(), m.last_index() + 2, m.positive_only() ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies), v[k].target_shape()}; q(B, make_block_gf(nm, v3), false, "another mesh in one block"); }
  s.nontrivial(n > 1 && d != 0); }
VP_TEST(families_two_indices) {
  using G = gf<imtime, scalar_valued>; long a = s.integer(1, 4), b = s.integer(1, 4); auto na = names(s, a), nb = names(s, b); std::vector<std::vector<G>> v(a); for (auto &r : v) for (long j = 0; j < b; ++j) { auto m = mesh_of<imtime>(s); r.push_back(function<imtime, scalar_valued>(s, m, {})); } auto [p, d, close] = pert(s); auto v2 = v; disturb(s, v2[s.raw(a - 1)][s.raw(b - 1)], d); auto B = make_block2_gf(na, nb, v), C = make_block2_gf(na, nb, v2);
  auto q = [&](auto const &x, auto const &y, bool want, char const *w) { VP_REQUIRE(refuses([&] { assert_block2_gfs_are_close(x, y, p); }) != want, "two indices: ", w, want ? ": refused" : ": accepted"); VP_REQUIRE(bool(test_block2_gfs_are_close(x, y, p)) == want, "two indices: ", w, ", test tools"); };
  q(B, C, close, "one number changed"); q(C, B, close, "exchanged"); q(B, B, true, "itself"); { auto x = na; x[s.raw(a - 1)] += "x"; q(B, make_block2_gf(x, nb, v), false, "another first name"); } { auto x = nb; x[s.raw(b - 1)] += "x"; q(B, make_block2_gf(na, x, v), false, "another second name"); }
  if (a > 1) { auto w = v; w.pop_back(); auto x = na; x.pop_back(); q(B, make_block2_gf(x, nb, w), false, "fewer rows"); q(make_block2_gf(x, nb, w), B, false, "more rows"); } if (a != b) { std::vector<std::vector<G>> t(b); for (long j = 0; j < b; ++j) for (long i = 0; i < a; ++i) t[j].push_back(v[i][j]); q(B, make_block2_gf(nb, na, t), false, "transposed family"); }
  s.nontrivial(a * b > 1 && d != 0); }
// what the test tools write to a file and read back is what was given
VP_TEST(file_round_trip) {
  auto dir = std::filesystem::temp_directory_path() / ("verif_close_" + std::to_string(getpid())); std::filesystem::create_directories(dir); auto f = (dir / "f").string();
  { auto m = mesh_of<imtime>(s); auto g = function<imtime, matrix_valued>(s, m, shape<matrix_valued>(s)); auto r = rw_h5(g, f, s.pick<std::string>({"x", "g", "a_b"})); VP_REQUIRE(r.mesh() == g.mesh(), "mesh of the function read"); SAME(flat(r.data()), flat(g.data()), 0, "function read"); auto k = s.generic(-5, 5); VP_REQUIRE(rw_h5(k, f) == k, "number read"); VP_REQUIRE(rw_h5(std::string("abc"), f, "t") == "abc", "text read"); s.nontrivial(true); }
  std::filesystem::remove_all(dir); }
