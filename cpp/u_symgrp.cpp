// Symmetry classes of Green's functions
#include "gfx.hpp"
#include <triqs/gfs/gf_sym_grp.hpp>
#include <map>
#include <functional>
using namespace gfx;
template <typename I> static auto key(I const &i) { if constexpr (requires { std::tuple_size<I>::value; }) return std::apply([](auto const &...x) { return std::make_tuple(key(x)...); }, i); else return i; }
// the variable along which points out of the mesh can be named: a Matsubara frequency
template <typename M> struct Outer { static constexpr int v = std::is_same_v<M, imfreq> ? 0 : -1; };
template <typename... Ms> struct Outer<prod<Ms...>> { static constexpr int v = [] { int k = 0, r = -1; ((r = std::is_same_v<Ms, imfreq> && r < 0 ? k : r, ++k), ...); return r; }(); };
template <typename M> constexpr int outer() { return Outer<M>::v; }
// A random group of permutations of the elements (mesh index, target index). Each element carries a hidden operation, so that
// any path between two elements gives the same relation; the value of an element is its operation on the value of its class.
template <typename M, typename T> static void group(vp::Src &s, char const *w) {
  using G = gf<M, T>; using MI = typename M::index_t; constexpr int R = T::rank; using TI = std::array<long, R>; using V = typename T::scalar_t;
  auto m = mesh_of<M>(s); auto sh = shape<T>(s, s.chance(1, 6) ? 4 : 2); auto g = function<M, T>(s, m, sh);
  std::vector<MI> mi; for (auto p : m) mi.push_back(p.index()); std::vector<TI> ti; { TI t{}; long n = 1; for (auto x : sh) n *= x; for (long k = 0; k < n; ++k) { long r = k; for (int d = R; d-- > 0;) { t[d] = r % sh[d]; r /= sh[d]; } ti.push_back(t); } }
  long nt = ti.size(), N = mi.size() * nt; s.assume(N <= 400); std::map<decltype(key(mi[0])), long> at; for (size_t i = 0; i < mi.size(); ++i) at[key(mi[i])] = i;
  std::vector<nda::operation> tau(4 * N); bool plain = s.chance(1, 4); for (auto &o : tau) if (!plain) o = {s.boolean(), s.boolean()};
  constexpr int OC = outer<M>(); long outside = 0; bool below = false; if constexpr (OC >= 0) { if (s.boolean()) { outside = s.integer(1, 3); below = s.boolean(); } } long W = mi.size();
  auto moved = [&](MI x, long sg) -> MI { if constexpr (OC >= 0) { if constexpr (std::is_same_v<M, imfreq>) x += sg * W; else std::get<OC>(x) += sg * long(std::get<OC>(m).size()); } return x; };
  int K = int(s.chance(1, 8) ? s.integer(4, 6) : s.integer(0, 3)); std::vector<std::vector<long>> perm(K);
  for (auto &p : perm) { p.resize(N); for (long i = 0; i < N; ++i) p[i] = i; switch (s.raw(2)) {
      case 0: { int n = int(s.integer(1, 4)); for (int k = 0; k < n; ++k) std::swap(p[s.integer(0, N - 1)], p[s.integer(0, N - 1)]); break; } // some of the elements
      case 1: for (long i = N; i-- > 1;) std::swap(p[i], p[s.integer(0, i)]); break;
      default: { std::vector<long> a(mi.size()), b(nt); for (size_t i = 0; i < a.size(); ++i) a[i] = i; for (long i = 0; i < nt; ++i) b[i] = i; for (long i = a.size(); i-- > 1;) std::swap(a[i], a[s.integer(0, i)]); for (long i = nt; i-- > 1;) std::swap(b[i], b[s.integer(0, i)]); for (long i = 0; i < N; ++i) p[i] = a[i / nt] * nt + b[i % nt]; } } } // mesh and target apart
  auto rel = [&tau](long i, long j) { return tau[i] * tau[j]; }; // each is its own inverse
  std::function<std::pair<long, nda::operation>(int, long)> img = [&](int k, long i) { if (i / N < outside) return std::make_pair(i + N, rel(i, i + N)); long j = perm[k][i % N]; return std::make_pair(j, rel(i, j)); }; // through so many windows out of the mesh, then back
  auto id = [&](MI const &x) -> long { auto it = at.find(key(x)); if (it != at.end()) return it->second; for (long v = 1; v <= outside; ++v) { auto jt = at.find(key(moved(x, below ? v : -v))); if (jt != at.end()) return v * W + jt->second; } VP_REQUIRE(false, w, ": an index out of the mesh is asked of a symmetry"); return 0; };
  auto tid = [&](TI const &t) { long k = 0; for (int d = 0; d < R; ++d) { VP_REQUIRE(t[d] >= 0 && t[d] < sh[d], w, ": target index ", t[d], " asked of a symmetry"); k = k * sh[d] + t[d]; } return k; };
  auto mesh_index = [&](long d) -> MI { return moved(mi[d % W], below ? -(d / W) : d / W); };
  auto pos = [&](long i) { return (i / N) * W + (i % N) / nt; };
  // classes
  std::vector<long> root(N); for (long i = 0; i < N; ++i) root[i] = i; std::function<long(long)> find = [&](long i) { return root[i] == i ? i : find(root[i]); }; long maxlen = outside ? s.integer(0, 4) : s.integer(0, 1); if (maxlen >= outside) for (auto &p : perm) for (long i = 0; i < N; ++i) { long a = find(i), b = find(p[i]); if (a != b) root[std::max(a, b)] = std::min(a, b); }
  std::map<long, std::vector<long>> cls; for (long i = 0; i < N; ++i) cls[find(i)].push_back(i);
  auto body = [&](auto const &sym, auto const &h0, auto const &hval) {
    sym_grp grp{std::as_const(g), sym, maxlen}; VP_REQUIRE(grp.num_classes() == long(cls.size()), w, ": ", grp.num_classes(), " classes, want ", cls.size(), " from ", K, " symmetries of ", N, " elements"); auto const &c = grp.get_data_sym_grp().get_sym_classes(); VP_REQUIRE(c.size() == cls.size(), w, ": classes of the data"); std::vector<char> seen(N); for (auto const &x : c) { VP_REQUIRE(!x.empty() && x.size() == cls[find(x[0].first)].size(), w, ": size of a class"); for (auto const &[k, o] : x) { VP_REQUIRE(!seen[k] && find(k) == find(x[0].first), w, ": members of a class"); seen[k] = 1; auto r = rel(x[0].first, k); VP_REQUIRE(r.sgn == o.sgn && r.cc == o.cc, w, ": relation between two members"); } }
    // initialisation
    std::map<long, V> val; for (auto &[r, x] : cls) val[r] = num<V>(s); auto want = [&](long i) { return tau[i](val[find(i)]); }; bool par = s.boolean(); G a{m, sh}; auto h = hval(want); grp.init(a, h, par); auto fa = flat(a.data()); for (long i = 0; i < N; ++i) VP_CLOSE(dc(fa[i]), dc(want(i)), 1e-14, w, ": initialised element ", i); auto b = a; auto [d0, i0, t0] = grp.symmetrize(a); VP_REQUIRE(d0 < 1e-14, w, ": a symmetric function violates its symmetries by ", d0); SAME(flat(a.data()), flat(b.data()), 1e-14, w, ": symmetric function symmetrised");
    // symmetrisation is the mean over the class
    auto old = flat(g.data()); auto [d, im, it] = grp.symmetrize(g); auto now = flat(g.data()); double top = 0; for (auto &[r, x] : cls) { V mean{}; for (long i : x) mean += tau[i](V(old[i])); mean /= double(x.size()); for (long i : x) { VP_CLOSE(dc(now[i]), dc(tau[i](mean)), 1e-13, w, ": symmetrised element ", i); top = std::max(top, std::abs(old[i] - now[i])); } } VP_CLOSE(d, top, 1e-13, w, ": largest violation"); if (top > 1e-12) { long k = id(im) * nt + tid(it); VP_CLOSE(std::abs(old[k] - now[k]), top, 1e-13, w, ": place of the largest violation"); }
    (void)h0; };
  if constexpr (R == 0) { using F = std::function<std::tuple<MI, nda::operation>(MI const &)>; std::vector<F> sym; for (int k = 0; k < K; ++k) sym.push_back([=, &img, &id, &pos, &mesh_index](MI const &x) { auto [j, o] = img(k, id(x)); return std::tuple<MI, nda::operation>{mesh_index(pos(j)), o}; }); body(sym, 0, [&](auto const &want) { return [&want, &id](MI const &x) -> V { return want(id(x)); }; }); }
  else { using F = std::function<std::tuple<MI, TI, nda::operation>(MI const &, TI const &)>; std::vector<F> sym; auto full = [&](MI const &x, TI const &t) { long p = id(x); return p * nt + tid(t); }; for (int k = 0; k < K; ++k) sym.push_back([=, &img, &pos, &mesh_index](MI const &x, TI const &t) { auto [j, o] = img(k, full(x, t)); return std::tuple<MI, TI, nda::operation>{mesh_index(pos(j)), ti[j % nt], o}; }); body(sym, 0, [&](auto const &want) { return [&want, &full](MI const &x, TI const &t) -> V { return want(full(x, t)); }; }); }
  s.label(outside ? (below ? "through the outside, below" : "through the outside") : "inside"); s.nontrivial(K > 0 && cls.size() > 1 && long(cls.size()) < N); }
#if !defined(VP_PART) || VP_PART == 1
VP_TEST(one_variable) { switch (s.raw(5)) { case 0: group<imfreq, scalar_valued>(s, "imfreq scalar"); break; case 1: group<imfreq, matrix_valued>(s, "imfreq matrix"); break; case 2: group<imtime, tensor_valued<3>>(s, "imtime rank 3"); break; case 3: group<brzone, scalar_valued>(s, "brzone scalar"); break; case 4: group<brzone, matrix_valued>(s, "brzone matrix"); break; default: group<retime, scalar_real_valued>(s, "retime real"); } }
#endif // part
#if !defined(VP_PART) || VP_PART == 2
VP_TEST(several_variables) { switch (s.raw(3)) { case 0: group<prod<imfreq, imfreq>, scalar_valued>(s, "imfreq x imfreq scalar"); break; case 1: group<prod<brzone, imfreq>, matrix_valued>(s, "brzone x imfreq matrix"); break; case 2: group<prod<discrete, imtime, imfreq>, tensor_valued<1>>(s, "three variables, vector"); break; default: group<prod<imtime, cyclat>, matrix_real_valued>(s, "imtime x cyclat, real matrix"); } }
#endif // part
