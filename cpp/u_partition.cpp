// automatic partition of a state space, on generated operators
#include "vp.hpp"
#include <functional>
#include <triqs/hilbert_space/space_partition.hpp>
using dc = std::complex<double>;
template <typename A> struct State { // minimal model of a state vector
  using value_type = A; std::map<unsigned, A> v; unsigned n = 0;
  A &operator()(unsigned i) { return v[i]; }
  unsigned size() const { return n; }
};
template <typename A> State<A> make_zero_state(State<A> const &s) { return State<A>{{}, s.n}; }
template <typename A, typename F> void foreach (State<A> const &s, F f) { for (auto &[i, a] : s.v) f(i, a); }
template <typename A> struct Op { // sparse matrix
  std::vector<std::map<unsigned, A>> col; // col[i][f]
  bool is_empty() const { return col.empty(); }
  State<A> operator()(State<A> const &s) const { State<A> r{{}, s.n}; for (auto &[i, a] : s.v) if (a != A(0)) for (auto &[f, m] : col[i]) r.v[f] += m * a; return r; }
};
struct UF { std::vector<int> p; UF(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int f(int x) { while (p[x] != x) x = p[x]; return x; } void u(int a, int b) { a = f(a); b = f(b); if (a < b) p[b] = a; else p[a] = b; } };
template <typename A> A amp(vp::Src &s) { if constexpr (std::is_same_v<A, dc>) { A x = s.cplx(-2, 2); return std::abs(x) < 1e-3 ? A(1) : x; } else { A x = s.real(-2, 2); return std::abs(x) < 1e-3 ? A(1) : x; } }
template <typename A> A cj(A x) { if constexpr (std::is_same_v<A, dc>) return std::conj(x); else return x; }

template <typename A> void run(vp::Src &s) {
  int n = int(s.integer(1, 14)); s.say("n=", n);
  auto herm = [&](int m) { Op<A> H; H.col.resize(n); for (int k = 0; k < m; ++k) { unsigned i = s.raw(n - 1), j = s.raw(n - 1); A x = amp<A>(s); if (i == j) x = A(std::real(x)); if (s.chance(1, 6)) x = A(1e-15); H.col[i][j] = x; H.col[j][i] = cj(x); s.say(i, "-", j, std::abs(x) < 1e-12 ? "~0" : ""); } return H; };
  auto H = herm(int(s.integer(0, n))); bool hyb = s.chance(1, 3); Op<A> Y; if (hyb) { s.say("hyb"); Y = herm(int(s.integer(1, 3))); }
  bool store = s.boolean() && !hyb; State<A> st{{}, unsigned(n)}; st(s.raw(n - 1)) = A(3);
  using SP = triqs::hilbert_space::space_partition<State<A>, Op<A>>; SP sp = hyb ? SP(st, H, store, Y) : SP(st, H, store);
  UF u(n); std::map<std::pair<unsigned, unsigned>, A> el;
  for (auto *O : {&H, &Y}) for (size_t i = 0; i < O->col.size(); ++i) for (auto &[f, m] : O->col[i]) if (std::abs(m) > 1e-12) { u.u(int(i), int(f)); if (O == &H && store) el[{unsigned(i), f}] = m; }
  auto index = [&] { std::map<int, unsigned> id; std::vector<unsigned> r; for (int i = 0; i < n; ++i) { id.insert({u.f(i), unsigned(id.size())}); r.push_back(id[u.f(i)]); } return r; };
  auto check = [&](char const *w) {
    auto ix = index(); unsigned nb = 0; for (auto x : ix) nb = std::max(nb, x + 1);
    VP_REQUIRE(sp.n_subspaces() == nb, w, ": number of subspaces ", sp.n_subspaces(), " want ", nb);
    for (int i = 0; i < n; ++i) VP_REQUIRE(sp.lookup_basis_state(unsigned(i)) == ix[i], w, ": subspace of state ", i, " is ", sp.lookup_basis_state(unsigned(i)), " want ", ix[i]);
    std::vector<int> seen(n, 0); foreach (sp, [&](unsigned k, unsigned b) { seen[k]++; VP_REQUIRE(b == ix[k], w, ": foreach"); }); for (int x : seen) VP_REQUIRE(x == 1, w, ": each state once");
    return ix;
  };
  check("phase one"); if (store || !hyb) VP_REQUIRE(sp.get_matrix_elements() == el, "stored matrix elements");
  int nm = int(s.integer(0, 3));
  for (int k = 0; k < nm; ++k) {
    Op<A> Cd, C; Cd.col.resize(n); C.col.resize(n); std::map<std::pair<unsigned, unsigned>, A> cd, c; bool keep = s.boolean();
    int m = int(s.integer(0, n)); for (int q = 0; q < m; ++q) { unsigned i = s.raw(n - 1), f = s.raw(n - 1); A x = amp<A>(s); if (s.chance(1, 6)) x = s.boolean() ? A(0) : A(1e-15); bool zero = std::abs(x) < 1e-12; Cd.col[i][f] = x; C.col[f][i] = cj(x); s.say(i, "->", f, zero ? "~0" : ""); if (keep) { cd.erase({i, f}); c.erase({f, i}); if (!zero) cd[{i, f}] = x, c[{f, i}] = cj(x); } }
    // closure: lower sides of a component are merged together, and so are its upper sides
    UF g(2 * n); std::set<int> lo, up; for (int i = 0; i < n; ++i) for (auto &[f, x] : Cd.col[i]) if (std::abs(x) > 1e-12) { int a = u.f(i), b = u.f(int(f)); lo.insert(a); up.insert(b); g.u(a, n + b); }
    auto old = index(); UF u0 = u;
    for (int a : lo) for (int b : lo) if (g.f(a) == g.f(b)) u.u(a, b);
    for (int a : up) for (int b : up) if (g.f(n + a) == g.f(n + b)) u.u(a, b);
    auto [r1, r2] = sp.merge_subspaces(Cd, C, keep); auto ix = check("phase two"); VP_REQUIRE(r1 == cd && r2 == c, "matrix elements returned by the merge");
    std::set<std::pair<unsigned, unsigned>> map_, dia; for (int i = 0; i < n; ++i) for (auto &[f, x] : Cd.col[i]) if (std::abs(x) > 1e-12) { map_.insert({ix[i], ix[f]}); if (ix[i] == ix[f]) dia.insert({ix[i], ix[f]}); }
    VP_REQUIRE(sp.find_mappings(Cd) == map_, "connections of an operator"); VP_REQUIRE(sp.find_mappings(Cd, true) == dia, "diagonal connections of an operator");
    auto copy = sp; for (int i = 0; i < n; ++i) VP_REQUIRE(copy.lookup_basis_state(unsigned(i)) == ix[i], "copy");
  }
  s.nontrivial(n > 2 && nm > 0); if (nm) s.label("merged");
}
VP_TEST(space_partition) { if (s.boolean()) run<double>(s); else run<dc>(s); }
