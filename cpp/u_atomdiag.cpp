// exact diagonalisation of a finite fermionic system, against dense matrices on the whole Fock space
#include "fock.hpp"
#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
#include <h5/h5.hpp>
using namespace triqs::operators; using namespace triqs::hilbert_space; namespace ad = triqs::atom_diag; using namespace triqs::gfs; using nda::range; namespace mesh = triqs::mesh;
template <bool C> using Op = typename ad::atom_diag<C>::many_body_op_t;
using Words = std::vector<std::pair<Word, dc>>;
struct Model { int n = 0; std::vector<indices_t> m; fundamental_operator_set fops; std::vector<int> spin; gf_struct_t gs; std::vector<std::vector<int>> pos; };
inline Model model(vp::Src &s, int nmax) {
  Model M; M.n = int(s.integer(1, nmax)); int nb = int(s.integer(1, std::min(M.n, 3))); std::vector<int> size(nb, 1); for (int i = nb; i < M.n; ++i) ++size[s.raw(nb - 1)];
  std::vector<std::pair<int, int>> o; for (int b = 0; b < nb; ++b) for (int i = 0; i < size[b]; ++i) o.emplace_back(b, i); s.shuffle(o);
  std::vector<std::string> nm = {"up", "dn", "a"}; s.shuffle(nm);
  for (auto [b, i] : o) { M.m.push_back({nm[b], long(i)}); M.spin.push_back(b); M.fops.insert_from_indices_t(M.m.back()); }
  std::vector<int> bl; for (int b = 0; b < nb; ++b) bl.push_back(b); s.shuffle(bl); if (nb > 1 && s.chance(1, 4)) bl.pop_back();
  for (int b : bl) { M.gs.emplace_back(nm[b], size[b]); std::vector<int> p; for (int i = 0; i < size[b]; ++i) for (int k = 0; k < M.n; ++k) if (o[k] == std::pair{b, i}) p.push_back(M.fops[M.m[k]]); M.pos.push_back(p); }
  // position of an operator in the Fock states is its place in the set
  std::vector<indices_t> byp(M.n); std::vector<int> sp(M.n); for (int k = 0; k < M.n; ++k) { byp[M.fops[M.m[k]]] = M.m[k]; sp[M.fops[M.m[k]]] = M.spin[k]; } M.m = byp; M.spin = sp;
  return M;
}
template <bool C> auto coef(vp::Src &s, bool real = false) { double a = s.chance(1, 2) ? s.integer(-4, 4) / 2. : s.generic(-2, 2); if constexpr (C) return real ? dc(a) : dc(a, s.chance(1, 2) ? s.integer(-4, 4) / 2. : s.generic(-2, 2)); else return a; }
template <bool C> struct OpW { Op<C> o; Words w; };
template <bool C> void add(Model const &M, OpW<C> &x, Word const &w, typename ad::atom_diag<C>::scalar_t c) { Op<C> t(c); for (auto &[d, p] : w) t *= Op<C>::make_canonical(d, M.m[p]); x.o += t; x.w.emplace_back(w, dc(c)); }
inline Word hc(Word const &w) { Word r; for (auto it = w.rbegin(); it != w.rend(); ++it) r.emplace_back(!it->first, it->second); return r; }
inline bool conserves(Word const &w, std::vector<int> const &spin, bool byspin) { std::map<int, int> q; for (auto &[d, p] : w) q[byspin ? spin[p] : 0] += d ? 1 : -1; for (auto &[k, v] : q) if (v) return false; return true; }
// level of conservation: 0 anything even, 1 the number of particles, 2 the number of particles of every spin
template <bool C> OpW<C> hermitian(vp::Src &s, Model const &M, int level, int K) {
  OpW<C> h; int n = M.n;
  if (s.chance(1, 2)) { double u = s.integer(-3, 6) / 2., mu = s.integer(-3, 6) / 2.; for (int a = 0; a < n; ++a) { add<C>(M, h, {{true, a}, {false, a}}, -mu); for (int b = 0; b < a; ++b) add<C>(M, h, {{true, a}, {false, a}, {true, b}, {false, b}}, u); } }
  for (int k = 0; k < K; ++k) {
    Word w; int l = s.chance(1, 3) ? 4 : 2; for (int q = 0; q < l; ++q) w.emplace_back(level == 0 ? s.boolean() : q < l / 2, int(s.raw(n - 1))); s.shuffle(w);
    if (s.chance(1, 4)) w = {{true, w[0].second}, {false, w[0].second}};
    if (level > 0 && !conserves(w, M.spin, level == 2)) continue;
    auto c = coef<C>(s); add<C>(M, h, w, c); if constexpr (C) add<C>(M, h, hc(w), std::conj(c)); else add<C>(M, h, hc(w), c);
  }
  if (s.chance(1, 6)) add<C>(M, h, {}, coef<C>(s, true));
  return h;
}
inline Mat dense(int n, Words const &w) { Mat r(1 << n); for (auto &[x, c] : w) r = r + word_matrix(n, x, c); return r; }
// the eigenbasis: columns of U are the eigenstates in the flat order
template <bool C> struct Ed { Mat U; std::vector<double> E; std::vector<int> block; int d; };
template <bool C> Ed<C> check(vp::Src &s, ad::atom_diag<C> const &a, Model const &M, OpW<C> const &h, int nmin, int nmax) {
  int n = M.n, D = 1 << n; Mat H = dense(n, h.w); double sc = 1 + H.norm() * D;
  VP_REQUIRE(a.get_full_hilbert_space_dim() == D, "dimension of the space"); VP_REQUIRE((a.get_h_atomic() - h.o).is_zero(), "stored Hamiltonian");
  Ed<C> e{Mat(D), {}, {}, 0}; std::vector<int> owner(D, -1); int nb = a.n_subspaces(), in = 0; auto all = a.get_fock_states(); auto dims = a.get_subspace_dims(); auto en = a.get_energies(); auto um = a.get_unitary_matrices();
  for (int f = 0; f < D; ++f) { int c = __builtin_popcount(f); in += c >= nmin && c <= nmax; }
  VP_REQUIRE(int(all.size()) == nb && int(dims.size()) == nb && int(en.size()) == nb, "number of subspaces"); double last = -1e300, lowest = 1e300;
  for (int b = 0; b < nb; ++b) {
    auto const &fs = a.get_fock_states(b); auto const &u = a.get_unitary_matrix(b); int d = a.get_subspace_dim(b);
    VP_REQUIRE(fs == all[b] && dims[b] == d && int(fs.size()) == d && d > 0 && int(en[b].size()) == d, "dimension of subspace ", b); VP_REQUIRE(u.shape(0) == d && u.shape(1) == d && max_element(abs(nda::make_regular(u - um[b]))) == 0, "transformation of subspace ", b);
    VP_REQUIRE(a.index_range_of_subspace(b).first() == e.d && a.index_range_of_subspace(b).last() == e.d + d && a.flatten_subspace_index(b, 0) == e.d, "flat indices of subspace ", b);
    for (auto f : fs) { VP_REQUIRE(f < uint64_t(D) && owner[f] == -1, "Fock state ", f, " is in two subspaces"); int c = __builtin_popcountll(f); VP_REQUIRE(c >= nmin && c <= nmax, "Fock state ", f, " has the wrong number of particles"); owner[f] = b; }
    for (int i = 0; i < d; ++i) { double x = a.get_eigenvalue(b, i); VP_REQUIRE(x == en[b][i], "energies"); VP_REQUIRE(i == 0 || x >= a.get_eigenvalue(b, i - 1) - 1e-12, "energies of subspace ", b, " not ascending"); VP_REQUIRE(x > -1e-9 * sc, "negative energy ", x); lowest = std::min(lowest, x); e.E.push_back(x); e.block.push_back(b); for (int k = 0; k < d; ++k) e.U(int(fs[k]), e.d + i) = u(k, i); }
    VP_REQUIRE(a.get_eigenvalue(b, 0) >= last - 1e-7, "subspaces are not in ascending order of their lowest energy"); last = a.get_eigenvalue(b, 0); e.d += d;
  }
  VP_REQUIRE(e.d == in, "the subspaces hold ", e.d, " states of ", in); VP_REQUIRE(nb == 0 || std::abs(lowest) < 1e-9 * sc, "the lowest energy is ", lowest, " instead of 0");
  for (int f = 0; f < D; ++f) for (int g = 0; g < D; ++g) if (owner[f] >= 0 && owner[g] >= 0 && owner[f] != owner[g]) VP_REQUIRE(std::abs(H(f, g)) < 1e-9, "the Hamiltonian connects two subspaces");
  Mat UU = e.U.dag() * e.U; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) VP_REQUIRE(std::abs(UU(i, j) - dc(i == j && i < e.d)) < 1e-9, "the eigenstates are not orthonormal");
  Mat HU = e.U.dag() * H * e.U; for (int i = 0; i < e.d; ++i) for (int j = 0; j < e.d; ++j) VP_REQUIRE(std::abs(HU(i, j) - (i == j ? dc(e.E[i] + a.get_gs_energy()) : dc(0))) < 1e-9 * sc, "energy ", i, ",", j, " of the eigenstates is ", HU(i, j), " want ", i == j ? e.E[i] + a.get_gs_energy() : 0.);
  // vacuum
  if (nmin <= 0) { int b = int(a.get_vacuum_subspace_index()); VP_REQUIRE(b == owner[0], "subspace of the vacuum ", b, " want ", owner[0]); } else VP_REQUIRE(a.get_vacuum_subspace_index() == -1, "a vacuum outside the space is in subspace ", a.get_vacuum_subspace_index());
  auto const &v = a.get_vacuum_state(); VP_REQUIRE(v.size() == D, "size of the vacuum"); for (int i = 0; i < D; ++i) VP_REQUIRE(std::abs(dc(v(i)) - (i < e.d ? std::conj(e.U(0, i)) : dc(0))) < 1e-9, "vacuum state");
  // creation and annihilation operators
  for (int p = 0; p < n; ++p) for (int dg = 0; dg < 2; ++dg) {
    Mat c = e.U.dag() * word_matrix(n, {{bool(dg), p}}) * e.U;
    for (int B = 0; B < nb; ++B) {
      std::set<int> to; for (auto f : all[B]) { auto r = act1(FockVec{{{f, 1.}}}, dg, p); for (auto &[g, z] : r.v) if (owner[g] >= 0) to.insert(owner[g]); }
      VP_REQUIRE(to.size() <= 1, dg ? "creation" : "annihilation", " operator ", p, " maps subspace ", B, " to ", to.size(), " subspaces");
      long want = to.empty() ? -1 : *to.begin(), got = dg ? a.cdag_connection(p, B) : a.c_connection(p, B); VP_REQUIRE(got == want, "connection of operator ", p, " from subspace ", B, " is ", got, " want ", want);
      auto const &m = dg ? a.cdag_matrix(p, B) : a.c_matrix(p, B); if (want == -1) { VP_REQUIRE(m.size() == 0, "matrix without a connection"); continue; }
      VP_REQUIRE(m.shape(0) == dims[want] && m.shape(1) == dims[B], "shape of a matrix"); for (int i = 0; i < dims[want]; ++i) for (int j = 0; j < dims[B]; ++j) VP_REQUIRE(std::abs(dc(m(i, j)) - c(a.flatten_subspace_index(int(want), i), a.flatten_subspace_index(B, j))) < 1e-9, "matrix of operator ", p, " between subspaces ", B, " and ", want);
    }
  }
  return e;
}
template <bool C> void functions(vp::Src &s, ad::atom_diag<C> const &a, Model const &M, OpW<C> const &h, Ed<C> const &e) {
  int n = M.n; using S = typename ad::atom_diag<C>::scalar_t; double beta = s.pick({0.1, 1., 3., 20.}), Z = 0; for (double x : e.E) Z += std::exp(-beta * x); VP_CLOSE(ad::partition_function(a, beta), Z, 1e-11, "partition function");
  auto dm = ad::atomic_density_matrix(a, beta); VP_REQUIRE(int(dm.size()) == a.n_subspaces(), "blocks of the density matrix"); { int k = 0; for (auto &b : dm) for (int i = 0; i < b.shape(0); ++i, ++k) for (int j = 0; j < b.shape(1); ++j) VP_CLOSE(dc(b(i, j)), dc(i == j ? std::exp(-beta * e.E[k]) / Z : 0.), 1e-11, "density matrix"); }
  OpW<C> o; int K = int(s.integer(1, 3)); for (int k = 0; k < K; ++k) { Word w; int l = int(s.integer(0, 4)); for (int q = 0; q < l; ++q) w.emplace_back(s.boolean(), int(s.raw(n - 1))); auto c = coef<C>(s); if (c == S(0)) c = S(1); add<C>(M, o, w, c); if (s.chance(1, 2)) { if constexpr (C) add<C>(M, o, hc(w), std::conj(c)); else add<C>(M, o, hc(w), c); } }
  Mat W = e.U.dag() * dense(n, o.w) * e.U; double sc = 1 + W.norm();
  { dc want = 0; for (int i = 0; i < e.d; ++i) want += W(i, i) * std::exp(-beta * e.E[i]) / Z; dc got = ad::trace_rho_op<C>(dm, o.o, a); VP_REQUIRE(std::abs(got - want) < 1e-9 * sc, "average ", got, " want ", want);
    auto r = dm; for (auto &b : r) for (int i = 0; i < b.shape(0); ++i) for (int j = 0; j < b.shape(1); ++j) b(i, j) = S(s.integer(-2, 2)); want = 0; for (int b = 0; b < a.n_subspaces(); ++b) for (int i = 0; i < r[b].shape(0); ++i) for (int j = 0; j < r[b].shape(0); ++j) want += W(a.flatten_subspace_index(b, i), a.flatten_subspace_index(b, j)) * dc(r[b](j, i)); got = ad::trace_rho_op<C>(r, o.o, a); VP_REQUIRE(std::abs(got - want) < 1e-8 * sc, "trace with a general matrix ", got, " want ", want);
    if (a.n_subspaces() > 1) { r.pop_back(); VP_REQUIRE(vp::throws([&] { ad::trace_rho_op<C>(r, o.o, a); }), "a matrix with a missing block is accepted"); } }
  { typename ad::atom_diag<C>::full_hilbert_space_state_t st(1 << n); st() = 0; for (int i = 0; i < e.d; ++i) st(i) = S(s.integer(-3, 3)); auto r = ad::act<C>(o.o, st, a); VP_REQUIRE(r.size() == 1 << n, "size of the image"); for (int i = 0; i < e.d; ++i) { dc w = 0; for (int j = 0; j < e.d; ++j) w += W(i, j) * dc(st(j)); VP_REQUIRE(std::abs(dc(r(i)) - w) < 1e-8 * sc, "image of a state"); } for (int i = e.d; i < 1 << n; ++i) VP_REQUIRE(dc(r(i)) == 0., "image of a state outside the space"); }
  // a product of operators
  for (int b = 0; b < a.n_subspaces(); ++b) for (auto const &t : o.o) { Word w; for (auto const &c : t.monomial) w.emplace_back(c.dagger, M.fops[c.indices]); Mat X = e.U.dag() * word_matrix(n, w) * e.U; auto [to, m] = a.get_matrix_element_of_monomial(t.monomial, b);
    for (int i = 0; i < e.d; ++i) for (int j = 0; j < a.get_subspace_dim(b); ++j) { dc want = X(i, a.flatten_subspace_index(b, j)); if (to >= 0 && e.block[i] == to) VP_REQUIRE(std::abs(dc(m(i - a.flatten_subspace_index(to, 0), j)) - want) < 1e-9, "matrix of a product"); else VP_REQUIRE(std::abs(want) < 1e-9, "a product of operators maps subspace ", b, " to subspace ", e.block[i], " too"); } }
  { bool unique = true; std::vector<std::set<int>> to(a.n_subspaces()); for (auto const &t : o.o) for (int b = 0; b < a.n_subspaces(); ++b) { int x = a.get_matrix_element_of_monomial(t.monomial, b).first; if (x >= 0) to[b].insert(x); } for (auto &x : to) unique = unique && x.size() <= 1;
    if (!unique) VP_REQUIRE(vp::throws([&] { a.get_op_mat(o.o); }), "an operator with two target subspaces is accepted"); else { auto r = a.get_op_mat(o.o); VP_REQUIRE(r.n_blocks() == a.n_subspaces(), "blocks of an operator"); for (int b = 0; b < r.n_blocks(); ++b) { long x = to[b].empty() ? -1 : *to[b].begin(); VP_REQUIRE(r.connection(b) == x, "connection of an operator"); if (x < 0) continue; VP_REQUIRE(r.block_mat[b].shape(0) == a.get_subspace_dim(int(x)) && r.block_mat[b].shape(1) == a.get_subspace_dim(b), "shape"); for (int i = 0; i < r.block_mat[b].shape(0); ++i) for (int j = 0; j < r.block_mat[b].shape(1); ++j) VP_REQUIRE(std::abs(dc(r.block_mat[b](i, j)) - W(a.flatten_subspace_index(int(x), i), a.flatten_subspace_index(b, j))) < 1e-9 * sc, "block of an operator"); } } }
  // conserved quantities
  { OpW<C> q; int kind = int(s.raw(3)); if (kind == 0) for (int p = 0; p < n; ++p) add<C>(M, q, {{true, p}, {false, p}}, 1.); else if (kind == 1) { int sp = M.spin[0]; for (int p = 0; p < n; ++p) if (M.spin[p] == sp) add<C>(M, q, {{true, p}, {false, p}}, 0.5); } else if (kind == 2) q = h; else q = hermitian<C>(s, M, 1, 1);
    Mat Q = dense(n, q.w), H = dense(n, h.w), QE = e.U.dag() * Q * e.U; bool comm = dist(Q * H, H * Q) < 1e-11, gap = dist(Q * H, H * Q) > 1e-6; double off = 0; for (int i = 0; i < e.d; ++i) for (int j = 0; j < e.d; ++j) if (i != j) off = std::max(off, std::abs(QE(i, j)));
    if (gap) { VP_REQUIRE(vp::throws([&] { ad::quantum_number_eigenvalues<C>(q.o, a); }), "an operator which does not commute with the Hamiltonian is accepted"); VP_REQUIRE(vp::throws([&] { ad::quantum_number_eigenvalues_checked<C>(q.o, a); }), "an operator which does not commute with the Hamiltonian is accepted"); }
    else if (comm) { auto r = ad::quantum_number_eigenvalues<C>(q.o, a); VP_REQUIRE(int(r.size()) == a.n_subspaces(), "blocks"); for (int i = 0; i < e.d; ++i) VP_REQUIRE(std::abs(r[e.block[i]][i - a.flatten_subspace_index(e.block[i], 0)] - QE(i, i).real()) < 1e-9 * (1 + Q.norm()), "eigenvalue ", i, " of a conserved quantity");
      s.label(off > 1e-6 ? "degenerate quantum number" : "diagonal quantum number");
      if (off > 1e-6) VP_REQUIRE(vp::throws([&] { ad::quantum_number_eigenvalues_checked<C>(q.o, a); }), "an operator with off-diagonal elements is accepted as diagonal"); else if (off < 1e-14) { auto r2 = ad::quantum_number_eigenvalues_checked<C>(q.o, a); VP_REQUIRE(r2.size() == r.size(), "blocks"); for (size_t b = 0; b < r.size(); ++b) for (size_t i = 0; i < r[b].size(); ++i) VP_CLOSE(r2[b][i], r[b][i], 1e-9, "checked eigenvalue"); } } }
}
template <bool C> void construct(vp::Src &s) {
  auto M = model(s, s.chance(1, 8) ? 5 : 4); bool unsorted = false; int n = M.n, kind = int(s.raw(3)), nmin = 0, nmax = n; OpW<C> h = hermitian<C>(s, M, kind == 2 ? 1 : kind == 3 ? int(s.integer(1, 2)) : int(s.integer(0, 2)), int(s.integer(0, 5)));
  ad::atom_diag<C> a; std::vector<int> lev; s.say("n=", n, " kind ", kind, " terms ", h.w.size());
  if (kind == 0) a = ad::atom_diag<C>(h.o, M.fops); else if (kind == 1) { auto hyb = hermitian<C>(s, M, 0, int(s.integer(0, 2))); a = ad::atom_diag<C>(h.o, hyb.o, M.fops); Mat Y = dense(n, hyb.w); std::vector<int> ow(1 << n); for (int b = 0; b < a.n_subspaces(); ++b) for (auto f : a.get_fock_states(b)) ow[f] = b; for (int i = 0; i < 1 << n; ++i) for (int j = 0; j < 1 << n; ++j) if (std::abs(Y(i, j)) > 1e-9) VP_REQUIRE(ow[i] == ow[j], "the hybridisation connects two subspaces"); }
  else if (kind == 2) { nmin = int(s.integer(0, n)); nmax = int(s.integer(nmin, n)); a = ad::atom_diag<C>(h.o, M.fops, nmin, nmax); }
  else {
    std::vector<Op<C>> qn; bool spin = s.boolean(); std::vector<std::vector<int>> qs; // charges of the modes
    bool ok = true; for (auto &[w, c] : h.w) ok = ok && conserves(w, M.spin, true); spin = spin && ok; int nq = spin ? 3 : 1; for (int q = 0; q < nq; ++q) { OpW<C> o; for (int p = 0; p < n; ++p) if (!spin || M.spin[p] == q) add<C>(M, o, {{true, p}, {false, p}}, q == 1 ? 0.3 : 1.); qn.push_back(o.o); }
    a = ad::atom_diag<C>(h.o, M.fops, qn); auto const &v = a.get_quantum_numbers(); VP_REQUIRE(int(v.size()) == a.n_subspaces(), "number of quantum numbers");
    auto Q = [&](uint64_t f) { std::vector<double> r(nq); for (int q = 0; q < nq; ++q) for (int p = 0; p < n; ++p) if ((f >> p & 1) && (!spin || M.spin[p] == q)) r[q] += q == 1 ? 0.3 : 1.; return r; };
    auto same = [](auto const &x, auto const &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (std::abs(x[i] - y[i]) > 1e-9) return false; return true; };
    std::vector<std::vector<double>> appear; for (int f = 0; f < 1 << n; ++f) { auto q = Q(f); bool in = false; for (auto &x : appear) in = in || same(x, q); if (!in) appear.push_back(q); }
    bool built = v.size() == appear.size(); for (size_t b = 0; built && b < v.size(); ++b) built = same(v[b], appear[b]); // the recorded finding: listed in the order the subspaces are met before they are sorted by energy
    for (int b = 0; b < a.n_subspaces(); ++b) for (auto f : a.get_fock_states(b)) { VP_REQUIRE(same(Q(f), Q(a.get_fock_states(b)[0])), "states of different quantum numbers in subspace ", b); if (!same(v[b], Q(f))) { if (built) unsorted = true; else for (int q = 0; q < nq; ++q) VP_CLOSE(v[b][q], Q(f)[q], 1e-9, "quantum number ", q, " of subspace ", b); } }
  }
  auto e = check<C>(s, a, M, h, nmin, nmax); functions<C>(s, a, M, h, e); s.nontrivial(n > 1 && a.n_subspaces() > 1 && e.d > a.n_subspaces());
  if (s.chance(1, 3)) { // files
    ad::atom_diag<C> b; if (s.boolean()) { auto h2 = hermitian<C>(s, M, 1, 2); b = s.boolean() ? ad::atom_diag<C>(h2.o, M.fops) : ad::atom_diag<C>(h2.o, M.fops, std::vector<Op<C>>{}); }
    h5::file f{}; h5_write(f, "a", a); h5_read(f, "a", b); VP_REQUIRE(b == a, "an object read from a file differs"); check<C>(s, b, M, h, nmin, nmax); VP_REQUIRE(b.get_quantum_numbers() == a.get_quantum_numbers() && b.get_fops() == M.fops, "content of the object read"); auto c = a; VP_REQUIRE(c == a, "copy"); }
  { std::ostringstream o; o << a; VP_REQUIRE(o.str().find(std::to_string(1 << n)) != std::string::npos, "text"); }
  if (unsorted) throw vp::Known{"atom_diag_quantum_numbers_order", "get_quantum_numbers() lists the subspaces in the order before they are sorted by energy"};
}
// more subspaces than fit in a machine word: every occupation is a quantum number
template <bool C> static void many(vp::Src &s) {
  int n = int(s.integer(6, 8)); fundamental_operator_set fops; std::vector<indices_t> m; for (int p = 0; p < n; ++p) { m.push_back({std::string(p % 2 ? "up" : "dn"), long(p / 2)}); fops.insert_from_indices_t(m.back()); } std::vector<indices_t> byp(n); for (auto &x : m) byp[fops[x]] = x; m = byp;
  auto N = [&](int p) { return Op<C>::make_canonical(true, m[p]) * Op<C>::make_canonical(false, m[p]); }; Op<C> h; std::vector<double> e(n); std::vector<std::vector<double>> u(n, std::vector<double>(n)); for (int p = 0; p < n; ++p) { e[p] = s.generic(-2, 2); h += e[p] * N(p); for (int q = 0; q < p; ++q) if (s.boolean()) { u[p][q] = s.generic(-1, 2); h += u[p][q] * (N(p) * N(q)); } }
  bool autop = s.boolean(); std::vector<Op<C>> qn; for (int p = 0; p < n; ++p) qn.push_back(N(p)); auto a = autop ? ad::atom_diag<C>(h, fops) : ad::atom_diag<C>(h, fops, qn); s.say(n, " modes, ", autop ? "automatic" : "occupations"); int D = 1 << n; VP_REQUIRE(a.n_subspaces() == D, "number of subspaces ", a.n_subspaces(), " of ", D);
  std::vector<double> E(D); double lo = 1e300; for (int f = 0; f < D; ++f) { for (int p = 0; p < n; ++p) if (f >> p & 1) { E[f] += e[p]; for (int q = 0; q < p; ++q) if (f >> q & 1) E[f] += u[p][q]; } lo = std::min(lo, E[f]); } std::vector<int> at(D, -1); double last = -1;
  for (int b = 0; b < D; ++b) { auto const &fs = a.get_fock_states(b); VP_REQUIRE(fs.size() == 1 && fs[0] < uint64_t(D) && at[fs[0]] < 0, "states of subspace ", b); at[fs[0]] = b; VP_CLOSE(a.get_eigenvalue(b, 0), E[fs[0]] - lo, 1e-9, "energy of Fock state ", fs[0]); VP_REQUIRE(a.get_eigenvalue(b, 0) >= last - 1e-9, "order of the subspaces"); last = a.get_eigenvalue(b, 0); } VP_CLOSE(a.get_gs_energy(), lo, 1e-9, "lowest energy"); VP_REQUIRE(int(a.get_vacuum_subspace_index()) == at[0], "subspace of the vacuum");
  std::vector<dc> ph(D); for (int f = 0; f < D; ++f) ph[f] = dc(a.get_unitary_matrix(at[f])(0, 0));
  for (int f = 0; f < D; ++f) for (int p = 0; p < n; ++p) { int g = f ^ (1 << p), sg = __builtin_popcount(f & ((1 << p) - 1)) & 1; bool oc = f >> p & 1; long want = at[g]; VP_REQUIRE(a.c_connection(p, at[f]) == (oc ? want : -1) && a.cdag_connection(p, at[f]) == (oc ? -1 : want), "connection of operator ", p, " from Fock state ", f); auto const &x = oc ? a.c_matrix(p, at[f]) : a.cdag_matrix(p, at[f]); VP_REQUIRE(x.shape(0) == 1 && x.shape(1) == 1, "shape of a matrix"); dc w = std::conj(ph[g]) * (sg ? -1. : 1.) * ph[f]; VP_REQUIRE(std::abs(dc(x(0, 0)) - w) < 1e-9, "matrix of operator ", p, " from Fock state ", f); }
  if constexpr (C) { auto q2 = qn; q2[s.raw(n - 1)] *= dc(0, 1); VP_REQUIRE(vp::throws([&] { ad::atom_diag<C>(h, fops, q2); }), "a complex quantum number is accepted"); }
  s.nontrivial(true); }
VP_TEST(many_subspaces) { if (s.boolean()) many<true>(s); else many<false>(s); }
VP_TEST(real_hamiltonian) { construct<false>(s); }
VP_TEST(complex_hamiltonian) { construct<true>(s); }

template <bool C> void lehmann(vp::Src &s) {
  auto M = model(s, 4); int n = M.n, nmin = 0, nmax = n; bool filt = s.chance(1, 4); OpW<C> h = hermitian<C>(s, M, filt ? 1 : int(s.integer(0, 2)), int(s.integer(1, 5))); double f = s.pick({1., 1., 0.1, 10.}); h.o *= f; for (auto &[w, c] : h.w) c *= f;
  if (filt) { nmin = int(s.integer(0, n - 1)); nmax = int(s.integer(nmin + 1, n)); } auto a = filt ? ad::atom_diag<C>(h.o, M.fops, nmin, nmax) : ad::atom_diag<C>(h.o, M.fops);
  auto e = check<C>(s, a, M, h, nmin, nmax); double beta = s.pick({0.5, 2., 10., 100., 400.}); ad::excluded_states_t ex; std::vector<bool> out(e.d, false); for (int k = s.chance(1, 3) ? int(s.integer(1, 3)) : 0; k > 0; --k) { int i = int(s.raw(e.d - 1)); ex.emplace_back(e.block[i], i - a.flatten_subspace_index(e.block[i], 0)); out[i] = true; }
  std::vector<double> w; double Z = 0; for (double x : e.E) { w.push_back(std::exp(-beta * x)); Z += w.back(); } for (auto &x : w) x /= Z;
  struct Term { double p; dc r; }; s.say("n=", n, " beta=", beta, " excluded ", ex.size(), " filter ", filt);
  int nw = int(s.integer(1, 6)), nt = int(s.integer(2, 9)), nl = int(s.integer(1, 12)), nr = int(s.integer(2, 9)); double wmin = s.generic(-5, 0), wmax = s.generic(0.5, 5), eta = s.pick({0.1, 0.5, 2.});
  auto L = ad::atomic_g_lehmann<C>(a, beta, M.gs, ex); VP_REQUIRE(L.size() == M.gs.size(), "blocks of the Lehmann representation");
  auto gw = ad::atomic_g_iw<C>(a, beta, M.gs, nw, ex), gw2 = ad::atomic_g_iw<C>(L, M.gs, mesh::imfreq(beta, Fermion, nw)); auto gt = ad::atomic_g_tau<C>(a, beta, M.gs, nt, ex), gt2 = ad::atomic_g_tau<C>(L, M.gs, mesh::imtime(beta, Fermion, nt));
  auto gl = ad::atomic_g_l<C>(a, beta, M.gs, nl, ex), gl2 = ad::atomic_g_l<C>(L, M.gs, mesh::legendre(beta, Fermion, nl)); auto gr = ad::atomic_g_w<C>(a, beta, M.gs, {wmin, wmax}, nr, eta, ex), gr2 = ad::atomic_g_w<C>(L, M.gs, mesh::refreq(wmin, wmax, nr), eta);
  std::vector<Mat> cm, cd; for (int p = 0; p < n; ++p) { cm.push_back(e.U.dag() * word_matrix(n, {{false, p}}) * e.U); cd.push_back(e.U.dag() * word_matrix(n, {{true, p}}) * e.U); } int terms = 0;
  for (int b = 0; b < int(M.gs.size()); ++b) {
    VP_REQUIRE(gw.block_names()[b] == M.gs[b].first && gt.block_names()[b] == M.gs[b].first && gw[b].target_shape()[0] == M.gs[b].second, "structure of the functions");
    for (int i = 0; i < M.gs[b].second; ++i) for (int j = 0; j < M.gs[b].second; ++j) {
      int p1 = M.pos[b][i], p2 = M.pos[b][j]; std::vector<Term> T; dc sum = 0, suml = 0; for (int x = 0; x < e.d; ++x) for (int y = 0; y < e.d; ++y) { if (out[x] || out[y]) continue; dc r = (w[x] + w[y]) * cm[p1](x, y) * cd[p2](y, x); if (std::abs(r) > 1e-17) { T.push_back({e.E[y] - e.E[x], r}); sum += r; } } terms += int(T.size());
      for (auto &[p, r] : L[b](i, j)) suml += r; VP_REQUIRE(std::abs(suml - sum) < 1e-10, "sum of residues ", suml, " want ", sum); if (!filt && ex.empty()) VP_REQUIRE(std::abs(suml - dc(i == j)) < 1e-9, "sum rule: ", suml);
      { // moments of the spectrum, term by term in the order of the poles
        for (int k = 1; k < 3; ++k) { dc m1 = 0, m2 = 0; double scl = 1; for (auto &[p, r] : L[b](i, j)) { m1 += r * std::pow(p, k); scl = std::max(scl, std::abs(std::pow(p, k))); } for (auto &t : T) m2 += t.r * std::pow(t.p, k); VP_REQUIRE(std::abs(m1 - m2) < 1e-9 * scl, "moment ", k, " of the spectrum"); } }
      for (auto x : gw[b].mesh()) { dc z(0, M_PI * (2 * x.index() + 1) / beta), v = 0; for (auto &t : T) v += t.r / (z - t.p); double tol = 1e-9 * (1 + std::abs(beta)); VP_REQUIRE(std::abs(gw[b][x](i, j) - v) < tol && std::abs(gw2[b][x](i, j) - v) < tol, "G(i omega) ", gw[b][x](i, j), " and ", gw2[b][x](i, j), " want ", v); }
      for (auto x : gt[b].mesh()) { double tau = x.index() * beta / (nt - 1); dc v = 0; for (auto &t : T) v -= t.r * (t.p > 0 ? std::exp(-tau * t.p) / (1 + std::exp(-beta * t.p)) : std::exp((beta - tau) * t.p) / (1 + std::exp(beta * t.p))); VP_REQUIRE(std::abs(gt[b][x](i, j) - v) < 1e-9 && std::abs(gt2[b][x](i, j) - v) < 1e-9, "G(tau) ", gt[b][x](i, j), " and ", gt2[b][x](i, j), " want ", v); }
      for (auto x : gr[b].mesh()) { dc z(wmin + x.index() * (wmax - wmin) / (nr - 1), eta), v = 0; for (auto &t : T) v += t.r / (z - t.p); VP_REQUIRE(std::abs(gr[b][x](i, j) - v) < 1e-8 && std::abs(gr2[b][x](i, j) - v) < 1e-8, "G(omega)"); }
      // Legendre coefficients by integration over the part of the interval which contributes
      std::vector<dc> v(nl, 0.); for (auto &t : T) { double p = t.p, len = std::min(beta, 45 / std::max(std::abs(p), 1e-30)); int q = 400; double den = 1 + std::exp(-beta * std::abs(p)); // composite Gauss rule
        static const double gx[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, gwt[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
        for (int k = 0; k < q / 8; ++k) for (int g = 0; g < 8; ++g) { double u = (k + 0.5 * (1 + (g < 4 ? gx[g] : -gx[g - 4]))) * len / (q / 8), wt = gwt[g % 4] * 0.5 * len / (q / 8), tau = p > 0 ? u : beta - u, F = -std::exp(-u * std::abs(p)) / den, X = 2 * tau / beta - 1, P0 = 1, P1 = X; for (int l = 0; l < nl; ++l) { v[l] += t.r * wt * F * std::sqrt(2. * l + 1) * P0; double P2 = ((2 * l + 3) * X * P1 - (l + 1) * P0) / (l + 2); P0 = P1; P1 = P2; } } }
      for (auto x : gl[b].mesh()) { int l = int(x.index()); VP_REQUIRE(std::abs(gl[b][x](i, j) - v[l]) < 1e-8 * (1 + beta) && std::abs(gl2[b][x](i, j) - v[l]) < 1e-8 * (1 + beta), "Legendre coefficient ", l, " ", gl[b][x](i, j), " and ", gl2[b][x](i, j), " want ", v[l]); }
    }
  }
  s.nontrivial(n > 1 && terms > 2);
}
VP_TEST(lehmann_real) { lehmann<false>(s); }
VP_TEST(lehmann_complex) { lehmann<true>(s); }
