// Hilbert spaces, states and operators acting on them
#include "fock.hpp"
#include <boost/container/flat_map.hpp>
#include <unordered_map>
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
using namespace triqs::hilbert_space; using namespace triqs::operators;
template <typename S> S amp(vp::Src &s) { double a = s.integer(-6, 6) / 2., b = s.integer(-6, 6) / 2.; if constexpr (std::is_same_v<S, double>) return a == 0 ? 1. : a; else return a == 0 && b == 0 ? S(1) : S(a, b); }
inline std::vector<indices_t> modes(vp::Src &s, int n) {
  std::vector<indices_t> r; for (int i = 0; i < n; ++i) { if (i % 2) r.push_back({std::string(i % 3 ? "up" : "dn"), long(i)}); else r.push_back({long(i), std::string("x")}); }
  s.shuffle(r); return r;
}
// a random operator with terms of at most L operators on modes 0..n-1 and its words
template <typename S> std::pair<many_body_operator_generic<S>, std::vector<std::pair<Word, dc>>> random_op(vp::Src &s, std::vector<indices_t> const &m, int K, int L) {
  many_body_operator_generic<S> o; std::vector<std::pair<Word, dc>> w; int n = int(m.size());
  for (int k = 0; k < K; ++k) {
    S c = amp<S>(s); Word x; many_body_operator_generic<S> t(c); int l = int(s.integer(0, L));
    for (int q = 0; q < l; ++q) { bool d = s.boolean(); int p = int(s.raw(n - 1)); x.emplace_back(d, p); t *= many_body_operator_generic<S>::make_canonical(d, m[p]); }
    o += t; w.emplace_back(x, dc(c));
  }
  return {o, w};
}
inline FockVec act_op(std::vector<std::pair<Word, dc>> const &w, FockVec const &v) { FockVec r; for (auto &[x, c] : w) for (auto &[f, a] : act(x, c, v).v) r.v[f] += a; return r; }
template <typename St> std::map<uint64_t, dc> read(St const &st) { std::map<uint64_t, dc> r; auto const &hs = st.get_hilbert(); foreach (st, [&](int i, auto a) { if (std::abs(a) > 1e-12) { VP_REQUIRE(i >= 0 && i < hs.size(), "foreach visits index ", i); VP_REQUIRE(!r.count(hs.get_fock_state(i)), "foreach visits twice"); r[hs.get_fock_state(i)] = a; } }); return r; }
inline bool same(std::map<uint64_t, dc> a, std::map<uint64_t, dc> const &b, double tol = 1e-9) { for (auto &[f, x] : b) a[f] -= x; for (auto &[f, x] : a) if (std::abs(x) > tol) return false; return true; }

template <typename S, bool Map> void full(vp::Src &s) { // the whole Fock space
  int n = int(s.integer(1, 6)); auto m = modes(s, n); fundamental_operator_set fops; for (auto &i : m) fops.insert_from_indices_t(i);
  hilbert_space H(fops), H2(fops); using St = state<hilbert_space, S, Map>;
  VP_REQUIRE(H.size() == 1 << n && H == H2 && !(H != H2), "size of the space"); VP_REQUIRE(!H.has_state(uint64_t(1) << n) && H.has_state((uint64_t(1) << n) - 1), "has_state");
  VP_REQUIRE(vp::throws([&] { H.get_state_index(uint64_t(1) << n); }) && vp::throws([&] { H.get_fock_state(1 << n); }), "a state outside the space is accepted");
  { std::set<indices_t> occ; uint64_t f = 0; for (int i = 0; i < n; ++i) if (s.boolean()) { occ.insert(m[i]); f |= uint64_t(1) << i; } VP_REQUIRE(H.get_fock_state(fops, occ) == f && H.get_state_index(f) == int(f) && H.get_fock_state(int(f)) == f, "Fock state of a set of operators"); }
  St a(H), b(H); FockVec va, vb; auto fill = [&](St &x, FockVec &v) { for (int k = int(s.integer(0, 5)); k > 0; --k) { uint64_t f = s.raw(H.size() - 1); S c = amp<S>(s); x(f) = c; v.v[f] = c; } };
  fill(a, va); fill(b, vb); if (s.chance(1, 4)) { uint64_t f = s.raw(H.size() - 1); a = St(H, f); va.v = {{f, 1.}}; }
  int steps = int(s.integer(1, 12)), nt = 0;
  for (int st = 0; st < steps; ++st) {
    int op = int(s.raw(10)); S c = amp<S>(s); s.say(op); auto lin = [](FockVec const &x, dc p, FockVec const &y, dc q) { FockVec r; for (auto &[f, v] : x.v) r.v[f] += p * v; for (auto &[f, v] : y.v) r.v[f] += q * v; return r; };
    if (op == 0) { a += b; va = lin(va, 1, vb, 1); } else if (op == 1) { a -= b; va = lin(va, 1, vb, -1); } else if (op == 2) { a = b + a; va = lin(va, 1, vb, 1); } else if (op == 3) { b = a - b; vb = lin(va, 1, vb, -1); }
    else if (op == 4) { a = s.boolean() ? St(a * c) : St(c * a); va = lin(va, c, {}, 0); } else if (op == 5) { a = a / c; va = lin(va, 1. / dc(c), {}, 0); } else if (op == 6) { a -= a; va.v.clear(); fill(a, va); } else if (op == 7) { std::swap(a, b); std::swap(va, vb); }
    else if (op == 8) { auto z = make_zero_state(a); VP_REQUIRE(read(z).empty() && z.size() == H.size() && &z.get_hilbert() == &H, "make_zero_state"); }
    else if (op == 9) { dc w = 0; for (auto &[f, x] : va.v) if (vb.v.count(f)) w += std::conj(x) * vb.v[f]; dc g = dot_product(a, b); VP_REQUIRE(std::abs(g - w) < 1e-9 * (1 + std::abs(w)), "dot_product ", g, " want ", w); }
    else {
      int L = s.chance(1, 3) ? 6 : 3; auto [o, w] = random_op<S>(s, m, int(s.integer(1, 4)), L); imperative_operator<hilbert_space, S, false> io(o, fops); VP_REQUIRE(io.is_empty() == o.is_zero(), "is_empty");
      b = io(a); vb = act_op(w, va); ++nt; VP_REQUIRE(b.size() == H.size() && &b.get_hilbert() == &H, "space of the image");
      if (s.chance(1, 3)) { io.update([](S &x) { x *= S(2); }); VP_REQUIRE(same(read(io(a)), [&] { auto r = vb; for (auto &[f, x] : r.v) x *= 2; return r.v; }()), "update of the coefficients"); }
    }
    double mx = 0; for (auto &[f, x] : va.v) mx = std::max(mx, std::abs(x)); for (auto &[f, x] : vb.v) mx = std::max(mx, std::abs(x)); if (mx > 1e5) { a = St(H); va.v.clear(); b = St(H); vb.v.clear(); }
    VP_REQUIRE(same(read(a), va.v, 1e-8 * (1 + mx)), "amplitudes of a after step ", op); VP_REQUIRE(same(read(b), vb.v, 1e-8 * (1 + mx)), "amplitudes of b after step ", op);
  }
  St const &ca = a; for (int i = 0; i < H.size(); ++i) VP_REQUIRE(std::abs(dc(ca(i)) - (va.v.count(i) ? va.v[i] : 0.)) < 1e-7 * (1 + std::abs(va.v.count(i) ? va.v[i] : 0.)), "amplitude ", i, " of a constant state");
  s.nontrivial(n > 1 && nt > 0);
}
VP_TEST(fock_vector_real) { full<double, false>(s); }
VP_TEST(fock_vector_complex) { full<dc, false>(s); }
VP_TEST(fock_map_real) { full<double, true>(s); }
VP_TEST(fock_map_complex) { full<dc, true>(s); }

template <typename S, bool Map> void sub(vp::Src &s) { // subspaces with up to 64 modes
  int n = s.boolean() ? int(s.integer(2, 8)) : s.chance(1, 4) ? int(s.integer(63, 64)) : int(s.integer(9, 62)); uint64_t const ALL = n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1; auto m = modes(s, n); fundamental_operator_set fops; for (auto &i : m) fops.insert_from_indices_t(i);
  using St = state<sub_hilbert_space, S, Map>; int idx = int(s.integer(0, 5)); sub_hilbert_space A(idx), B(idx + 1);
  std::vector<uint64_t> fa; int k = int(s.integer(1, 6)); for (int i = 0; i < k; ++i) { uint64_t f = s.raw(ALL); if (s.chance(1, 3)) f = ALL & ~(s.raw(ALL) & s.raw(ALL)); if (std::find(fa.begin(), fa.end(), f) == fa.end()) { fa.push_back(f); A.add_fock_state(f); } }
  VP_REQUIRE(A.size() == int(fa.size()) && A.get_index() == idx && A.get_all_fock_states() == fa, "content of a subspace"); for (size_t i = 0; i < fa.size(); ++i) VP_REQUIRE(A.get_fock_state(int(i)) == fa[i] && A.get_state_index(fa[i]) == int(i) && A.has_state(fa[i]), "indices of a subspace");
  { std::set<indices_t> occ; uint64_t f = fa[0]; for (int i = 0; i < n; ++i) if (f >> i & 1) occ.insert(m[i]); VP_REQUIRE(hilbert_space{}.get_fock_state(fops, occ) == f, "Fock state ", f, " of a set of ", n, " modes: ", hilbert_space{}.get_fock_state(fops, occ)); }
  FockVec va; St a(A); for (size_t i = 0; i < fa.size(); ++i) if (s.boolean()) { S c = amp<S>(s); a(i) = c; va.v[fa[i]] = c; }
  // one term of one operator content, so that the image of A is one subspace
  auto [o, w] = random_op<S>(s, m, int(s.integer(1, 4)), n > 20 ? 4 : 5); std::set<uint64_t> img; std::vector<Word> ow; for (auto const &t : o) { Word x; for (auto const &c : t.monomial) x.emplace_back(c.dagger, int(std::find(m.begin(), m.end(), c.indices) - m.begin())); ow.push_back(x); }
  for (uint64_t f : fa) for (auto &x : ow) for (auto &[g, z] : act(x, 1, FockVec{{{f, 1.}}}).v) img.insert(g);
  std::vector<uint64_t> fb(img.begin(), img.end()); for (int i = int(s.integer(0, 2)); i > 0; --i) { uint64_t f = s.raw(ALL); if (!img.count(f)) { img.insert(f); fb.push_back(f); } } s.shuffle(fb); for (auto f : fb) B.add_fock_state(f);
  for (auto f : fa) VP_REQUIRE(B.has_state(f) == bool(img.count(f)), "has_state of a subspace");
  auto vb = act_op(w, va); double mx = 0; for (auto &[f, x] : vb.v) mx = std::max(mx, std::abs(x)); std::vector<sub_hilbert_space> subs(idx + 2); for (int i = 0; i <= idx + 1; ++i) subs[i].set_index(i); subs[idx] = A; subs[idx + 1] = B; std::vector<int> hm(idx + 2, -1);
  St a2(subs[idx]); for (size_t i = 0; i < fa.size(); ++i) if (va.v.count(fa[i])) { if constexpr (std::is_same_v<S, double>) a2(i) = va.v[fa[i]].real(); else a2(i) = va.v[fa[i]]; }
  hm[idx] = idx + 1; s.say("n=", n, " terms ", w.size(), " states ", fa.size());
  imperative_operator<sub_hilbert_space, S, true> io(o, fops, hm, &subs); auto b = io(a2); VP_REQUIRE(&b.get_hilbert() == &subs[idx + 1], "target subspace"); VP_REQUIRE(same(read(b), vb.v, 1e-9 * (1 + mx)), "image of a state of a subspace with ", n, " modes");
  auto io2 = io; VP_REQUIRE(same(read(io2(a2)), vb.v, 1e-9 * (1 + mx)), "copy of an operator");
  { hm[idx] = -1; imperative_operator<sub_hilbert_space, S, true> nul(many_body_operator_generic<S>{}, fops, hm, &subs); VP_REQUIRE(nul.is_empty(), "zero operator"); (void)nul(a2); }
  VP_REQUIRE(vp::throws([&] { imperative_operator<sub_hilbert_space, S, true> x(o, fops); }), "a connection map is required"); VP_REQUIRE(vp::throws([&] { imperative_operator<sub_hilbert_space, S, false> x(o, fops, hm, &subs); }), "a connection map is refused");
  // projections keep exactly the amplitudes in the target
  { auto p = project<St>(b, A); std::map<uint64_t, dc> want; for (auto &[f, x] : vb.v) if (A.has_state(f)) want[f] = x; VP_REQUIRE(same(read(p), want, 1e-9 * (1 + mx)), "projection on a subspace"); auto q = project<state<sub_hilbert_space, S, !Map>>(b, subs[idx + 1]); VP_REQUIRE(same(read(q), vb.v, 1e-9 * (1 + mx)), "projection on the same subspace"); }
  if (n <= 8) { hilbert_space H(fops); auto q = project<state<hilbert_space, S, Map>>(b, H); VP_REQUIRE(same(read(q), vb.v, 1e-9 * (1 + mx)), "projection on the full space"); auto r = project<St>(q, B); VP_REQUIRE(same(read(r), vb.v, 1e-9 * (1 + mx)), "projection from the full space");
    fundamental_operator_set few; int nf = int(s.integer(1, n)); for (int i = 0; i < nf; ++i) few.insert_from_indices_t(m[i]); hilbert_space Hs(few); auto t = project<state<hilbert_space, S, Map>>(q, Hs); std::map<uint64_t, dc> want; for (auto &[f, x] : vb.v) if (f < uint64_t(Hs.size())) want[f] = x; VP_REQUIRE(same(read(t), want, 1e-9 * (1 + mx)), "projection on a smaller full space"); }
  { auto fn = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/s" + std::to_string(getpid()) + ".h5"; struct G { std::string f; ~G() { unlink(f.c_str()); } } g{fn}; sub_hilbert_space C(17); C.add_fock_state(3); bool h = n <= 30; hilbert_space H = h ? hilbert_space(fops) : hilbert_space{}, G2;
    { h5::file f(fn, 'w'); h5_write(f, "B", B); if (h) h5_write(f, "H", H); } h5::file f(fn, 'r'); h5_read(f, "B", C); VP_REQUIRE(C == B && !(C != B) && C.size() == B.size(), "subspace from a file"); for (auto x : fb) VP_REQUIRE(C.get_state_index(x) == B.get_state_index(x), "subspace from a file"); VP_REQUIRE(!C.has_state(3) || B.has_state(3), "subspace from a file keeps former states"); if (h) { h5_read(f, "H", G2); VP_REQUIRE(G2 == H, "space from a file"); } }
  // equality and printing
  { sub_hilbert_space D(idx + 1); size_t w = s.raw(fb.size()); auto fd = fb; if (s.boolean() && w < fd.size()) { fd[w] = s.raw(ALL); if (img.count(fd[w])) fd[w] = fb[w]; } for (auto f : fd) D.add_fock_state(f); bool same_ = fd == fb; VP_REQUIRE((D == B) == same_ && (D != B) != same_, "comparison of two subspaces of the same size"); sub_hilbert_space E(idx + 2); for (auto f : fb) E.add_fock_state(f); VP_REQUIRE(!(E == B), "subspaces of different indices are equal"); }
  { std::ostringstream os; os << b; std::string x = os.str(); std::map<uint64_t, dc> got; size_t q = 0; while ((q = x.find("+(", q)) != std::string::npos) { size_t e = x.find(")|", q), z = x.find('>', e); VP_REQUIRE(e != std::string::npos && z != std::string::npos, "printed state ", x); std::istringstream is(x.substr(q + 2, e - q - 2 + (x[q + 2] == '(' ? 1 : 0))); dc c = 0; S v{}; is >> v; c = v; got[std::stoull(x.substr(e + 2, z - e - 2))] = c; q = z; } double mxb = 0; for (auto &[f, c] : vb.v) mxb = std::max(mxb, std::abs(c)); VP_REQUIRE(same(got, vb.v, 1e-4 * (1 + mxb)), "printed state ", x); if (got.empty()) VP_REQUIRE(x == "0", "printed zero state ", x); }
  s.nontrivial(n > 2 && !vb.v.empty()); if (n > 16) s.label("more than 16 modes");
}
VP_TEST(subspace_vector_real) { sub<double, false>(s); }
VP_TEST(subspace_vector_complex) { sub<dc, false>(s); }
VP_TEST(subspace_map_real) { sub<double, true>(s); }
VP_TEST(subspace_map_complex) { sub<dc, true>(s); }
