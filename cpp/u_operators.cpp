// many-body operators: algebra, extraction of coefficients, serialisation
#include "fock.hpp"
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/operators/util/extractors.hpp>
using namespace triqs::operators; using triqs::hilbert_space::fundamental_operator_set; using triqs::utility::real_or_complex;
template <typename S> using OpT = many_body_operator_generic<S>;
template <typename S> dc tc(S const &x) { if constexpr (std::is_same_v<S, double>) return x; else return dc(x); }
template <typename S> S coef(vp::Src &s) {
  double a = s.integer(-6, 6) / 2., b = s.integer(-6, 6) / 2.;
  if constexpr (std::is_same_v<S, double>) return a; else if constexpr (std::is_same_v<S, dc>) return dc(a, b); else { if (s.boolean()) return S(a); return S(dc(a, b)); }
}
inline std::vector<indices_t> modes(vp::Src &s, int n, bool pairs = false) { // distinct index lists of mixed kind
  std::vector<indices_t> r;
  while (int(r.size()) < n) {
    indices_t i; int len = pairs ? 2 : int(s.integer(1, 3));
    for (int k = 0; k < len; ++k) { if (s.boolean() && !(pairs && k == 0)) i.push_back(s.chance(1, 6) ? (s.boolean() ? 1L << 33 : -(1L << 40)) + s.integer(0, 2) : s.integer(-2, 12)); else i.push_back(s.pick<std::string>({"up", "dn", "a", "b", "", "0", "i1", "up ", "long name"})); }
    if (std::find(r.begin(), r.end(), i) == r.end()) r.push_back(i);
  }
  return r;
}
template <typename S> OpT<S> elem(indices_t const &i, bool dag) { return OpT<S>::make_canonical(dag, i); }
// the matrix of an operator, and the canonical form of its terms
template <typename S> Mat matrix(OpT<S> const &o, std::vector<indices_t> const &m, bool zeros_ok = false) {
  Mat r(1 << m.size()); std::set<std::string> seen; size_t nt = 0;
  for (auto const &t : o) {
    Word w; ++nt;
    for (auto const &c : t.monomial) { auto it = std::find(m.begin(), m.end(), c.indices); VP_REQUIRE(it != m.end(), "an operator appears from nowhere"); w.emplace_back(c.dagger, int(it - m.begin())); }
    for (size_t k = 1; k < t.monomial.size(); ++k) {
      auto &a = t.monomial[k - 1], &b = t.monomial[k];
      VP_REQUIRE(a.dagger || !b.dagger, "annihilation on the left of creation in a stored term");
      if (a.dagger == b.dagger) VP_REQUIRE(a.indices != b.indices && (a.dagger ? a.indices < b.indices : b.indices < a.indices), "operators of a stored term out of order");
    }
    std::ostringstream k; for (auto &[d, i] : w) k << d << ":" << i << ","; VP_REQUIRE(seen.insert(k.str()).second, "the same term is stored twice: ", k.str());
    if (!zeros_ok) VP_REQUIRE(std::abs(tc(t.coef)) > 1e-14, "a term with a zero coefficient is kept");
    r = r + word_matrix(int(m.size()), w, tc(t.coef));
  }
  VP_REQUIRE(nt == o.get_monomials().size() && o.is_zero() == (nt == 0), "iteration and number of terms");
  return r;
}
template <typename S> Mat re_im(OpT<S> const &, Mat m, bool im) { for (auto &e : m.a) e = im ? e.imag() : e.real(); return m; }
template <typename S> void algebra(vp::Src &s) {
  int n = int(s.integer(1, 4)); auto m = modes(s, n); int K = int(s.integer(1, 3)); std::vector<OpT<S>> A(K); std::vector<Mat> M(K, Mat(1 << n)); Mat I = Mat::id(1 << n);
  int steps = int(s.integer(1, 25)), nt = 0;
  for (int st = 0; st < steps; ++st) {
    int i = int(s.raw(K - 1)), j = int(s.raw(K - 1)); int op = int(s.raw(16)); S c = coef<S>(s); dc z = tc(c); s.say(op, ":", i, ",", j);
    bool small = A[i].get_monomials().size() * A[j].get_monomials().size() < 400;
    if (op <= 2) { // a new product of canonical operators added to i
      Word w; OpT<S> t(c); int len = int(s.integer(0, 5));
      if (s.chance(1, 4)) { monomial_t mm; for (int k = 0; k < len; ++k) { bool d = s.boolean(); int p = int(s.raw(n - 1)); w.emplace_back(d, p); mm.push_back({d, m[p]}); } t = OpT<S>(c, mm); }
      else if (s.boolean()) { t = OpT<S>(S(1)); for (int k = 0; k < len; ++k) { bool d = s.boolean(); int p = int(s.raw(n - 1)); w.emplace_back(d, p); t = t * elem<S>(m[p], d); } t = s.boolean() ? OpT<S>(c * t) : OpT<S>(t * c); }
      else { for (int k = 0; k < len; ++k) { bool d = s.boolean(); int p = int(s.raw(n - 1)); w.emplace_back(d, p); t *= elem<S>(m[p], d); } }
      Mat mt = word_matrix(n, w, z); VP_REQUIRE(dist(matrix(t, m), mt) < 1e-10, "a product of canonical operators");
      if (s.boolean()) { A[i] += t; M[i] = M[i] + mt; } else { A[i] -= t; M[i] = M[i] + dc(-1) * mt; } if (len > 1) ++nt;
    } else if (op == 3) { A[i] += A[j]; M[i] = M[i] + M[j]; }
    else if (op == 4) { A[i] -= A[j]; M[i] = M[i] + dc(-1) * M[j]; }
    else if (op == 5) { if (!small) continue; A[i] *= A[j]; M[i] = M[i] * M[j]; ++nt; }
    else if (op == 6) { if (!small) continue; auto r = A[i] * A[j] - A[j] * A[i]; Mat q = M[i] * M[j] + dc(-1) * (M[j] * M[i]); A[j] = r; M[j] = q; ++nt; }
    else if (op == 7) { A[j] = A[i] + A[j]; M[j] = M[i] + M[j]; }
    else if (op == 8) { A[j] = A[i] - A[j]; M[j] = M[i] + dc(-1) * M[j]; }
    else if (op == 9) { A[i] = s.boolean() ? OpT<S>(A[i] + c) : OpT<S>(c + A[i]); M[i] = M[i] + z * I; }
    else if (op == 10) { if (s.boolean()) { A[i] = A[i] - c; M[i] = M[i] + (-z) * I; } else { A[i] = c - A[i]; M[i] = z * I + dc(-1) * M[i]; } }
    else if (op == 11) { int q = int(s.raw(2)); if (q == 0) A[i] = A[i] * c; else if (q == 1) A[i] = c * A[i]; else A[i] *= c; M[i] = z * M[i]; }
    else if (op == 12) { if (std::abs(z) < .1) continue; if (s.boolean()) A[i] = A[i] / c; else A[i] /= c; M[i] = (1. / z) * M[i]; }
    else if (op == 13) { A[j] = -A[i]; M[j] = dc(-1) * M[i]; }
    else if (op == 14) { auto old = A[i]; A[j] = dagger(A[i]); M[j] = M[i].dag(); VP_REQUIRE(dagger(A[j]) == old, "dagger twice"); }
    else if (op == 15) { bool im = s.boolean(); Mat r = re_im(A[i], M[i], im); OpT<S> x = im ? imag(A[i]) : real(A[i]); VP_REQUIRE(dist(matrix(x, m), r) < 1e-8 * (1 + r.norm()), im ? "imaginary" : "real", " part"); }
    else { // queries
      bool eq = dist(M[i], M[j]) < 1e-9; VP_REQUIRE((A[i] == A[j]) == eq, "A==B is ", A[i] == A[j]); VP_REQUIRE((A[i] - A[j]).is_almost_zero() == eq, "is_almost_zero of a difference");
      bool h = dist(M[i], M[i].dag()) < 1e-9; VP_REQUIRE(is_op_hermitian(A[i], 1e-9) == h, "is_op_hermitian"); VP_REQUIRE(is_op_hermitian(A[i] + dagger(A[i])), "A + dagger(A) is not hermitian");
      VP_REQUIRE(vp::throws([&] { assert_operators_are_close(A[i], A[j], 1e-9); }) == !eq, "assert_operators_are_close");
      long len = s.integer(0, 5); auto F = utils::filter_op(A[i], len); auto T = transform(A[i], [&](monomial_t const &mm, S cc) { return long(mm.size()) == len ? cc : S(0); }); VP_REQUIRE(F == T, "filter_op");
      for (auto const &t : F) VP_REQUIRE(long(t.monomial.size()) == len, "filter_op keeps another length"); for (auto const &t : A[i] - F) VP_REQUIRE(long(t.monomial.size()) != len, "filter_op forgets a term");
      if constexpr (!std::is_same_v<S, real_or_complex>) { OpT<real_or_complex> R = A[i]; VP_REQUIRE(dist(matrix(R, m), M[i]) < 1e-8 * (1 + M[i].norm()), "conversion of the coefficients"); OpT<S> B(R); VP_REQUIRE(B == A[i], "conversion there and back"); OpT<real_or_complex> X = A[j]; X = A[i]; VP_REQUIRE(X == R, "assignment of an operator with other coefficients"); OpT<S> Y = A[j]; Y = R; VP_REQUIRE(Y == A[i], "assignment from an operator with other coefficients"); }
      if constexpr (std::is_same_v<S, double>) { OpT<dc> R = A[j]; R = A[i]; VP_REQUIRE(dist(matrix(R, m), M[i]) < 1e-8 * (1 + M[i].norm()), "conversion of the coefficients"); }
      auto fo = A[i].make_fundamental_operator_set(); std::set<indices_t> used; for (auto const &t : A[i]) for (auto const &cc : t.monomial) used.insert(cc.indices); auto const &fd = fo.data(); VP_REQUIRE(std::set<indices_t>(fd.begin(), fd.end()) == used && fd.size() == used.size(), "make_fundamental_operator_set");
    }
    if (M[i].norm() > 1e6 || M[j].norm() > 1e6) { A[i] = OpT<S>{}; M[i] = Mat(1 << n); A[j] = OpT<S>{}; M[j] = M[i]; }
    for (int k : {i, j}) VP_REQUIRE(dist(matrix(A[k], m), M[k]) < 1e-9 * (1 + M[k].norm()), "step ", op, ": not the operator computed in Fock space");
  }
  s.nontrivial(n > 1 && nt >= 2);
}
VP_TEST(algebra_real) { algebra<double>(s); }
VP_TEST(algebra_complex) { algebra<dc>(s); }
VP_TEST(algebra_any) { algebra<real_or_complex>(s); }

VP_TEST(canonical) { // anticommutators, order of canonical operators, printing
  int n = int(s.integer(1, 5)); auto m = modes(s, n); auto z = [&](long v) { return many_body_operator(double(v)); };
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto ci = elem<real_or_complex>(m[i], false), cdj = elem<real_or_complex>(m[j], true), cj = elem<real_or_complex>(m[j], false), cdi = elem<real_or_complex>(m[i], true);
    VP_REQUIRE(ci * cdj + cdj * ci == z(i == j), "{c,c+}"); VP_REQUIRE((ci * cj + cj * ci).is_zero() && (cdi * cdj + cdj * cdi).is_zero(), "{c,c}"); VP_REQUIRE(dagger(ci * cdj) == cj * cdi, "dagger of a product");
    canonical_ops_t a{s.boolean(), m[i]}, b{s.boolean(), m[j]}; bool less = a.dagger != b.dagger ? a.dagger : (a.dagger ? a.indices < b.indices : b.indices < a.indices);
    VP_REQUIRE((a < b) == less && (a == b) == (a.dagger == b.dagger && i == j) && (a > b) == (b < a), "order of canonical operators");
  }
  auto text = [](indices_t const &i) { std::ostringstream o; int k = 0; for (auto &x : i) { if (k++) o << ","; if (x.index() == 0) o << std::get<long>(x); else o << "'" << std::get<std::string>(x) << "'"; } return o.str(); };
  int p = int(s.raw(n - 1)); bool d = s.boolean(); std::ostringstream o; o << canonical_ops_t{d, m[p]}; VP_REQUIRE(o.str() == std::string("c") + (d ? "_dag" : "") + "(" + text(m[p]) + ")", "printed as ", o.str());
  std::ostringstream q; q << many_body_operator{}; VP_REQUIRE(q.str() == "0", "zero printed as ", q.str());
  many_body_operator A; std::map<std::string, double> want; // sum of density terms: printed as the sum of its terms
  for (int i = 0; i < n; ++i) { double c = s.integer(-4, 4) / 2.; if (c == 0) continue; A += c * elem<real_or_complex>(m[i], true) * elem<real_or_complex>(m[i], false); std::ostringstream w; w << c << "*c_dag(" << text(m[i]) << ")*c(" << text(m[i]) << ")"; want[w.str()] = c; }
  std::ostringstream pr; pr << A; std::string t = pr.str(); size_t total = want.empty() ? 1 : 3 * (want.size() - 1); for (auto &[w, c] : want) { VP_REQUIRE(t.find(w) != std::string::npos, "term ", w, " missing in ", t); total += w.size(); } VP_REQUIRE(t.size() == total, "printed as ", t);
  s.say("n=", n); s.nontrivial(n > 1);
}

template <typename S> void extract(vp::Src &s) {
  using namespace utils; int n = int(s.integer(1, 5)); auto m = modes(s, n); fundamental_operator_set fs; auto perm = m; s.shuffle(perm); for (auto &i : perm) fs.insert_from_indices_t(i); if (s.chance(1, 3)) fs.insert_from_indices_t(perm[0]);
  VP_REQUIRE(fs.size() == n, "size of the set"); { int k = 0; for (auto it = fs.begin(); it != fs.end(); ++it, ++k) VP_REQUIRE((*it).linear_index == k && (*it).index == perm[k] && fs[perm[k]] == k && fs.has_indices(perm[k]), "iteration over the set"); VP_REQUIRE(k == n, "iteration over the set"); }
  indices_t other{std::string("not there")}; VP_REQUIRE(!fs.has_indices(other) && vp::throws([&] { (void)fs[other]; }), "an unknown index is found");
  auto C = [&](int i) { return elem<S>(m[i], false); }; auto D = [&](int i) { return elem<S>(m[i], true); };
  OpT<S> quad, quart, dens, rest; std::map<std::pair<int, int>, dc> h; std::map<std::array<int, 4>, dc> U; std::map<std::pair<int, int>, dc> U2;
  int K = int(s.integer(0, 6));
  for (int k = 0; k < K; ++k) { int i = int(s.raw(n - 1)), j = int(s.raw(n - 1)); S c = coef<S>(s); quad += c * D(i) * C(j); h[{i, j}] += tc(c); }
  if (n > 1) for (int k = int(s.integer(0, 5)); k > 0; --k) { int i = int(s.raw(n - 1)), j = int(s.raw(n - 1)); if (i == j) continue; S c = coef<S>(s); dens += c * D(i) * C(i) * D(j) * C(j); U2[{i, j}] += tc(c); U2[{j, i}] += tc(c); }
  if (n > 1) for (int k = int(s.integer(0, 5)); k > 0; --k) { int i = int(s.raw(n - 1)), j = int(s.raw(n - 1)), kk = int(s.raw(n - 1)), l = int(s.raw(n - 1)); S c = coef<S>(s); quart += c * D(i) * D(j) * C(l) * C(kk); if (i == j || kk == l) continue; U[{i, j, kk, l}] += .5 * tc(c); U[{j, i, l, kk}] += .5 * tc(c); U[{j, i, kk, l}] -= .5 * tc(c); U[{i, j, l, kk}] -= .5 * tc(c); }
  for (int k = int(s.integer(0, 2)); k > 0; --k) { int q = int(s.raw(3)); int i = int(s.raw(n - 1)), j = int(s.raw(n - 1)); if (q == 0) rest += OpT<S>(S(1)); else if (q == 1) rest += C(i); else if (q == 2 && i != j) rest += C(i) * C(j); else if (n > 1) rest += D(i) * D(j) * D((i + 1) % n) * C(j); }
  for (auto it = h.begin(); it != h.end();) it = std::abs(it->second) < 1e-12 ? h.erase(it) : std::next(it);
  for (auto it = U.begin(); it != U.end();) it = std::abs(it->second) < 1e-12 ? U.erase(it) : std::next(it);
  for (auto it = U2.begin(); it != U2.end();) it = std::abs(it->second) < 1e-12 ? U2.erase(it) : std::next(it);
  auto pos = [&](indices_t const &i) { return int(std::find(m.begin(), m.end(), i) - m.begin()); }; auto fp = [&](int i) { return fs[m[i]]; };
  bool only = (quart + dens + rest).is_zero(), only4 = (quad + rest + dens).is_zero(), only2 = (quad + quart + rest).is_zero();
  { auto all = quad + quart + dens + rest; auto w = all - (quart + dens + rest); (void)w; bool anom = false; for (auto const &t : rest) if (t.monomial.size() == 2 || t.monomial.size() == 4) anom = true;
    // relevant terms extracted when the others are ignored, refused otherwise
    VP_REQUIRE(vp::throws([&] { extract_h_dict(all); }) == !(all - quad).is_zero(), "extract_h_dict on other terms: thrown=", !(all - quad).is_zero());
    auto d = extract_h_dict(only ? quad : all, !only); VP_REQUIRE(d.size() == h.size(), "extract_h_dict: ", d.size(), " elements, want ", h.size());
    for (auto &[k, v] : d) { auto it = h.find({pos(std::get<0>(k)), pos(std::get<1>(k))}); VP_REQUIRE(it != h.end() && std::abs(it->second - tc(v)) < 1e-12, "extract_h_dict element"); }
    auto mt = dict_to_matrix<dc>(d, fs); VP_REQUIRE(mt.extent(0) == n && mt.extent(1) == n, "dict_to_matrix shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) VP_REQUIRE(std::abs(mt(fp(i), fp(j)) - (h.count({i, j}) ? h[{i, j}] : 0.)) < 1e-12, "dict_to_matrix element");
    if (!d.empty()) { fundamental_operator_set miss; for (auto &i : m) if (i != std::get<1>(d.begin()->first)) miss.insert_from_indices_t(i); VP_REQUIRE(vp::throws([&] { dict_to_matrix<dc>(d, miss); }), "dict_to_matrix with a missing index"); }
    if constexpr (std::is_same_v<S, real_or_complex>) { auto v = dict_to_variant_matrix(d, fs); bool cplx = false; for (auto &[k, x] : d) cplx |= !x.is_real(); VP_REQUIRE((v.index() == 1) == cplx, "dict_to_variant_matrix picks ", v.index()); std::visit([&](auto const &a) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) VP_REQUIRE(std::abs(dc(a(i, j)) - mt(i, j)) < 1e-12, "dict_to_variant_matrix element"); }, v); }
    (void)anom;
  }
  { auto all = quad + quart + rest; VP_REQUIRE(vp::throws([&] { extract_U_dict4(all); }) == !(all - quart).is_zero(), "extract_U_dict4 on other terms"); auto d = extract_U_dict4(all, true);
    VP_REQUIRE(d.size() == U.size(), "extract_U_dict4: ", d.size(), " elements, want ", U.size()); for (auto &[k, v] : d) { auto it = U.find({pos(std::get<0>(k)), pos(std::get<1>(k)), pos(std::get<2>(k)), pos(std::get<3>(k))}); VP_REQUIRE(it != U.end() && std::abs(it->second - tc(v)) < 1e-12, "extract_U_dict4 element"); }
    auto mt = dict_to_matrix<dc>(d, fs); for (auto &[k, v] : U) VP_REQUIRE(std::abs(mt(fp(k[0]), fp(k[1]), fp(k[2]), fp(k[3])) - v) < 1e-12, "dict_to_matrix element (rank 4)"); double sum = 0, w = 0; nda::for_each(mt.shape(), [&](auto... i) { sum += std::norm(mt(i...)); }); for (auto &[k, v] : U) w += std::norm(v); VP_REQUIRE(std::abs(sum - w) < 1e-9 * (1 + w), "dict_to_matrix has extra elements");
    OpT<S> back; for (auto &[k, v] : d) back += S(.5) * v * elem<S>(std::get<0>(k), true) * elem<S>(std::get<1>(k), true) * elem<S>(std::get<3>(k), false) * elem<S>(std::get<2>(k), false); VP_REQUIRE((back - quart).is_almost_zero(1e-12), "1/2 sum U c+ c+ c c is not the operator");
  }
  { OpT<S> d4; OpT<S> q2; // density-density after removal of the quadratic part
    for (auto &[k, v] : U2) if (k.first < k.second) { S c; if constexpr (std::is_same_v<S, double>) c = v.real(); else c = S(v); d4 += c * D(k.first) * D(k.second) * C(k.second) * C(k.first); }
    auto all = d4 + quad + rest; VP_REQUIRE(vp::throws([&] { extract_U_dict2(all); }) == !(all - d4).is_zero(), "extract_U_dict2 on other terms"); auto d = extract_U_dict2(all, true);
    VP_REQUIRE(d.size() == U2.size(), "extract_U_dict2: ", d.size(), " want ", U2.size()); for (auto &[k, v] : d) { auto it = U2.find({pos(std::get<0>(k)), pos(std::get<1>(k))}); VP_REQUIRE(it != U2.end() && std::abs(it->second - tc(v)) < 1e-12, "extract_U_dict2 element"); }
    VP_REQUIRE(quadratic_terms(quad + d4) == quad && quartic_terms(quad + d4) == d4, "quadratic_terms, quartic_terms"); (void)only4; (void)only2; (void)q2;
  }
  s.say("n=", n, " h=", h.size(), " U=", U.size(), " U2=", U2.size()); s.nontrivial(n > 1 && h.size() + U.size() + U2.size() > 2);
}
VP_TEST(extract_any) { extract<real_or_complex>(s); }
VP_TEST(extract_real) { extract<double>(s); }
VP_TEST(extract_complex) { extract<dc>(s); }

VP_TEST(blocks) { // block matrices <-> quadratic operators
  using namespace utils; using S = real_or_complex; triqs::hilbert_space::gf_struct_t gs; int nb = int(s.integer(1, 3)); std::vector<std::string> names{"up", "dn", "x", ""}; s.shuffle(names);
  for (int b = 0; b < nb; ++b) gs.emplace_back(names[b], s.integer(1, 3)); many_body_operator q, other; std::vector<std::map<std::pair<int, int>, dc>> w(nb);
  fundamental_operator_set fs(gs); { int k = 0; for (int b = 0; b < nb; ++b) for (long i = 0; i < gs[b].second; ++i) VP_REQUIRE(fs[indices_t({gs[b].first, i})] == k++, "operator set of a block structure"); VP_REQUIRE(fs.size() == k, "operator set of a block structure"); }
  auto C = [&](int b, long i) { return elem<S>({gs[b].first, i}, false); }; auto D = [&](int b, long i) { return elem<S>({gs[b].first, i}, true); };
  for (int k = int(s.integer(0, 6)); k > 0; --k) { int b = int(s.raw(nb - 1)); long i = s.raw(gs[b].second - 1), j = s.raw(gs[b].second - 1); S c = coef<S>(s); q += c * D(b, i) * C(b, j); w[b][{int(i), int(j)}] += tc(c); }
  for (int k = int(s.integer(0, 2)); k > 0; --k) { int b = int(s.raw(nb - 1)), b2 = int(s.raw(nb - 1)); long i = s.raw(gs[b].second - 1), j = s.raw(gs[b2].second - 1); int t = int(s.raw(5)); s.say("other ", t);
    if (t == 0) other += S(3.); else if (t == 1 && (b != b2 || i != j)) other += D(b, i) * C(b, i) * D(b2, j) * C(b2, j); else if (t == 2) { if (b != b2) other += D(b, i) * C(b2, j); } else if (t == 3) other += C(b, i) * C(b2, j); else if (t == 4) other += elem<S>({std::string("zz"), 0L, 1L}, true) * C(b, i); else other += D(b, i); }
  { auto quartic_only = other; for (auto const &t : quartic_terms(other)) (void)t; }
  auto all = q + other; bool irr = false; // which terms of `all` are not of the form c+{bl,i} c{bl,j}
  for (auto const &t : all) { auto &mm = t.monomial; bool ok = mm.size() == 2 && mm[0].dagger && !mm[1].dagger && mm[0].indices.size() == 2 && mm[1].indices.size() == 2 && mm[0].indices[0] == mm[1].indices[0]; if (!ok) irr = true; else if (q.get_monomials().count(mm) == 0 || !(q.get_monomials().at(mm) == t.coef)) throw vp::Discard{}; }
  VP_REQUIRE(vp::throws([&] { block_matrix_from_op(all, gs); }) == irr, "block_matrix_from_op: other terms present=", irr);
  auto bm = block_matrix_from_op(all, gs, true); VP_REQUIRE(bm.size() == nb, "number of blocks");
  for (int b = 0; b < nb; ++b) { int d = int(gs[b].second); VP_REQUIRE(bm[b].extent(0) == d && bm[b].extent(1) == d, "size of block ", b); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) VP_REQUIRE(std::abs(tc(S(bm[b](i, j))) - w[b][{i, j}]) < 1e-12, "block ", b, " element ", i, ",", j); }
  VP_REQUIRE(op_from_block_matrix(bm, gs) == q, "op_from_block_matrix"); 
  { auto bad = q + 1.0 * elem<S>({std::string("absent"), 0L}, true) * elem<S>({std::string("absent"), 0L}, false); VP_REQUIRE(vp::throws([&] { block_matrix_from_op(bad, gs); }), "a block absent from the structure is accepted"); }
  { long i = gs[0].second; auto bad = q + 1.0 * elem<S>({gs[0].first, i}, true) * elem<S>({gs[0].first, 0L}, false); VP_REQUIRE(vp::throws([&] { block_matrix_from_op(bad, gs); }), "an index beyond its block is accepted"); }
  s.nontrivial(!q.is_zero() && !other.is_zero());
}
template <typename S> void files(vp::Src &s) {
  int n = int(s.integer(1, 5)); auto m = modes(s, n); OpT<S> A, B; bool big = false;
  for (auto *o : {&A, &B}) for (int k = int(s.integer(0, 8)); k > 0; --k) { OpT<S> t(coef<S>(s)); int len = int(s.integer(0, 4)); if (s.chance(1, 20)) len = 6; for (int l = 0; l < len; ++l) t *= elem<S>(m[s.raw(n - 1)], s.boolean()); *o += t; }
  if (s.chance(1, 20)) { long N = s.integer(100, 400); s.say("many modes ", N); for (long i = 0; i < N; ++i) { m.push_back({std::string("many"), i}); auto e = coef<S>(s) * elem<S>(m.back(), true) * elem<S>(m.back(), false); A += e; } }
  for (auto const &t : A) big |= t.monomial.size() > 4;
  auto fn = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/o" + std::to_string(getpid()) + ".h5"; struct G { std::string f; ~G() { unlink(f.c_str()); } } g{fn};
  { h5::file f(fn, 'w'); bool t = vp::throws([&] { h5_write(f, "A", A); }); VP_REQUIRE(t == big, "writing an operator with terms of more than four operators: thrown=", t); if (t) return; }
  { h5::file f(fn, 'r'); OpT<S> C = B; h5_read(f, "A", C); VP_REQUIRE(C == A && C.get_monomials().size() == A.get_monomials().size(), "read into an operator in use: ", C, " want ", A);
    if constexpr (std::is_same_v<S, real_or_complex>) { OpT<S> E = B; fundamental_operator_set fo; fo.insert(77); h5_read(f, "A", E, fo); VP_REQUIRE(E == A, "read with its operator set: ", E, " want ", A); VP_REQUIRE(fo == A.make_fundamental_operator_set(), "operator set read");
      for (auto const &t : E) { auto it = A.get_monomials().find(t.monomial); VP_REQUIRE(it != A.get_monomials().end() && it->second.is_real() == t.coef.is_real(), "real or complex nature of a coefficient"); } } }
  if constexpr (std::is_same_v<S, real_or_complex>) if (!big) { fundamental_operator_set fs; s.shuffle(m); for (auto &i : m) fs.insert_from_indices_t(i); auto fn2 = fn + "2"; G g2{fn2}; { h5::file f(fn2, 'w'); h5_write(f, "A", A, fs); } { h5::file f(fn2, 'r'); OpT<S> E; fundamental_operator_set fo; h5_read(f, "A", E, fo); VP_REQUIRE(E == A && fo == fs, "with a chosen operator set"); } }
  s.say("n=", n, " terms=", A.get_monomials().size()); s.nontrivial(A.get_monomials().size() > 1);
}
VP_TEST(files_any) { files<real_or_complex>(s); }
VP_TEST(files_real) { files<double>(s); }
VP_TEST(files_complex) { files<dc>(s); }
