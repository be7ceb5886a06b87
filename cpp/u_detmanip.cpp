// det_manip against a plain list of arguments and the matrix of their values
#include "vp.hpp"
#include <triqs/det_manip/det_manip.hpp>
#include <optional>
using dc = std::complex<double>; using ld = long double; using lc = std::complex<long double>;
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ull; vp::splitmix(x); return vp::splitmix(x); }
template <typename T> struct Fun { // kind 0: generic numbers; 1: small integers (singular matrices are common); 2: smooth kernel plus generic part
  int kind = 0; uint64_t salt = 0;
  T operator()(long x, double y) const {
    uint64_t h = mix(mix(uint64_t(x) + 77, uint64_t(long(y * 4)) + 12345), salt); double u = double(h % 20011) / 10005.5 - 1, v = double((h >> 20) % 20011) / 10005.5 - 1;
    if (kind == 1) { u = double(long(h % 4) - 1); v = double(long((h >> 20) % 3) - 1); }
    if (kind == 2) u = u / 2 + std::cos(x * 0.7 - y);
    if constexpr (std::is_same_v<T, double>) return u; else return T{u, v};
  }
};
template <typename T> struct Ref { // reference linear algebra in long double, Gauss-Jordan with full pivoting
  using L = std::conditional_t<std::is_same_v<T, double>, ld, lc>;
  static L det(std::vector<std::vector<T>> const &m, std::vector<std::vector<L>> *inv = nullptr) {
    size_t n = m.size(); std::vector<std::vector<L>> a(n, std::vector<L>(2 * n)); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) a[i][j] = L(m[i][j]); a[i][n + i] = L(1); }
    L d = 1;
    for (size_t c = 0; c < n; ++c) {
      size_t p = c; for (size_t i = c; i < n; ++i) if (std::abs(a[i][c]) > std::abs(a[p][c])) p = i;
      if (p != c) { std::swap(a[p], a[c]); d = -d; }
      d *= a[c][c]; if (std::abs(a[c][c]) < 1e-17L) return 0;
      for (size_t i = 0; i < n; ++i) if (i != c) { L r = a[i][c] / a[c][c]; for (size_t j = c; j < 2 * n; ++j) a[i][j] -= r * a[c][j]; }
    }
    if (inv) { inv->assign(n, std::vector<L>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) (*inv)[i][j] = a[i][n + j] / a[i][i]; }
    return d;
  }
};
template <typename T> struct Model {
  std::vector<long> x; std::vector<double> y;
  std::vector<std::vector<T>> mat(Fun<T> const &f) const { std::vector<std::vector<T>> m(x.size(), std::vector<T>(x.size())); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) m[i][j] = f(x[i], y[j]); return m; }
};
template <typename T> double cond(Fun<T> const &f, Model<T> const &m, T *det = nullptr) {
  std::vector<std::vector<typename Ref<T>::L>> inv; auto M = m.mat(f); auto d = Ref<T>::det(M, &inv); if (det) *det = T(d);
  if (m.x.empty()) return 1; if (inv.empty()) return 1e300; double a = 0, b = 0;
  for (auto &r : M) { double t = 0; for (auto &e : r) t += std::abs(e); a = std::max(a, t); } for (auto &r : inv) { double t = 0; for (auto &e : r) t += double(std::abs(e)); b = std::max(b, t); }
  return a * b;
}
constexpr double CMAX = 1e3;
template <typename T> struct Obj { Fun<T> f; triqs::det_manip::det_manip<Fun<T>> d; Model<T> m; double thr = -1; double pe = 1e-5; uint64_t nb = 100; };
template <typename T> void same(Obj<T> &o, char const *when) {
  auto &d = o.d; auto &m = o.m; long n = long(m.x.size());
  VP_REQUIRE(d.size() == n, when, ": size ", d.size(), " want ", n);
  VP_REQUIRE(d.get_x() == m.x, when, ": x ", d.get_x(), " want ", m.x); VP_REQUIRE(d.get_y() == m.y, when, ": y ", d.get_y(), " want ", m.y);
  std::vector<std::vector<typename Ref<T>::L>> inv; auto M = m.mat(o.f); T want = T(Ref<T>::det(M, &inv)); double big = 0; for (auto &r : inv) for (auto &e : r) big = std::max(big, double(std::abs(e)));
  T got = d.determinant(); VP_REQUIRE(std::abs(got - want) <= 1e-5 * std::abs(want), when, ": determinant ", got, " want ", want);
  auto mm = d.matrix(), mi = d.inverse_matrix(); auto ii = d.inverse_matrix_internal_order();
  VP_REQUIRE(long(mm.extent(0)) == n && long(mi.extent(0)) == n && long(ii.extent(0)) == n, when, ": matrix sizes");
  auto const &xi = d.get_x_internal_order(); auto const &yi = d.get_y_internal_order(); VP_REQUIRE(long(xi.size()) == n && long(yi.size()) == n, when, ": internal sizes");
  std::vector<std::tuple<long, double, double>> a, b, c;
  for (long i = 0; i < n; ++i) {
    VP_REQUIRE(d.get_x(i) == m.x[i] && d.get_y(i) == m.y[i], when, ": get_x(", i, ")");
    for (long j = 0; j < n; ++j) {
      VP_REQUIRE(mm(i, j) == M[i][j], when, ": matrix(", i, ",", j, ")");
      T w = T(inv[i][j]); VP_REQUIRE(std::abs(mi(i, j) - w) <= 1e-5 * big, when, ": inverse_matrix(", i, ",", j, ")=", mi(i, j), " want ", w);
      VP_REQUIRE(d.inverse_matrix(int(i), int(j)) == mi(i, j), when, ": inverse_matrix element");
      VP_REQUIRE(d.inverse_matrix_internal_order(int(i), int(j)) == ii(i, j), when, ": internal element");
      a.emplace_back(m.x[i], m.y[j], std::abs(mi(j, i))); b.emplace_back(xi[i], yi[j], std::abs(ii(j, i)));
    }
  }
  foreach (d, [&](long x, double y, T M) { c.emplace_back(x, y, std::abs(M)); });
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::sort(c.begin(), c.end());
  VP_REQUIRE(a == b, when, ": internal order is not a permutation of the inverse"); VP_REQUIRE(a == c, when, ": foreach visits other values");
}
template <typename T> void history(vp::Src &s) {
  using D = triqs::det_manip::det_manip<Fun<T>>;
  std::vector<std::unique_ptr<Obj<T>>> pool; int nobj = s.chance(1, 3) ? 2 : 1;
  auto xs = [&] { return long(s.integer(-6, 40)); }; auto ys = [&] { return s.integer(-6, 40) / 4.; };
  auto mk = [&](Fun<T> f) {
    Model<T> m; std::unique_ptr<Obj<T>> o; int how = int(s.raw(2));
    if (how == 0) { long r = s.integer(0, 6); s.say("reserve ", r); o.reset(new Obj<T>{f, D(f, r), m}); }
    else { int n = how == 1 ? int(s.integer(0, 5)) : int(s.integer(0, 12)); for (int i = 0; i < n; ++i) { m.x.push_back(xs()); m.y.push_back(ys()); } if (cond(f, m) > CMAX) m = {}; s.say("from ", m.x.size()); o.reset(new Obj<T>{f, D(f, m.x, m.y), m}); }
    if (s.chance(1, 3)) { o->nb = s.raw(4); o->d.set_n_operations_before_check(o->nb); s.say("check every ", o->nb); }
    if (s.chance(1, 4)) { o->thr = s.pick({1e-14, 1e-10, 1e-8}); o->d.set_singular_threshold(o->thr); }
    if (s.chance(1, 4)) { o->pe = s.pick({1e-4, 1e-3}); o->d.set_precision_error(o->pe); o->d.set_precision_warning(o->pe / 100); }
    return o;
  };
  for (int i = 0; i < nobj; ++i) pool.push_back(mk(Fun<T>{int(s.raw(2)), s.raw(3)}));
  for (auto &o : pool) same(*o, "construction");
  int steps = int(s.integer(1, 30)), done = 0, kinds = 0; unsigned seen = 0;
  for (int st = 0; st < steps; ++st) {
    auto &o = *pool[s.raw(pool.size() - 1)]; auto &d = o.d; auto &m = o.m; auto &f = o.f; long n = long(m.x.size()); int op = int(s.raw(19));
    T old = T(Ref<T>::det(m.mat(f)));
    auto distinct = [&](long k, long top) { std::vector<long> r; while (long(r.size()) < k) { long v = long(s.raw(top - 1)); if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); } return r; };
    // try, then verify the ratio, then accept if the new matrix is well conditioned
    auto decide = [&](char const *w, auto const &tryit, auto const &direct, Model<T> nm) {
      T nd; double c = cond(f, nm, &nd); T want = nd / old; bool okc = c < CMAX && std::abs(nd) > 1e-5; bool accept = okc && !s.chance(1, 5);
      auto check = [&](T r) { VP_REQUIRE(std::abs(r - want) <= 3e-6 * std::max(1., std::abs(want)), w, ": ratio ", r, " want ", want); };
      if (accept && s.chance(1, 4)) check(direct());
      else {
        check(tryit());
        if (s.chance(1, 6)) { // a second attempt before the first is settled is refused and does not disturb it
          int q = int(s.raw(9)); bool t = vp::throws([&] { if (q == 0) d.try_insert(0, 0, xs(), ys()); else if (q == 4) d.try_remove(0, 0); else if (q == 5) d.try_remove_k({0}, {0}); else if (q == 6) d.try_change_col(0, 1.); else if (q == 7) d.try_change_row(0, 1); else if (q == 8) d.try_change_col_row(0, 0, 1, 1.); else if (q == 9) d.try_insert_from_function(0, 0, [](long) { return T(1); }, [](double) { return T(1); }, T(1)); else if (q == 1) d.try_refill(std::vector<long>{}, std::vector<double>{}); else if (q == 2) d.try_insert2(0, 1, 0, 1, 1, 2, 1., 2.); else d.try_insert_k({0, 1}, {0, 1}, {1, 2}, {1., 2.}); });
          VP_REQUIRE(t, w, ": a second try before completion is accepted"); s.say("(second try)");
        }
        if (accept) d.complete_operation(); else d.reject_last_try();
      }
      s.say(w, accept ? " accept" : " reject");
      if (accept) { m = nm; ++done; if (!(seen >> op & 1)) { seen |= 1u << op; ++kinds; } }
      same(o, w);
    };
    auto ins = [&](std::vector<long> I, std::vector<long> J, std::vector<long> X, std::vector<double> Y) { // final positions
      Model<T> r; size_t k = I.size(), N = n + k; r.x.resize(N); r.y.resize(N); std::vector<char> tx(N), ty(N);
      for (size_t l = 0; l < k; ++l) { r.x[I[l]] = X[l]; tx[I[l]] = 1; r.y[J[l]] = Y[l]; ty[J[l]] = 1; }
      for (size_t i = 0, p = 0, q = 0; i < N; ++i) { if (!tx[i]) r.x[i] = m.x[p++]; if (!ty[i]) r.y[i] = m.y[q++]; } return r;
    };
    auto rem = [&](std::vector<long> I, std::vector<long> J) { Model<T> r; for (long i = 0; i < n; ++i) { if (std::find(I.begin(), I.end(), i) == I.end()) r.x.push_back(m.x[i]); if (std::find(J.begin(), J.end(), i) == J.end()) r.y.push_back(m.y[i]); } return r; };
    if (op == 0 || op == 1) {
      long i = s.integer(0, n), j = s.integer(0, n); if (op == 1 && s.boolean()) i = j = n; long x = xs(); double y = ys();
      decide("insert", [&] { return d.try_insert(i, j, x, y); }, [&] { return i == n && j == n ? d.insert_at_end(x, y) : d.insert(i, j, x, y); }, ins({i}, {j}, {x}, {y}));
    } else if (op == 2 || op == 3) {
      if (n > 14) continue; long k = op == 2 ? 2 : s.integer(1, 5); auto I = distinct(k, n + k), J = distinct(k, n + k); std::vector<long> X; std::vector<double> Y; for (long l = 0; l < k; ++l) { X.push_back(xs()); Y.push_back(ys()); }
      if (op == 2 && s.boolean()) { I = {n, n + 1}; J = I; }
      auto nm = ins(I, J, X, Y);
      if (op == 2) decide("insert2", [&] { return d.try_insert2(I[0], I[1], J[0], J[1], X[0], X[1], Y[0], Y[1]); }, [&] { return I[0] == n && J[0] == n && I[1] == n + 1 && J[1] == n + 1 ? d.insert2_at_end(X[0], X[1], Y[0], Y[1]) : d.insert2(I[0], I[1], J[0], J[1], X[0], X[1], Y[0], Y[1]); }, nm);
      else { s.say("k=", k); auto t = [&] { return d.try_insert_k(I, J, X, Y); }; decide("insert_k", t, [&] { auto r = t(); d.complete_operation(); return r; }, nm); }
    } else if (op == 4) {
      if (n == 0) continue; long i = s.raw(n - 1), j = s.raw(n - 1); if (s.chance(1, 3)) i = j = n - 1;
      decide("remove", [&] { return d.try_remove(i, j); }, [&] { return i == n - 1 && j == n - 1 ? d.remove_at_end() : d.remove(i, j); }, rem({i}, {j}));
    } else if (op == 5 || op == 6) {
      if (n == 0) continue; long k = op == 5 ? 2 : s.integer(1, std::min(n, 5l)); if (k > n) continue; auto I = distinct(k, n), J = distinct(k, n); if (op == 5 && s.chance(1, 3)) { I = {n - 1, n - 2}; J = I; }
      auto nm = rem(I, J);
      if (op == 5) decide("remove2", [&] { return d.try_remove2(I[0], I[1], J[0], J[1]); }, [&] { return I == J && I == std::vector<long>{n - 1, n - 2} ? d.remove2_at_end() : d.remove2(I[0], I[1], J[0], J[1]); }, nm);
      else { s.say("k=", k); auto t = [&] { return d.try_remove_k(I, J); }; decide("remove_k", t, [&] { auto r = t(); d.complete_operation(); return r; }, nm); }
    } else if (op == 7) {
      if (n == 0) continue; long j = s.raw(n - 1); double y = ys(); auto nm = m; nm.y[j] = y;
      decide("change_col", [&] { return d.try_change_col(j, y); }, [&] { return d.change_col(j, y); }, nm);
    } else if (op == 8) {
      if (n == 0) continue; long i = s.raw(n - 1); long x = xs(); auto nm = m; nm.x[i] = x;
      decide("change_row", [&] { return d.try_change_row(i, x); }, [&] { return d.change_row(i, x); }, nm);
    } else if (op == 9) {
      if (n == 0) continue; long i = s.raw(n - 1), j = s.raw(n - 1); long x = xs(); double y = ys(); auto nm = m; nm.x[i] = x; nm.y[j] = y;
      decide("change_col_row", [&] { return d.try_change_col_row(i, j, x, y); }, [&] { return d.change_one_row_and_one_col(i, j, x, y); }, nm);
    } else if (op == 10) {
      Model<T> nm; long k = s.integer(0, 14); for (long l = 0; l < k; ++l) { nm.x.push_back(xs()); nm.y.push_back(ys()); } s.say("k=", k);
      auto t = [&] { return d.try_refill(nm.x, nm.y); }; decide("refill", t, [&] { auto r = t(); d.complete_operation(); return r; }, nm);
    } else if (op == 11) {
      if (n == 0) continue; long i = s.raw(n - 1), j = s.raw(n - 1); if (s.boolean()) { d.swap_row(i, j); std::swap(m.x[i], m.x[j]); s.say("swap_row"); } else { d.swap_col(i, j); std::swap(m.y[i], m.y[j]); s.say("swap_col"); } same(o, "swap"); ++done;
    } else if (op == 12) {
      int k = int(s.raw(4)); auto dir = std::array{D::None, D::Up, D::Down, D::Left, D::Right}[k]; s.say("roll ", k, " n=", n); int r = d.roll_matrix(dir);
      if (n) { if (k == 1) std::rotate(m.x.begin(), m.x.begin() + 1, m.x.end()); if (k == 2) std::rotate(m.x.begin(), m.x.end() - 1, m.x.end()); if (k == 3) std::rotate(m.y.begin(), m.y.begin() + 1, m.y.end()); if (k == 4) std::rotate(m.y.begin(), m.y.end() - 1, m.y.end()); }
      VP_REQUIRE(r == (k && n % 2 == 0 && n ? -1 : 1), "roll_matrix of size ", n, " returns ", r); same(o, "roll"); ++done;
    } else if (op == 13) {
      int q = int(s.raw(3)); if (q == 0) { d.clear(); m = {}; s.say("clear"); } else if (q == 1) { d.regenerate(); s.say("regenerate"); } else if (q == 2) { long a = s.integer(0, 30), b = s.integer(1, 6); d.reserve(a, b); s.say("reserve ", a, ",", b); } else { d.complete_operation(); s.say("complete nothing"); } same(o, "clear/regenerate/reserve");
    } else if (op == 14) { // a ratio for an explicit new row and column
      long i = s.integer(0, n), j = s.integer(0, n), x = xs(); double y = ys(); T nd; cond(f, ins({i}, {j}, {x}, {y}), &nd); T want = nd / old;
      T r = d.try_insert_from_function(i, j, [&](long xx) { return f(xx, y); }, [&](double yy) { return f(x, yy); }, f(x, y)); d.reject_last_try();
      VP_REQUIRE(std::abs(r - want) <= 3e-6 * std::max(1., std::abs(want)), "insert_from_function: ratio ", r, " want ", want); same(o, "insert_from_function"); s.say("from_function");
    } else if (op == 15) { // copy, move, swap
      int q = int(s.raw(3)); s.say("copy/move ", q);
      if (q == 0) { auto c = std::make_unique<Obj<T>>(o); same(*c, "copy"); if (n && cond(f, rem({0}, {0})) < CMAX) { c->d.remove(0, 0); } same(o, "the original after changing a copy"); }
      else if (q == 1) { D tmp(std::move(d)); D fresh(o.f, 1); d.~D(); new (&d) D(std::move(tmp)); same(o, "move construction"); }
      else if (q == 2) { auto c = mk(o.f); c->d = std::move(d); std::swap(c->m, o.m); std::swap(c->thr, o.thr); std::swap(c->nb, o.nb); std::swap(c->pe, o.pe); o.d.~D(); new (&o.d) D(std::move(c->d)); std::swap(c->m, o.m); std::swap(c->thr, o.thr); std::swap(c->nb, o.nb); std::swap(c->pe, o.pe); same(o, "move assignment"); }
      else if (pool.size() > 1) { auto &a = *pool[0], &b = *pool[1]; swap(a.d, b.d); std::swap(a.f, b.f); std::swap(a.m, b.m); std::swap(a.thr, b.thr); std::swap(a.nb, b.nb); std::swap(a.pe, b.pe); same(a, "swap"); same(b, "swap"); }
    } else if (op == 16) { // through a file
      auto fn = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/d" + std::to_string(getpid()) + ".h5"; s.say("h5");
      D c(o.f, s.integer(0, 3)); double c_pe = c.get_precision_error();
      { h5::file fi(fn, 'w'); h5_write(fi, "d", d); } { h5::file fi(fn, 'r'); h5_read(fi, "d", c); } unlink(fn.c_str());
      (void)c_pe; o.pe = c.get_precision_error(); d.~D(); new (&d) D(c); same(o, "h5 round trip");
    } else { // refused requests leave everything as it was
      int q = int(s.raw(8)); long bad = s.boolean() ? -1 - long(s.raw(2)) : 0; auto hi = [&](long top) { return bad < 0 ? bad : top + long(s.raw(2)); }; s.say("refused ", q); bool t = false;
      if (q == 0) { long i = hi(n + 1), j = s.integer(0, n); if (s.boolean()) std::swap(i, j); t = vp::throws([&] { d.try_insert(i, j, 1, 1.); }); }
      else if (q == 1) { long i = hi(n), j = n ? s.raw(n - 1) : 0; if (s.boolean()) std::swap(i, j); t = vp::throws([&] { d.try_remove(i, j); }); }
      else if (q == 2) t = vp::throws([&] { d.try_change_col(hi(n), 1.); });
      else if (q == 3) t = vp::throws([&] { d.try_change_row(hi(n), 1); });
      else if (q == 4) { long i = hi(n), j = n ? s.raw(n - 1) : 0; if (s.boolean()) std::swap(i, j); t = vp::throws([&] { d.try_change_col_row(i, j, 1, 1.); }); }
      else if (q == 5) { long k = s.integer(1, 3); auto I = distinct(k, n + k), J = distinct(k, n + k); auto &V = s.boolean() ? I : J; if (k > 1 && s.boolean()) V[0] = V[1]; else V[s.raw(k - 1)] = hi(n + k); t = vp::throws([&] { d.try_insert_k(I, J, std::vector<long>(k, 1), std::vector<double>(k, 1.)); }); }
      else if (q == 6) { if (n == 0) continue; long k = s.integer(1, std::min(3l, n)); auto I = distinct(k, n), J = distinct(k, n); auto &V = s.boolean() ? I : J; if (k > 1 && s.boolean()) V[0] = V[1]; else V[s.raw(k - 1)] = hi(n); t = vp::throws([&] { d.try_remove_k(I, J); }); }
      else if (q == 7) t = vp::throws([&] { d.try_refill(std::vector<long>{1, 2}, std::vector<double>{1.}); });
      else { long k = n + 1; std::vector<long> I; for (long i = 0; i < k; ++i) I.push_back(i); t = vp::throws([&] { d.try_remove_k(I, I); }); }
      VP_REQUIRE(t, "an impossible request (", q, ", bad=", bad, ") of size ", n, " is accepted"); same(o, "refused request");
      if (n == 0 || n < 10) { long x = xs(); double y = ys(); T nd; cond(f, ins({n}, {n}, {x}, {y}), &nd); T r = d.try_insert(n, n, x, y); VP_REQUIRE(std::abs(r - nd / old) <= 3e-6 * std::max(1., std::abs(nd / old)), "ratio after a refused request"); d.reject_last_try(); same(o, "after a refused request"); }
    }
    VP_REQUIRE(o.d.get_singular_threshold() == o.thr && o.d.get_n_operations_before_check() == double(o.nb) && o.d.get_precision_error() == o.pe, "settings changed: threshold ", o.d.get_singular_threshold(), " want ", o.thr, ", precision ", o.d.get_precision_error(), " want ", o.pe);
  }
  for (auto &o : pool) { o->d.regenerate(); same(*o, "regenerate"); }
  s.nontrivial(done >= 4 && kinds >= 3);
}
VP_TEST(det_real) { history<double>(s); }
VP_TEST(det_complex) { history<dc>(s); }
