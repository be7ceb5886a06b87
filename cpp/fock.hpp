// independent Fock-space arithmetic used as an oracle
#pragma once
#include "vp.hpp"
using dc = std::complex<double>;
// |state> = C+_a C+_b ... |0> with a<b<... ; acting with one operator on mode p: sign = parity of occupied modes below p
struct FockVec { std::map<uint64_t, dc> v; };
inline FockVec act1(FockVec const &s, bool dag, int p) {
  FockVec r;
  for (auto &[f, a] : s.v) {
    bool occ = (f >> p) & 1; if (occ == dag) continue;
    int below = 0; for (int k = 0; k < p; ++k) below += (f >> k) & 1;
    r.v[f ^ (uint64_t(1) << p)] += (below % 2 ? -a : a);
  }
  return r;
}
using Word = std::vector<std::pair<bool, int>>; // left to right
inline FockVec act(Word const &w, dc c, FockVec s) { for (auto it = w.rbegin(); it != w.rend(); ++it) s = act1(s, it->first, it->second); for (auto &[f, a] : s.v) a *= c; return s; }
struct Mat { // dense matrix on n modes
  int d; std::vector<dc> a; Mat(int d_ = 1) : d(d_), a(size_t(d_) * d_) {}
  dc &operator()(int i, int j) { return a[size_t(i) * d + j]; } dc operator()(int i, int j) const { return a[size_t(i) * d + j]; }
  friend Mat operator*(Mat const &x, Mat const &y) { Mat r(x.d); for (int i = 0; i < x.d; ++i) for (int k = 0; k < x.d; ++k) if (x(i, k) != 0.) for (int j = 0; j < x.d; ++j) r(i, j) += x(i, k) * y(k, j); return r; }
  friend Mat operator+(Mat x, Mat const &y) { for (size_t i = 0; i < x.a.size(); ++i) x.a[i] += y.a[i]; return x; }
  friend Mat operator*(dc c, Mat x) { for (auto &e : x.a) e *= c; return x; }
  Mat dag() const { Mat r(d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) r(i, j) = std::conj((*this)(j, i)); return r; }
  static Mat id(int d) { Mat r(d); for (int i = 0; i < d; ++i) r(i, i) = 1; return r; }
  double norm() const { double m = 0; for (auto &e : a) m = std::max(m, std::abs(e)); return m; }
};
inline double dist(Mat const &x, Mat const &y) { return (x + dc(-1) * y).norm(); }
inline Mat word_matrix(int n, Word const &w, dc c = 1) {
  Mat r(1 << n);
  for (int j = 0; j < r.d; ++j) for (auto &[f, a] : act(w, c, FockVec{{{uint64_t(j), 1.}}}).v) r(int(f), j) += a;
  return r;
}
