// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <functional>
#include <unordered_map>
#include "./nda.hpp"
#include "./mpi.hpp"
namespace nda {
  struct operation {
    bool sgn = false, cc = false;
    template <typename T> T operator()(T const &x) const { T y = x; if (cc) y = nda::conj(y); return sgn ? T(-y) : y; }
    friend operation operator*(operation const &a, operation const &b) { return {a.sgn != b.sgn, a.cc != b.cc}; }
  };
  // classes of the elements of an array related by symmetries x -> (image, operation) ; images out of the array are ignored
  template <typename F, typename A> class sym_grp {
    public:
    static constexpr int rank = get_rank<A>; using sym_idx_t = long; using idx_t = std::array<long, rank>; using sym_class_t = std::vector<std::pair<sym_idx_t, operation>>;
    private:
    std::vector<sym_class_t> cl;
    public:
    sym_grp() = default;
    sym_grp(A const &x, std::vector<F> const &sym, long max_length = 0) {
      idx_map<rank> m{x.shape()}; std::vector<char> seen(x.size(), 0);
      auto valid = [&](idx_t const &i) { for (int d = 0; d < rank; ++d) if (i[d] < 0 or i[d] >= x.shape()[d]) return false; return true; };
      for (long n = 0; n < x.size(); ++n) {
        if (seen[n]) continue;
        seen[n] = 1; sym_class_t c{{n, operation{}}};
        std::function<void(idx_t const &, operation, long)> grow = [&](idx_t const &i, operation o, long len) {
          for (auto const &f : sym) {
            auto [j, o2] = f(i); operation t = o * o2;
            if (not valid(j)) { if (len < max_length) grow(j, t, len + 1); continue; }
            long k = m.offset(j); if (seen[k]) continue;
            seen[k] = 1; c.emplace_back(k, t); grow(j, t, 0);
          }
        };
        grow(m.to_idx(n), operation{}, 0); cl.push_back(std::move(c));
      }
      std::stable_sort(cl.begin(), cl.end(), [](auto const &a, auto const &b) { return a.size() > b.size(); });
    }
    std::vector<sym_class_t> const &get_sym_classes() const { return cl; }
    long num_classes() const { return cl.size(); }
    template <typename H> void init(A &x, H const &h, bool parallel = false) const {
      auto fill = [&](auto const &c) { idx_t i = idx_map<rank>{x.shape()}.to_idx(c[0].first); auto v = h(i); for (auto const &[k, o] : c) detail_at(x, k) = o(v); };
      if (not parallel) { for (auto const &c : cl) fill(c); return; }
      x = get_value_t<A>{}; mpi::communicator w; long i = 0; for (auto const &c : cl) if (i++ % w.size() == w.rank()) fill(c);
      mpi_reduce_in_place(x, w, 0, true);
    }
    std::pair<double, idx_t> symmetrize(A &x) const {
      double best = 0; idx_t bi{};
      for (auto const &c : cl) {
        get_value_t<A> r{}; for (auto const &[k, o] : c) r += o(detail_at(x, k)); r /= double(c.size());
        for (auto const &[k, o] : c) { auto v = o(r); double d = std::abs(detail_at(x, k) - v); if (d > best) { best = d; bi = idx_map<rank>{x.shape()}.to_idx(k); } detail_at(x, k) = v; }
      }
      return {best, bi};
    }
    std::vector<get_value_t<A>> get_representative_data(A const &x) const { std::vector<get_value_t<A>> v; for (auto const &c : cl) v.push_back(detail_at(x, c[0].first)); return v; }
    template <typename V> void init_from_representative_data(A &x, V const &v) const { long i = 0; for (auto const &c : cl) { for (auto const &[k, o] : c) detail_at(x, k) = o(v[i]); ++i; } }
    private:
    template <typename X> static decltype(auto) detail_at(X &&x, long k) { idx_map<rank> c{x.shape()}; return (x.data()[x.indexmap().offset(c.to_idx(k))]); }
  };
} // namespace nda
