// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <mpi/mpi.hpp>
#include "./nda.hpp"
namespace nda {
  namespace detail {
    // the arrays of all the ranks, packed in C order
    template <typename A, typename F> void exchange_arrays(A const &a, mpi::communicator const &c, F f) {
      using R = array<get_value_t<A>, get_rank<A>>; R mine(a);
      c.exchange(&mine, [&](auto const &s) { std::vector<R const *> v; for (auto p : s) v.push_back(static_cast<R const *>(p)); f(v); });
    }
    template <typename T, typename X> void put(T &&t, X const &x) {
      if constexpr (is_regular_v<T>) t.resize(x.shape());
      auto v = make_array_view(t); v = x;
    }
  } // namespace detail
  // lazy results. A view is left unchanged on the ranks which receive nothing, a container becomes empty.
  template <typename Tag, typename T, int R> struct mpi_lazy {
    using value_type = T; static constexpr int rank = R;
    basic_array_view<T const, R, C_stride_layout, 'A'> rhs; mpi::communicator c; int root; bool all; MPI_Op op;
    bool receives() const { return all or c.rank() == root; }
    std::array<long, R> shape() const {
      auto sh = rhs.shape();
      if constexpr (std::is_same_v<Tag, mpi::tag::scatter>) {
        long n = sh[0]; mpi::broadcast(n, c, root); auto [a, b] = itertools::chunk_range(0, n, c.size(), c.rank()); sh[0] = b - a;
      } else if constexpr (std::is_same_v<Tag, mpi::tag::gather>) {
        long n = mpi::all_reduce(sh[0], c); sh[0] = n;
      }
      if (not std::is_same_v<Tag, mpi::tag::scatter> and not receives()) sh = {};
      return sh;
    }
    template <typename A> void invoke(A &&a) const {
      detail::exchange_arrays(rhs, c, [&](auto const &v) {
        if constexpr (std::is_same_v<Tag, mpi::tag::reduce>) {
          for (auto p : v) if (p->shape() != v[0]->shape()) throw std::runtime_error("mpi: reduction of arrays of different shapes");
          if (not receives()) return;
          array<T, R> r = *v[0]; for (size_t k = 1; k < v.size(); ++k) for (long i = 0; i < r.size(); ++i) r.data()[i] = mpi::combine<T>(r.data()[i], v[k]->data()[i], op);
          detail::put(a, r);
        } else if constexpr (std::is_same_v<Tag, mpi::tag::gather>) {
          if (not receives()) return;
          auto sh = v[0]->shape(); sh[0] = 0; for (auto p : v) sh[0] += p->extent(0);
          array<T, R> r(sh); long n = 0; for (auto p : v) { std::copy_n(p->data(), p->size(), r.data() + n); n += p->size(); }
          detail::put(a, r);
        } else {
          auto const &s = *v[root]; auto sh = s.shape(); auto [b, e] = itertools::chunk_range(0, sh[0], c.size(), c.rank()); long row = sh[0] ? s.size() / sh[0] : 0; sh[0] = e - b;
          array<T, R> r(sh); std::copy_n(s.data() + b * row, r.size(), r.data()); detail::put(a, r);
        }
      });
    }
  };
  template <MemoryArray A> auto mpi_reduce(A const &a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) { return mpi_lazy<mpi::tag::reduce, get_value_t<A>, get_rank<A>>{a, c, root, all, op}; }
  template <MemoryArray A> auto mpi_gather(A const &a, mpi::communicator c = {}, int root = 0, bool all = false) { return mpi_lazy<mpi::tag::gather, get_value_t<A>, get_rank<A>>{a, c, root, all, MPI_SUM}; }
  template <MemoryArray A> auto mpi_scatter(A const &a, mpi::communicator c = {}, int root = 0, bool all = false) { return mpi_lazy<mpi::tag::scatter, get_value_t<A>, get_rank<A>>{a, c, root, all, MPI_SUM}; }
  template <MemoryArray A> void mpi_reduce_in_place(A &&a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) { mpi_reduce(a, c, root, all, op).invoke(a); }
  template <MemoryArray A> void mpi_broadcast(A &&a, mpi::communicator c = {}, int root = 0) {
    detail::exchange_arrays(a, c, [&](auto const &v) { if (c.rank() != root) detail::put(a, *v[root]); });
  }
} // namespace nda
