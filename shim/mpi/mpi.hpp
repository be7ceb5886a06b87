// Stand-in for the message passing library: the ranks are threads of one process (see mpi::run_ranks), the default communicator of a thread
// is the group it was started in (a single rank outside run_ranks). Every collective copies its inputs before any rank sees a result.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <complex>
#include <condition_variable>
#include <cstdlib>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <itertools/itertools.hpp>

enum MPI_Op { MPI_SUM, MPI_PROD, MPI_MAX, MPI_MIN };
using MPI_Comm = void *;
#ifndef MPI_UNDEFINED
#define MPI_UNDEFINED (-32766)
#endif

namespace mpi {

  struct rank_failed : std::runtime_error { rank_failed() : std::runtime_error("another rank failed") {} };
  struct aborted : std::runtime_error { int code; aborted(int c) : std::runtime_error("abort called"), code(c) {} };

  struct group_state {
    int size;
    std::mutex m; std::condition_variable cv; long gen = 0; int waiting = 0; bool dead = false;
    std::vector<void const *> slots;
    std::shared_ptr<void> shared;
    explicit group_state(int n) : size(n), slots(n, nullptr) {}
    void barrier() {
      if (size == 1) return;
      std::unique_lock<std::mutex> l(m);
      if (dead) throw rank_failed{};
      long g = gen;
      if (++waiting == size) { waiting = 0; ++gen; cv.notify_all(); return; }
      cv.wait(l, [&] { return gen != g or dead; });
      if (gen == g) throw rank_failed{};
    }
    void kill() { std::lock_guard<std::mutex> l(m); dead = true; cv.notify_all(); }
  };

  struct ctx_t { std::shared_ptr<group_state> g = std::make_shared<group_state>(1); int rank = 0; };
  inline ctx_t &ctx() { thread_local ctx_t c; return c; }

  inline bool has_env = false;
  inline bool is_initialized() noexcept { return has_env; }
  inline long n_aborts = 0;

  class communicator {
    std::shared_ptr<group_state> g; int r = 0;
    public:
    communicator() : g(ctx().g), r(ctx().rank) {}
    communicator(std::shared_ptr<group_state> g_, int r_) : g(std::move(g_)), r(r_) {}
    int rank() const { return r; }
    int size() const { return g ? g->size : 0; }
    MPI_Comm get() const noexcept { return g.get(); }
    bool is_null() const noexcept { return not g; }
    void barrier(long = 0) const { if (g) g->barrier(); }
    [[noreturn]] void abort(int code) const { ++n_aborts; throw aborted{code}; }
    communicator duplicate() const { return split(0, r); }
    // f is called with the pointers published by all the ranks, while all of them are valid
    template <typename F> void exchange(void const *mine, F f) const {
      g->slots[r] = mine; g->barrier(); f(g->slots); g->barrier();
    }
    communicator split(int color, int key) const {
      struct info { int color, key, rank; } mine{color, key, r};
      std::map<int, std::vector<info>> by;
      exchange(&mine, [&](auto const &s) { for (auto p : s) { auto const &i = *static_cast<info const *>(p); if (i.color != MPI_UNDEFINED) by[i.color].push_back(i); } });
      using table = std::map<int, std::shared_ptr<group_state>>;
      if (r == 0) { auto t = std::make_shared<table>(); for (auto const &[c, v] : by) (*t)[c] = std::make_shared<group_state>(int(v.size())); g->shared = t; }
      g->barrier();
      auto t = std::static_pointer_cast<table>(g->shared);
      g->barrier();
      if (color == MPI_UNDEFINED) return communicator{nullptr, 0};
      auto v = by[color];
      std::stable_sort(v.begin(), v.end(), [](info const &a, info const &b) { return a.key < b.key; });
      int nr = 0; for (; v[nr].rank != r; ++nr) {}
      return communicator{(*t)[color], nr};
    }
    std::shared_ptr<group_state> const &state() const { return g; }
  };

  // Runs f(rank) on n threads, each being a rank of a communicator of n. The first exception is rethrown.
  template <typename F> void run_ranks(int n, F f) {
    auto g = std::make_shared<group_state>(n);
    std::vector<std::exception_ptr> ex(n); std::vector<std::thread> th;
    for (int r = 0; r < n; ++r)
      th.emplace_back([&, r] {
        ctx() = ctx_t{g, r};
        try { f(r); } catch (...) { ex[r] = std::current_exception(); g->kill(); }
      });
    for (auto &t : th) t.join();
    std::exception_ptr first;
    for (auto &e : ex) if (e) {
      bool follow = false; try { std::rethrow_exception(e); } catch (rank_failed const &) { follow = true; } catch (...) {}
      if (not follow) std::rethrow_exception(e);
      if (not first) first = e;
    }
    if (first) std::rethrow_exception(first);
  }

  struct environment { environment(int, char **) { has_env = true; } ~environment() { has_env = false; } };

  struct monitor {
    communicator c; std::shared_ptr<std::atomic<bool>> stop;
    explicit monitor(communicator c_) : c(c_) {
      if (c.rank() == 0) { stop = std::make_shared<std::atomic<bool>>(false); c.state()->shared = stop; }
      c.barrier(); stop = std::static_pointer_cast<std::atomic<bool>>(c.state()->shared); c.barrier();
    }
    void request_emergency_stop() { *stop = true; }
    bool emergency_occured() { return *stop; }
    void finalize_communications() { c.barrier(); }
  };

  // ------------------------------------------------------------------ types
  template <typename T> struct is_basic : std::bool_constant<std::is_arithmetic_v<T> or std::is_enum_v<T>> {};
  template <typename T> struct is_basic<std::complex<T>> : std::true_type {};
  template <typename T> inline constexpr bool is_basic_v = is_basic<T>::value;

  template <typename T> T combine(T const &a, T const &b, MPI_Op op) {
    if constexpr (std::is_arithmetic_v<T>) {
      if (op == MPI_MAX) return a < b ? b : a;
      if (op == MPI_MIN) return b < a ? b : a;
    }
    if (op == MPI_PROD) return T(a * b);
    if (op != MPI_SUM) throw std::runtime_error("mpi: operation not possible for this type");
    return T(a + b);
  }

  namespace tag { struct reduce {}; struct scatter {}; struct gather {}; }
  template <typename Tag, typename T> struct lazy { T rhs; communicator c; int root{}; bool all{}; MPI_Op op{}; };

  // basic types
  template <typename T> requires(is_basic_v<T>) void mpi_broadcast(T &x, communicator c = {}, int root = 0) {
    T mine = x;
    c.exchange(&mine, [&](auto const &s) { x = *static_cast<T const *>(s[root]); });
  }
  template <typename T> requires(is_basic_v<T>) T mpi_reduce(T const &x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    T mine = x, res{};
    c.exchange(&mine, [&](auto const &s) {
      if (not all and c.rank() != root) return;
      res = *static_cast<T const *>(s[0]);
      for (size_t i = 1; i < s.size(); ++i) res = combine<T>(res, *static_cast<T const *>(s[i]), op);
    });
    return res;
  }
  template <typename T> requires(is_basic_v<T>) void mpi_reduce_in_place(T &x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    T r = mpi_reduce(x, c, root, all, op); if (all or c.rank() == root) x = r;
  }
  template <typename T> requires(is_basic_v<T>) std::vector<T> mpi_gather(T const &x, communicator c = {}, int root = 0, bool all = false) {
    T mine = x; std::vector<T> res;
    c.exchange(&mine, [&](auto const &s) { if (all or c.rank() == root) for (auto p : s) res.push_back(*static_cast<T const *>(p)); });
    return res;
  }

  template <typename T> struct regular_of { using type = T; };
  template <typename T> requires(requires { typename T::regular_type; }) struct regular_of<T> { using type = typename T::regular_type; };

  // declared early : containers of containers
  template <typename T> void mpi_broadcast(std::vector<T> &v, communicator c = {}, int root = 0);
  template <typename A, typename B> void mpi_broadcast(std::pair<A, B> &p, communicator c = {}, int root = 0);
  template <typename T> auto mpi_reduce(std::vector<T> const &v, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM);
  inline void mpi_broadcast(std::string &s, communicator c = {}, int root = 0);

  // ------------------------------------------------------------------ interface
  template <typename T> void broadcast(T &x, communicator c = {}, int root = 0) { mpi_broadcast(x, c, root); }
  template <typename T> decltype(auto) reduce(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    return mpi_reduce(std::forward<T>(x), c, root, all, op);
  }
  template <typename T> decltype(auto) all_reduce(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { return reduce(std::forward<T>(x), c, 0, true, op); }
  template <typename T> void reduce_in_place(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    mpi_reduce_in_place(std::forward<T>(x), c, root, all, op);
  }
  template <typename T> void all_reduce_in_place(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { reduce_in_place(std::forward<T>(x), c, 0, true, op); }
  template <typename T> decltype(auto) gather(T &&x, communicator c = {}, int root = 0, bool all = false) { return mpi_gather(std::forward<T>(x), c, root, all); }
  template <typename T> decltype(auto) all_gather(T &&x, communicator c = {}) { return gather(std::forward<T>(x), c, 0, true); }
  template <typename T, typename... A> decltype(auto) scatter(T &&x, communicator c = {}, int root = 0, A... a) { return mpi_scatter(std::forward<T>(x), c, root, a...); }

  // ------------------------------------------------------------------ containers
  inline void mpi_broadcast(std::string &s, communicator c, int root) {
    std::string mine = s;
    c.exchange(&mine, [&](auto const &p) { s = *static_cast<std::string const *>(p[root]); });
  }
  template <typename T> void mpi_broadcast(std::vector<T> &v, communicator c, int root) {
    long n = v.size(); broadcast(n, c, root);
    if (c.rank() != root) v.resize(n);
    if constexpr (std::is_same_v<T, bool>) { for (long i = 0; i < n; ++i) { bool b = v[i]; broadcast(b, c, root); v[i] = b; } }
    else for (auto &x : v) broadcast(x, c, root);
  }
  template <typename A, typename B> void mpi_broadcast(std::pair<A, B> &p, communicator c, int root) { broadcast(p.first, c, root); broadcast(p.second, c, root); }
  template <typename T> auto mpi_reduce(std::vector<T> const &v, communicator c, int root, bool all, MPI_Op op) {
    using R = typename regular_of<T>::type;
    std::vector<R> res; res.reserve(v.size());
    for (auto const &x : v) res.emplace_back(reduce(x, c, root, all, op));
    return res;
  }
  template <typename T> void mpi_reduce_in_place(std::vector<T> &v, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    for (auto &x : v) reduce_in_place(x, c, root, all, op);
  }
  template <typename A, typename B> auto mpi_reduce(std::pair<A, B> const &p, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    A a = reduce(p.first, c, root, all, op); B b = reduce(p.second, c, root, all, op); return std::pair<A, B>{a, b};
  }
  template <typename T> std::vector<T> mpi_gather(std::vector<T> const &v, communicator c = {}, int root = 0, bool all = false) {
    std::vector<T> mine = v, res;
    c.exchange(&mine, [&](auto const &s) {
      if (all or c.rank() == root) for (auto p : s) { auto const &w = *static_cast<std::vector<T> const *>(p); res.insert(res.end(), w.begin(), w.end()); }
    });
    return res;
  }
  inline std::string mpi_gather(std::string const &v, communicator c = {}, int root = 0, bool all = false) {
    std::string mine = v, res;
    c.exchange(&mine, [&](auto const &s) { if (all or c.rank() == root) for (auto p : s) res += *static_cast<std::string const *>(p); });
    return res;
  }
  template <typename T> std::vector<T> mpi_scatter(std::vector<T> const &v, communicator c = {}, int root = 0) {
    std::vector<T> mine = v, res;
    c.exchange(&mine, [&](auto const &s) {
      auto const &w = *static_cast<std::vector<T> const *>(s[root]);
      auto [a, b] = itertools::chunk_range(0, w.size(), c.size(), c.rank());
      res.assign(w.begin() + a, w.begin() + b);
    });
    return res;
  }
  // the part of a range belonging to this rank
  template <typename R> auto chunk(R &&r, communicator c = {}) {
    auto v = itertools::make_vector_from_range(r); auto [a, b] = itertools::chunk_range(0, v.size(), c.size(), c.rank());
    return decltype(v)(v.begin() + a, v.begin() + b);
  }
  inline namespace mpi_c {}
} // namespace mpi
