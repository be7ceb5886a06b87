// generators and reference access for Green's functions
#pragma once
#include "vp.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh.hpp>
namespace gfx {
using namespace triqs::gfs; using namespace triqs::mesh; using dc = std::complex<double>; using nda::ellipsis; using nda::range;
template <typename T> T num(vp::Src &s, double a = 1) { if constexpr (std::is_same_v<T, double>) return s.generic(-a, a); else return s.cplx(-a, a); }
inline imfreq gen(vp::Src &s, imfreq *) { return {s.pick({1., 10., s.generic(0.5, 20)}), s.boolean() ? Fermion : Boson, s.integer(1, 5), s.chance(1, 4) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies}; }
inline imtime gen(vp::Src &s, imtime *) { return {s.pick({1., 10., s.generic(0.5, 20)}), s.boolean() ? Fermion : Boson, s.integer(2, 6)}; }
inline refreq gen(vp::Src &s, refreq *) { double a = s.pick({-1., 0., s.generic(-5, 5)}); return {a, a + s.pick({1., 2., s.generic(0.1, 5)}), s.integer(2, 6)}; }
inline retime gen(vp::Src &s, retime *) { double a = s.pick({-1., 0., s.generic(-5, 5)}); return {a, a + s.pick({1., 2., s.generic(0.1, 5)}), s.integer(2, 6)}; }
inline legendre gen(vp::Src &s, legendre *) { return {s.pick({1., 10.}), s.boolean() ? Fermion : Boson, s.integer(1, 6)}; }
inline discrete gen(vp::Src &s, discrete *) { return {s.integer(1, 5)}; }
inline triqs::lattice::bravais_lattice lat(vp::Src &s) { nda::matrix<double> u(2, 2); u = 0; u(0, 0) = 1; u(1, 1) = s.pick({1., 2.}); u(0, 1) = s.pick({0., 0.5}); return triqs::lattice::bravais_lattice(u); }
inline brzone gen(vp::Src &s, brzone *) { return {triqs::lattice::brillouin_zone{lat(s)}, std::array<long, 3>{s.integer(1, 3), s.integer(1, 3), 1}}; }
inline cyclat gen(vp::Src &s, cyclat *) { return {lat(s), std::array<long, 3>{s.integer(1, 3), s.integer(1, 3), 1}}; }
template <typename... M> prod<M...> gen(vp::Src &s, prod<M...> *) { return prod<M...>(std::tuple<M...>{gen(s, (M *)nullptr)...}); }
template <typename M> M mesh_of(vp::Src &s) { return gen(s, (M *)nullptr); }
// a function with random data; matrices are square if wanted
template <typename M, typename T> gf<M, T> function(vp::Src &s, M const &m, std::array<long, T::rank> sh) { gf<M, T> g{m, sh}; for (auto &x : g.data()) x = num<typename T::scalar_t>(s); return g; }
template <typename T> std::array<long, T::rank> shape(vp::Src &s, long max = 3, bool square = false) { std::array<long, T::rank> sh{}; for (auto &n : sh) n = s.integer(1, max); if (square && T::rank > 1) for (auto &n : sh) n = sh[0]; return sh; }
// all the numbers, in C order
template <typename A> auto flat(A const &a) { using S = std::decay_t<nda::get_value_t<A>>; std::vector<S> r; if constexpr (nda::get_rank<A> == 0) r.push_back(a()); else { auto c = nda::make_regular(a); for (auto const &x : c) r.push_back(x); } return r; }
// value at a mesh point as a list, whatever its type
template <typename V> auto vals(V const &v) { if constexpr (nda::is_scalar_v<std::decay_t<V>>) return std::vector<std::decay_t<V>>{v}; else return flat(v); }
template <typename A, typename B> double dist(std::vector<A> const &a, std::vector<B> const &b) { if (a.size() != b.size()) return 1e300; double d = 0; for (size_t i = 0; i < a.size(); ++i) { double e = std::abs(dc(a[i]) - dc(b[i])); if (!(e <= d)) d = e; } return d; }
#define SAME(x, y, tol, ...) do { double d_ = gfx::dist(x, y); VP_REQUIRE(d_ <= (tol), __VA_ARGS__, ": difference ", d_); } while (0)
}
