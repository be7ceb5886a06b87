// A stand-in, written from the documented interface, for the header library the code under test includes under this name.
#pragma once
#include <h5/h5.hpp>
#include "./nda.hpp"
namespace nda {
  namespace detail { template <typename V> inline constexpr bool h5_flat = is_scalar_v<V> and not std::is_same_v<V, bool>; }
  template <MemoryArray A> void h5_write(h5::group g, std::string const &name, A const &a) {
    using V = get_value_t<A>; constexpr int R = get_rank<A>;
    if constexpr (detail::h5_flat<V>) {
      array<V, R> c(a); std::vector<hsize_t> d; for (auto x : c.shape()) d.push_back(x); h5::write_block<V>(g, name, c.data(), d);
    } else if constexpr (std::is_same_v<V, std::string> and R == 1) {
      std::vector<std::string> v; for (long i = 0; i < a.extent(0); ++i) v.push_back(a(i)); h5_write(g, name, v);
    } else {
      auto gr = g.create_group(name); h5_write(gr, "shape", a.shape()); long n = 0;
      for_each(a.shape(), [&](auto... i) { h5::write(gr, std::to_string(n++), a(i...)); });
    }
  }
  template <MemoryArray A> void h5_read(h5::group g, std::string const &name, A &&a) {
    using V = get_value_t<A>; constexpr int R = get_rank<A>; constexpr bool view = is_view_v<A>; using S = std::remove_cvref_t<A>;
    auto shape_to = [&](std::array<long, R> const &sh) { if constexpr (view) { if (a.shape() != sh) throw std::runtime_error("h5: reading " + name + " in a view of another shape"); } else a.resize(sh); };
    if constexpr (detail::h5_flat<V>) {
      bool cp; auto d = h5::block_dims(g, name, cp); if (int(d.size()) != R) throw std::runtime_error("h5: rank of the dataset " + name);
      std::array<long, R> sh; for (int i = 0; i < R; ++i) sh[i] = d[i];
      array<V, R> c(sh); h5::read_block<V>(g, name, c.data(), d); shape_to(sh);
      if constexpr (view) { auto v = a.as_array_view(); v = c; } else { if constexpr (S::algebra == 'A' and std::is_same_v<typename S::layout_policy_t, C_layout>) a = c; else a = basic_array<V, R, C_layout, S::algebra, heap<>>(c); }
    } else if constexpr (std::is_same_v<V, std::string> and R == 1) {
      std::vector<std::string> v; h5_read(g, name, v); shape_to({long(v.size())}); for (size_t i = 0; i < v.size(); ++i) a(i) = v[i];
    } else {
      auto gr = g.open_group(name); std::array<long, R> sh; h5_read(gr, "shape", sh); shape_to(sh); long n = 0;
      for_each(sh, [&](auto... i) { h5::read(gr, std::to_string(n++), a(i...)); });
    }
  }
} // namespace nda
template <typename T, int R, typename L, char A, typename C> struct h5::hdf5_format_impl<nda::basic_array<T, R, L, A, C>> { static std::string invoke() { return "array<" + h5::get_hdf5_format<T>() + "," + std::to_string(R) + ">"; } };
template <typename T, int R, typename L, char A, typename Ac, typename O> struct h5::hdf5_format_impl<nda::basic_array_view<T, R, L, A, Ac, O>> { static std::string invoke() { return "array<" + h5::get_hdf5_format<std::remove_const_t<T>>() + "," + std::to_string(R) + ">"; } };
