// Stand-in for the HDF5 wrapper library, on top of the HDF5 C library.
#pragma once
#include <hdf5.h>
#include <array>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <iostream>
#include <fstream>

namespace h5 {

  inline void quiet() { static thread_local bool once = [] { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); return true; }(); (void)once; }

  // reference counted handle
  class object {
    protected:
    hid_t id = 0;
    public:
    object(hid_t id_ = 0) : id(id_) { quiet(); }
    object(object const &o) : id(o.id) { if (id > 0 and H5Iis_valid(id) > 0) H5Iinc_ref(id); }
    object(object &&o) noexcept : id(o.id) { o.id = 0; }
    object &operator=(object o) noexcept { std::swap(id, o.id); return *this; }
    ~object() { close(); }
    void close() { if (id > 0 and H5Iis_valid(id) > 0) H5Idec_ref(id); id = 0; }
    static object from_borrowed(hid_t i) { if (i > 0) H5Iinc_ref(i); return object(i); }
    operator hid_t() const { return id; }
    bool is_valid() const { return H5Iis_valid(id) == 1; }
  };
  using dataset = object; using datatype = object; using dataspace = object; using proplist = object; using attribute = object;
  using ::hid_t; using ::hsize_t; using ::herr_t;

  inline hid_t chk(hid_t i, std::string const &what) { if (i < 0) throw std::runtime_error("h5: " + what); return i; }

  class file : public object {
    public:
    file() {
      proplist p = H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p, 1 << 16, 0);
      static int n = 0; id = chk(H5Fcreate(("mem" + std::to_string(n++)).c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, p), "in-memory file");
    }
    explicit file(std::vector<unsigned char> const &image) {
      proplist p = H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p, 1 << 16, 0);
      H5Pset_file_image(p, const_cast<unsigned char *>(image.data()), image.size());
      static int n = 0; id = chk(H5Fopen(("img" + std::to_string(n++)).c_str(), H5F_ACC_RDONLY, p), "file image");
    }
    file(std::string const &name, char mode) {
      quiet();
      switch (mode) {
        case 'r': id = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); break;
        case 'w': id = H5Fcreate(name.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); break;
        case 'a': { std::ifstream f(name); bool there = f.good(); f.close();
          id = there ? H5Fopen(name.c_str(), H5F_ACC_RDWR, H5P_DEFAULT) : H5Fcreate(name.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT); break; }
        case 'e': id = H5Fcreate(name.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT); break;
        default: throw std::runtime_error("h5: bad file mode");
      }
      chk(id, "cannot open " + name);
    }
    file(object o) : object(std::move(o)) {}
    void flush() { H5Fflush(id, H5F_SCOPE_GLOBAL); }
    std::vector<unsigned char> as_buffer() const {
      H5Fflush(id, H5F_SCOPE_GLOBAL); auto n = H5Fget_file_image(id, nullptr, 0);
      std::vector<unsigned char> b(n); H5Fget_file_image(id, b.data(), n); return b;
    }
  };

  class group : public object {
    file f;
    public:
    group() = default;
    group(file f_) : object(), f(f_) { id = chk(H5Gopen2(f, "/", H5P_DEFAULT), "root group"); }
    group(object o, file f_) : object(std::move(o)), f(std::move(f_)) {}
    std::string name() const { char b[4096]; auto n = H5Iget_name(id, b, sizeof b); return n > 0 ? std::string(b, n) : ""; }
    file get_file() const { return f; }
    bool has_key(std::string const &k) const { return H5Lexists(id, k.c_str(), H5P_DEFAULT) > 0; }
    private:
    bool is_type(std::string const &k, H5O_type_t t) const {
      if (not has_key(k)) return false;
      object o = H5Oopen(id, k.c_str(), H5P_DEFAULT); H5O_info_t i; return H5Oget_info(o, &i) >= 0 and i.type == t;
    }
    public:
    bool has_subgroup(std::string const &k) const { return is_type(k, H5O_TYPE_GROUP); }
    bool has_dataset(std::string const &k) const { return is_type(k, H5O_TYPE_DATASET); }
    void unlink(std::string const &k, bool err = false) const {
      if (not has_key(k)) { if (err) throw std::runtime_error("h5: no key " + k); return; }
      chk(H5Ldelete(id, k.c_str(), H5P_DEFAULT), "cannot unlink " + k);
    }
    group open_group(std::string const &k) const {
      if (k.empty()) return *this;
      if (not has_key(k)) throw std::runtime_error("h5: no subgroup " + k + " in " + name());
      return {object(chk(H5Gopen2(id, k.c_str(), H5P_DEFAULT), "cannot open group " + k)), f};
    }
    group create_group(std::string const &k, bool del = true) const {
      if (k.empty()) return *this;
      if (del) unlink(k); else if (has_key(k)) return open_group(k);
      return {object(chk(H5Gcreate2(id, k.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "cannot create group " + k)), f};
    }
    void create_softlink(std::string const &a, std::string const &b, bool del = true) const { if (del) unlink(b); H5Lcreate_soft(a.c_str(), id, b.c_str(), H5P_DEFAULT, H5P_DEFAULT); }
    dataset open_dataset(std::string const &k) const {
      if (not has_key(k)) throw std::runtime_error("h5: no dataset " + k + " in " + name());
      return object(chk(H5Dopen2(id, k.c_str(), H5P_DEFAULT), "cannot open dataset " + k));
    }
    dataset create_dataset(std::string const &k, datatype ty, dataspace sp, hid_t pl = H5P_DEFAULT) const {
      unlink(k); return object(chk(H5Dcreate2(id, k.c_str(), ty, sp, H5P_DEFAULT, pl, H5P_DEFAULT), "cannot create dataset " + k));
    }
    private:
    static herr_t add_name(hid_t, const char *n, const H5L_info_t *, void *d) { static_cast<std::vector<std::string> *>(d)->push_back(n); return 0; }
    public:
    std::vector<std::string> get_all_subgroup_dataset_names() const { std::vector<std::string> v; H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, nullptr, &add_name, &v); return v; }
    std::vector<std::string> get_all_subgroup_names() const { std::vector<std::string> v; for (auto &n : get_all_subgroup_dataset_names()) if (has_subgroup(n)) v.push_back(n); return v; }
    std::vector<std::string> get_all_dataset_names() const { std::vector<std::string> v; for (auto &n : get_all_subgroup_dataset_names()) if (has_dataset(n)) v.push_back(n); return v; }
  };

  // ------------------------------------------------------------------ scalar types
  template <typename T> hid_t h5_type() {
    if constexpr (std::is_same_v<T, bool>) return H5T_NATIVE_HBOOL;
    else if constexpr (std::is_same_v<T, char> or std::is_same_v<T, signed char>) return H5T_NATIVE_SCHAR;
    else if constexpr (std::is_same_v<T, unsigned char>) return H5T_NATIVE_UCHAR;
    else if constexpr (std::is_same_v<T, short>) return H5T_NATIVE_SHORT;
    else if constexpr (std::is_same_v<T, int>) return H5T_NATIVE_INT;
    else if constexpr (std::is_same_v<T, unsigned>) return H5T_NATIVE_UINT;
    else if constexpr (std::is_same_v<T, long>) return H5T_NATIVE_LONG;
    else if constexpr (std::is_same_v<T, unsigned long>) return H5T_NATIVE_ULONG;
    else if constexpr (std::is_same_v<T, long long>) return H5T_NATIVE_LLONG;
    else if constexpr (std::is_same_v<T, unsigned long long>) return H5T_NATIVE_ULLONG;
    else if constexpr (std::is_same_v<T, float>) return H5T_NATIVE_FLOAT;
    else if constexpr (std::is_same_v<T, double>) return H5T_NATIVE_DOUBLE;
    else if constexpr (std::is_same_v<T, long double>) return H5T_NATIVE_LDOUBLE;
    else static_assert(sizeof(T) == 0, "no h5 type");
  }
  template <typename T> struct is_cplx : std::false_type {};
  template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
  template <typename T> inline constexpr bool is_flat = std::is_arithmetic_v<T> or is_cplx<T>::value;

  // attributes -----------------------------------------------------------------
  inline bool has_attr(hid_t o, std::string const &n) { return H5Aexists(o, n.c_str()) > 0; }
  inline void h5_write_attribute(object o, std::string const &n, std::string const &s) {
    if (has_attr(o, n)) H5Adelete(o, n.c_str());
    datatype t = H5Tcopy(H5T_C_S1); H5Tset_size(t, s.size() + 1); H5Tset_cset(t, H5T_CSET_UTF8); dataspace sp = H5Screate(H5S_SCALAR);
    attribute a = chk(H5Acreate2(o, n.c_str(), t, sp, H5P_DEFAULT, H5P_DEFAULT), "attribute " + n); chk(H5Awrite(a, t, s.c_str()), "attribute write");
  }
  inline void h5_write_attribute(object o, std::string const &n, const char *s) { h5_write_attribute(o, n, std::string(s)); }
  // strings of a dataset or attribute, whatever the length convention
  template <typename Read> std::vector<std::string> read_strings(datatype t, dataspace sp, std::vector<hsize_t> &dims, Read rd) {
    int nd = H5Sget_simple_extent_ndims(sp); dims.resize(nd); if (nd) H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
    hsize_t n = 1; for (auto d : dims) n *= d;
    std::vector<std::string> v(n);
    if (n == 0) return v;
    if (H5Tis_variable_str(t) > 0) {
      datatype mt = H5Tcopy(H5T_C_S1); H5Tset_size(mt, H5T_VARIABLE); H5Tset_cset(mt, H5Tget_cset(t));
      std::vector<char *> p(n, nullptr); chk(rd(mt, p.data()), "string read");
      for (hsize_t i = 0; i < n; ++i) if (p[i]) v[i] = p[i];
      H5Dvlen_reclaim(mt, sp, H5P_DEFAULT, p.data());
    } else {
      size_t L = H5Tget_size(t); std::vector<char> b(n * L + 1, 0); chk(rd(t, b.data()), "string read");
      for (hsize_t i = 0; i < n; ++i) v[i] = std::string(b.data() + i * L, strnlen(b.data() + i * L, L));
    }
    return v;
  }
  inline std::vector<std::string> read_attr_strings(object o, std::string const &n, std::vector<hsize_t> &dims) {
    attribute a = chk(H5Aopen(o, n.c_str(), H5P_DEFAULT), "no attribute " + n);
    return read_strings(H5Aget_type(a), H5Aget_space(a), dims, [&](hid_t t, void *p) { return H5Aread(a, t, p); });
  }
  inline void h5_read_attribute(object o, std::string const &n, std::string &s) {
    s.clear(); if (not has_attr(o, n)) return;
    std::vector<hsize_t> d; auto v = read_attr_strings(o, n, d); if (not v.empty()) s = v[0];
  }
  template <typename T> requires(std::is_arithmetic_v<T>) void h5_write_attribute(object o, std::string const &n, T const &x) {
    if (has_attr(o, n)) H5Adelete(o, n.c_str());
    dataspace sp = H5Screate(H5S_SCALAR); attribute a = chk(H5Acreate2(o, n.c_str(), h5_type<T>(), sp, H5P_DEFAULT, H5P_DEFAULT), "attribute " + n);
    H5Awrite(a, h5_type<T>(), &x);
  }
  template <typename T> requires(std::is_arithmetic_v<T>) void h5_read_attribute(object o, std::string const &n, T &x) {
    attribute a = chk(H5Aopen(o, n.c_str(), H5P_DEFAULT), "no attribute " + n); chk(H5Aread(a, h5_type<T>(), &x), "attribute read");
  }
  inline std::vector<char> pack(std::vector<std::vector<std::string>> const &v, hsize_t &n2, size_t &L) {
    n2 = 0; L = 1;
    for (auto &w : v) { n2 = std::max(n2, (hsize_t)w.size()); for (auto &s : w) L = std::max(L, s.size() + 1); }
    std::vector<char> b(v.size() * n2 * L, 0);
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) std::memcpy(b.data() + (i * n2 + j) * L, v[i][j].data(), v[i][j].size());
    return b;
  }
  inline datatype str_type(size_t L) { datatype t = H5Tcopy(H5T_C_S1); H5Tset_size(t, L); H5Tset_cset(t, H5T_CSET_UTF8); return t; }
  inline void h5_write_attribute(object o, std::string const &n, std::vector<std::vector<std::string>> const &v) {
    if (has_attr(o, n)) H5Adelete(o, n.c_str());
    hsize_t n2; size_t L; auto b = pack(v, n2, L); hsize_t d[] = {v.size(), n2};
    auto t = str_type(L); dataspace sp = H5Screate_simple(2, d, nullptr);
    attribute a = chk(H5Acreate2(o, n.c_str(), t, sp, H5P_DEFAULT, H5P_DEFAULT), "attribute " + n); if (not b.empty()) chk(H5Awrite(a, t, b.data()), "attribute write");
  }
  inline void h5_read_attribute(object o, std::string const &n, std::vector<std::vector<std::string>> &v) {
    std::vector<hsize_t> d; auto f = read_attr_strings(o, n, d); if (d.size() != 2) throw std::runtime_error("h5: rank of attribute " + n);
    v.assign(d[0], {}); for (hsize_t i = 0; i < d[0]; ++i) v[i].assign(f.begin() + i * d[1], f.begin() + (i + 1) * d[1]);
  }
  inline void h5_write_attribute(object o, std::string const &n, std::vector<std::string> const &v) {
    if (has_attr(o, n)) H5Adelete(o, n.c_str());
    hsize_t n2; size_t L; auto b = pack({v}, n2, L); hsize_t d[] = {n2}; auto t = str_type(L); dataspace sp = H5Screate_simple(1, d, nullptr);
    attribute a = chk(H5Acreate2(o, n.c_str(), t, sp, H5P_DEFAULT, H5P_DEFAULT), "attribute " + n); if (not b.empty()) H5Awrite(a, t, b.data());
  }
  inline void h5_read_attribute(object o, std::string const &n, std::vector<std::string> &v) { std::vector<hsize_t> d; v = read_attr_strings(o, n, d); }

  template <typename T> void write_attribute(object o, std::string const &n, T const &x) { h5_write_attribute(o, n, x); }
  template <typename T> void read_attribute(object o, std::string const &n, T &x) { h5_read_attribute(o, n, x); }
  template <typename T> T read_attribute(object o, std::string const &n) { T x; h5_read_attribute(o, n, x); return x; }

  // format tags ----------------------------------------------------------------
  template <typename T> struct hdf5_format_impl { static std::string invoke() { if constexpr (requires { T::hdf5_format(); }) return T::hdf5_format(); else return ""; } };
  template <typename T> std::string get_hdf5_format() { return hdf5_format_impl<T>::invoke(); }
  template <typename T> std::string get_hdf5_format(T const &) { return hdf5_format_impl<T>::invoke(); }
  inline void write_hdf5_format_as_string(object o, std::string const &s) { h5_write_attribute(o, "Format", s); }
  template <typename T> void write_hdf5_format(object o, T const &) { write_hdf5_format_as_string(o, get_hdf5_format<T>()); }
  inline void read_hdf5_format(object o, std::string &s) { h5_read_attribute(o, "Format", s); if (s.empty()) h5_read_attribute(o, "TRIQS_HDF5_data_scheme", s); }
  inline std::string read_hdf5_format(group g) { std::string s; read_hdf5_format(g, s); return s; }
  inline std::string read_hdf5_format_from_key(group g, std::string const &k) { std::string s; read_hdf5_format(object(H5Oopen(g, k.c_str(), H5P_DEFAULT)), s); return s; }
  inline void assert_hdf5_format_as_string(group g, const char *expected, bool ignore_if_absent = false) {
    auto s = read_hdf5_format(g); if (ignore_if_absent and s.empty()) return;
    if (s != expected) throw std::runtime_error("h5: format mismatch: " + s + " instead of " + expected);
  }
  template <typename T> void assert_hdf5_format(group g, T const &, bool ignore_if_absent = false) { assert_hdf5_format_as_string(g, get_hdf5_format<T>().c_str(), ignore_if_absent); }

  // contiguous blocks ------------------------------------------------------------
  template <typename T> void write_block(group g, std::string const &n, T const *p, std::vector<hsize_t> dims) {
    if constexpr (is_cplx<T>::value) {
      using R = typename T::value_type; dims.push_back(2);
      dataspace sp = H5Screate_simple(dims.size(), dims.data(), nullptr); auto ds = g.create_dataset(n, h5_type<R>(), sp);
      hsize_t tot = 1; for (auto d : dims) tot *= d;
      if (tot) chk(H5Dwrite(ds, h5_type<R>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p), "write " + n);
      h5_write_attribute(ds, "__complex__", std::string("1"));
    } else {
      dataspace sp = dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple(dims.size(), dims.data(), nullptr);
      auto ds = g.create_dataset(n, object::from_borrowed(h5_type<T>()), sp);
      hsize_t tot = 1; for (auto d : dims) tot *= d;
      if (tot) chk(H5Dwrite(ds, h5_type<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p), "write " + n);
    }
  }
  inline std::vector<hsize_t> block_dims(group g, std::string const &n, bool &cplx) {
    auto ds = g.open_dataset(n); dataspace sp = H5Dget_space(ds); std::vector<hsize_t> d(H5Sget_simple_extent_ndims(sp));
    if (not d.empty()) H5Sget_simple_extent_dims(sp, d.data(), nullptr);
    cplx = has_attr(ds, "__complex__"); if (cplx) d.pop_back();
    return d;
  }
  template <typename T> void read_block(group g, std::string const &n, T *p, std::vector<hsize_t> const &dims) {
    bool cplx; auto d = block_dims(g, n, cplx); hsize_t tot = 1; for (auto x : d) tot *= x;
    if (d != dims) throw std::runtime_error("h5: shape mismatch reading " + n);
    auto ds = g.open_dataset(n);
    { datatype t = H5Dget_type(ds); auto c = H5Tget_class(t); if (c == H5T_STRING or c == H5T_COMPOUND) throw std::runtime_error("h5: type mismatch reading " + n); }
    if (tot == 0) return;
    if constexpr (is_cplx<T>::value) {
      using R = typename T::value_type;
      if (cplx) chk(H5Dread(ds, h5_type<R>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p), "read " + n);
      else { std::vector<R> b(tot); chk(H5Dread(ds, h5_type<R>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()), "read " + n); for (hsize_t i = 0; i < tot; ++i) p[i] = b[i]; }
    } else {
      if (cplx) throw std::runtime_error("h5: reading complex data into a real object: " + n);
      chk(H5Dread(ds, h5_type<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p), "read " + n);
    }
  }

  // objects --------------------------------------------------------------------
  template <typename T> requires(is_flat<T>) void h5_write(group g, std::string const &n, T const &x) { write_block(g, n, &x, {}); }
  template <typename T> requires(is_flat<T>) void h5_read(group g, std::string const &n, T &x) {
    if constexpr (is_cplx<T>::value) if (g.has_subgroup(n)) { // archives of old versions
      typename T::value_type r, i; auto gr = g.open_group(n); h5_read(gr, "r", r); h5_read(gr, "i", i); x = {r, i}; return;
    }
    read_block(g, n, &x, {});
  }

  inline void h5_write(group g, std::string const &n, std::string const &s) {
    auto t = str_type(s.size() + 1); dataspace sp = H5Screate(H5S_SCALAR); auto ds = g.create_dataset(n, t, sp); chk(H5Dwrite(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, s.c_str()), "write " + n);
  }
  inline void h5_write(group g, std::string const &n, const char *s) { h5_write(g, n, std::string(s)); }
  inline std::vector<std::string> read_ds_strings(group g, std::string const &n, std::vector<hsize_t> &d) {
    auto ds = g.open_dataset(n); return read_strings(H5Dget_type(ds), H5Dget_space(ds), d, [&](hid_t t, void *p) { return H5Dread(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, p); });
  }
  inline void h5_read(group g, std::string const &n, std::string &s) { std::vector<hsize_t> d; auto v = read_ds_strings(g, n, d); s = v.empty() ? "" : v[0]; }
  inline void h5_read(group g, std::string const &n, char *&) = delete;

  template <typename T> void h5_write(group g, std::string const &n, std::vector<T> const &v);
  template <typename T> void h5_read(group g, std::string const &n, std::vector<T> &v);
  template <typename T, size_t N> void h5_write(group g, std::string const &n, std::array<T, N> const &v);
  template <typename T, size_t N> void h5_read(group g, std::string const &n, std::array<T, N> &v);
  template <typename A, typename B> void h5_write(group g, std::string const &n, std::pair<A, B> const &p);
  template <typename A, typename B> void h5_read(group g, std::string const &n, std::pair<A, B> &p);
  template <typename T> void h5_write(group g, std::string const &n, std::map<std::string, T> const &m);
  template <typename T> void h5_read(group g, std::string const &n, std::map<std::string, T> &m);
  template <typename... T> void h5_write(group g, std::string const &n, std::tuple<T...> const &t);
  template <typename... T> void h5_read(group g, std::string const &n, std::tuple<T...> &t);
  template <typename T> void h5_write(group g, std::string const &n, std::optional<T> const &o);
  template <typename T> void h5_read(group g, std::string const &n, std::optional<T> &o);
  template <typename... T> void h5_write(group g, std::string const &n, std::variant<T...> const &v);
  template <typename... T> void h5_read(group g, std::string const &n, std::variant<T...> &v);

  template <typename T> void write(group g, std::string const &n, T const &x) { h5_write(g, n, x); }
  template <typename T> void read(group g, std::string const &n, T &x) { h5_read(g, n, x); }
  template <typename T> T read(group g, std::string const &n) {
    if constexpr (requires { T::h5_read_construct(g, n); }) return T::h5_read_construct(g, n);
    else { T x{}; h5_read(g, n, x); return x; }
  }
  template <typename T> T h5_read(group g, std::string const &n) { return read<T>(g, n); }
  template <typename T> bool try_read(group g, std::string const &n, T &x) { if (not g.has_key(n)) return false; h5_read(g, n, x); return true; }

  template <typename T> void h5_write(group g, std::string const &n, std::vector<T> const &v) {
    if constexpr (std::is_same_v<T, std::string>) {
      hsize_t n2; size_t L; auto b = pack({v}, n2, L); hsize_t d[] = {n2}; auto t = str_type(L); dataspace sp = H5Screate_simple(1, d, nullptr);
      auto ds = g.create_dataset(n, t, sp); if (not b.empty()) chk(H5Dwrite(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()), "write " + n);
    } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
      hsize_t n2; size_t L; auto b = pack(v, n2, L); hsize_t d[] = {v.size(), n2}; auto t = str_type(L); dataspace sp = H5Screate_simple(2, d, nullptr);
      auto ds = g.create_dataset(n, t, sp); if (not b.empty()) chk(H5Dwrite(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()), "write " + n);
    } else if constexpr (std::is_same_v<T, bool>) {
      std::vector<char> w(v.begin(), v.end()); write_block(g, n, w.data(), {w.size()});
    } else if constexpr (is_flat<T>) write_block(g, n, v.data(), {v.size()});
    else {
      auto gr = g.create_group(n); write_hdf5_format_as_string(gr, "List");
      for (size_t i = 0; i < v.size(); ++i) h5_write(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T> void h5_read(group g, std::string const &n, std::vector<T> &v) {
    if constexpr (std::is_same_v<T, std::string>) {
      if (g.has_subgroup(n)) { auto gr = g.open_group(n); v.clear(); for (size_t i = 0; gr.has_key(std::to_string(i)); ++i) v.push_back(h5::read<std::string>(gr, std::to_string(i))); return; }
      std::vector<hsize_t> d; v = read_ds_strings(g, n, d); if (d.size() != 1) throw std::runtime_error("h5: rank of " + n);
    } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
      std::vector<hsize_t> d; auto f = read_ds_strings(g, n, d); if (d.size() != 2) throw std::runtime_error("h5: rank of " + n);
      v.assign(d[0], {}); for (hsize_t i = 0; i < d[0]; ++i) v[i].assign(f.begin() + i * d[1], f.begin() + (i + 1) * d[1]);
    } else if constexpr (std::is_same_v<T, bool>) {
      bool c; auto d = block_dims(g, n, c); if (d.size() != 1) throw std::runtime_error("h5: rank of " + n);
      std::vector<char> w(d[0]); read_block(g, n, w.data(), d); v.assign(w.begin(), w.end());
    } else if constexpr (is_flat<T>) {
      bool c; auto d = block_dims(g, n, c); if (d.size() != 1) throw std::runtime_error("h5: rank of " + n);
      v.resize(d[0]); read_block(g, n, v.data(), d);
    } else {
      auto gr = g.open_group(n); size_t N = gr.get_all_subgroup_dataset_names().size();
      v.resize(N); for (size_t i = 0; i < N; ++i) h5_read(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T, size_t N> void h5_write(group g, std::string const &n, std::array<T, N> const &v) {
    if constexpr (is_flat<T> and not std::is_same_v<T, bool>) write_block(g, n, v.data(), {N});
    else h5_write(g, n, std::vector<T>(v.begin(), v.end()));
  }
  template <typename T, size_t N> void h5_read(group g, std::string const &n, std::array<T, N> &v) {
    if constexpr (is_flat<T> and not std::is_same_v<T, bool>) read_block(g, n, v.data(), {N});
    else { std::vector<T> w; h5_read(g, n, w); if (w.size() != N) throw std::runtime_error("h5: size of " + n); for (size_t i = 0; i < N; ++i) v[i] = w[i]; }
  }
  template <typename A, typename B> void h5_write(group g, std::string const &n, std::pair<A, B> const &p) {
    auto gr = g.create_group(n); write_hdf5_format_as_string(gr, "PythonTupleWrap"); h5_write(gr, "0", p.first); h5_write(gr, "1", p.second);
  }
  template <typename A, typename B> void h5_read(group g, std::string const &n, std::pair<A, B> &p) {
    auto gr = g.open_group(n); if (gr.get_all_subgroup_dataset_names().size() != 2) throw std::runtime_error("h5: not a pair: " + n);
    h5_read(gr, "0", p.first); h5_read(gr, "1", p.second);
  }
  template <typename... T> void h5_write(group g, std::string const &n, std::tuple<T...> const &t) {
    auto gr = g.create_group(n); write_hdf5_format_as_string(gr, "PythonTupleWrap");
    [&]<size_t... I>(std::index_sequence<I...>) { (h5_write(gr, std::to_string(I), std::get<I>(t)), ...); }(std::index_sequence_for<T...>{});
  }
  template <typename... T> void h5_read(group g, std::string const &n, std::tuple<T...> &t) {
    auto gr = g.open_group(n); [&]<size_t... I>(std::index_sequence<I...>) { (h5_read(gr, std::to_string(I), std::get<I>(t)), ...); }(std::index_sequence_for<T...>{});
  }
  template <typename T> void h5_write(group g, std::string const &n, std::map<std::string, T> const &m) {
    auto gr = g.create_group(n); write_hdf5_format_as_string(gr, "Dict"); for (auto const &[k, x] : m) h5_write(gr, k, x);
  }
  template <typename T> void h5_read(group g, std::string const &n, std::map<std::string, T> &m) {
    auto gr = g.open_group(n); m.clear(); for (auto &k : gr.get_all_subgroup_dataset_names()) { T x; h5_read(gr, k, x); m.emplace(k, std::move(x)); }
  }
  template <typename T> void h5_write(group g, std::string const &n, std::optional<T> const &o) { if (o) h5_write(g, n, *o); }
  template <typename T> void h5_read(group g, std::string const &n, std::optional<T> &o) { o.reset(); if (g.has_key(n)) o.emplace(h5::read<T>(g, n)); }
  template <typename... T> void h5_write(group g, std::string const &n, std::variant<T...> const &v) { std::visit([&](auto const &x) { h5_write(g, n, x); }, v); }
  template <typename... T> void h5_read(group g, std::string const &n, std::variant<T...> &v) {
    bool ok = false;
    auto attempt = [&]<typename U>(std::type_identity<U>) { if (ok) return; try { U x{}; h5_read(g, n, x); v = std::move(x); ok = true; } catch (std::exception const &) {} };
    (attempt(std::type_identity<T>{}), ...);
    if (not ok) throw std::runtime_error("h5: no alternative for " + n);
  }

  template <typename T> concept Storable = requires(T const &xc, T &x, group g, std::string const &n) {
    { T::hdf5_format() } -> std::convertible_to<std::string>;
    { h5_write(g, n, xc) };
    { h5_read(g, n, x) };
  };

  template <typename T> std::vector<unsigned char> serialize(T const &x) { file f; h5_write(group(f), "object", x); return f.as_buffer(); }
  template <typename T> T deserialize(std::vector<unsigned char> const &b) { file f(b); return h5::read<T>(group(f), "object"); }
  inline namespace h5_c {}
} // namespace h5

// the format of the types of the library
#define H5_SPECIALIZE_FORMAT(T, S) template <> struct h5::hdf5_format_impl<T> { static std::string invoke() { return S; } };
H5_SPECIALIZE_FORMAT(bool, "bool") H5_SPECIALIZE_FORMAT(int, "int") H5_SPECIALIZE_FORMAT(long, "long") H5_SPECIALIZE_FORMAT(double, "double") H5_SPECIALIZE_FORMAT(std::string, "string")
