// Bravais lattices, Brillouin zones, tight binding Hamiltonians, and meshes of lattices and zones
#include "vp.hpp"
#include <triqs/lattice/tight_binding.hpp>
#include <triqs/gfs.hpp>
#include <triqs/mesh.hpp>
using dc = std::complex<double>; using namespace triqs::lattice; namespace mesh = triqs::mesh; using L3 = std::array<long, 3>; using D3 = std::array<double, 3>; using nda::range;
static nda::vector<double> vec(D3 const &x) { return nda::vector<double>{x[0], x[1], x[2]}; }
struct U3 { double m[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; D3 mul(D3 c) const { D3 r{0, 0, 0}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[j] += c[i] * m[i][j]; return r; } // sum of c_i times the i-th row
  double det() const { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); } };
static D3 cross(double const *a, double const *b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double norm(D3 a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); } static D3 sub(D3 a, D3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
struct Lat { int d; nda::matrix<double> u; std::vector<nda::vector<double>> pos; std::vector<std::string> names; int norb; };
static Lat gen(vp::Src &s, int norb = 0) {
  Lat l; l.d = int(s.integer(1, 3)); l.u = nda::matrix<double>(l.d, l.d); for (;;) { double det = 0; int kind = int(s.raw(3));
    for (int i = 0; i < l.d; ++i) for (int j = 0; j < l.d; ++j) l.u(i, j) = kind == 0 ? (i == j) : kind == 1 ? s.generic(-2, 2) : kind == 2 ? (i == j ? -0.5 : 0.5) : (i == j ? s.generic(0.5, 2) : j < i ? s.generic(-2, 2) : 0.);
    det = l.d == 1 ? l.u(0, 0) : l.d == 2 ? l.u(0, 0) * l.u(1, 1) - l.u(0, 1) * l.u(1, 0) : 0; if (l.d == 3) { U3 t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.m[i][j] = l.u(i, j); det = t.det(); } if (kind == 2 && l.d < 3) l.u(0, 0) = 0.5, det = l.d == 1 ? 0.5 : -0.5; if (std::abs(det) > 0.1) break; s.assume(s.chance(9, 10)); }
  l.norb = norb ? norb : int(s.integer(1, 3)); for (int i = 0; i < l.norb; ++i) { l.pos.push_back(i ? vec({s.unit(), s.unit(), 0}) : vec({0, 0, 0})); l.names.push_back(s.boolean() ? std::string("orb") + char('a' + i) : ""); } return l; }
static bravais_lattice make(Lat const &l) { return bravais_lattice(l.u, l.pos, l.names); }
static bool same(nda::vector<double> const &a, D3 b, double tol) { if (a.size() != 3) return false; for (int i = 0; i < 3; ++i) if (!(std::abs(a(i) - b[i]) <= tol)) return false; return true; }
static U3 rows(nda::matrix<double> const &m) { U3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = m(i, j); return r; }
VP_TEST(lattices) {
  Lat l = gen(s); bravais_lattice bl = make(l); s.say(l.d, " dimensions, units ", l.u); VP_REQUIRE(bl.ndim() == l.d && bl.n_orbitals() == l.norb, "dimensions"); U3 u = rows(bl.units());
  for (int i = 0; i < l.d; ++i) for (int j = 0; j < 3; ++j) VP_REQUIRE(u.m[i][j] == (j < l.d ? l.u(i, j) : 0.), "unit vector ", i); VP_REQUIRE(std::abs(u.det()) > 1e-10, "the completed units are not independent");
  for (int i = l.d; i < 3; ++i) { D3 v{u.m[i][0], u.m[i][1], u.m[i][2]}; VP_CLOSE(norm(v), 1., 1e-12, "length of the completed vector ", i); for (int j = 0; j < i; ++j) VP_REQUIRE(std::abs(v[0] * u.m[j][0] + v[1] * u.m[j][1] + v[2] * u.m[j][2]) < 1e-12, "completed vector ", i, " is not normal to vector ", j); }
  L3 R{s.integer(-9, 9), s.integer(-9, 9), s.integer(-9, 9)}; D3 c{double(R[0]), double(R[1]), double(R[2])}; for (int i = l.d; i < 3; ++i) c[i] = 0; D3 r = u.mul(c); VP_REQUIRE(same(bl.lattice_to_real_coordinates(R), r, 1e-12), "position of a lattice point"); VP_REQUIRE(same(bl.lattice_to_real_coordinates(vec(c)), r, 1e-12), "position of a vector");
  auto back = bl.real_to_lattice_coordinates(vec(r)); VP_REQUIRE(same(back, c, 1e-9), "lattice coordinates of a position are ", back); bravais_lattice::point_t p(R, &bl), q({1, -2, 3}, &bl); VP_REQUIRE(same(r_t(p), r, 1e-12) && same(r_t(p), r, 1e-12) && std::abs(p[1] - r[1]) < 1e-12, "position of a point"); VP_REQUIRE((p + q).index() == (L3{R[0] + 1, R[1] - 2, R[2] + 3}) && (p - q).index() == (L3{R[0] - 1, R[1] + 2, R[2] - 3}) && (-p).index() == (L3{-R[0], -R[1], -R[2]}), "arithmetic of points"); { auto w = p + q; D3 cw{double(R[0] + 1), l.d > 1 ? double(R[1] - 2) : 0, l.d > 2 ? double(R[2] + 3) : 0}; VP_REQUIRE(same(r_t(w), u.mul(cw), 1e-12), "position of a sum of points"); }
  VP_REQUIRE(long(bl.orbital_positions().size()) == l.norb && bl.orbital_names() == l.names, "orbitals"); for (int i = 0; i < l.norb; ++i) VP_REQUIRE(bl.orbital_positions()[i] == l.pos[i], "orbital ", i);
  { h5::file f{}; h5::write(f, "l", bl); bravais_lattice b2; h5::read(f, "l", b2); VP_REQUIRE(b2 == bl && b2.units() == bl.units() && b2.orbital_names() == l.names && long(b2.orbital_positions().size()) == l.norb && b2.orbital_positions()[l.norb - 1] == l.pos[l.norb - 1], "lattice read from a file"); }
  brillouin_zone bz(bl); U3 K = rows(bz.units()); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x = 0; for (int k = 0; k < 3; ++k) x += u.m[i][k] * K.m[j][k]; VP_CLOSE(x, i == j ? 2 * M_PI : 0., 1e-10, "product of unit vector ", i, " and reciprocal vector ", j); } VP_REQUIRE(bz.ndim() == l.d && bz.lattice() == bl, "lattice of the zone");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x = 0; for (int k = 0; k < 3; ++k) x += K.m[i][k] * bz.reciprocal_matrix_inv()(k, j); VP_CLOSE(x, i == j ? 1. : 0., 1e-10, "inverse of the reciprocal matrix"); }
  D3 k{s.generic(-1, 1), l.d > 1 ? s.generic(-1, 1) : 0, l.d > 2 ? s.generic(-1, 1) : 0}; nda::vector<double> kd(l.d); for (int i = 0; i < l.d; ++i) kd(i) = k[i]; VP_REQUIRE(same(bz.lattice_to_real_coordinates(kd), K.mul(k), 1e-10), "momentum of reciprocal coordinates"); auto kr = bz.lattice_to_real_coordinates(vec(k)); VP_REQUIRE(same(kr, K.mul(k), 1e-10), "momentum of three reciprocal coordinates"); VP_REQUIRE(same(bz.real_to_lattice_coordinates(kr), k, 1e-9), "reciprocal coordinates of a momentum");
  { h5::file f{}; h5::write(f, "z", bz); brillouin_zone z2; h5::read(f, "z", z2); VP_REQUIRE(z2 == bz && z2.units() == bz.units(), "zone read from a file"); } { Lat o = l; o.u(0, 0) += 0.5; auto bo = make(o); if (std::abs(rows(bo.units()).det()) > 0.01) VP_REQUIRE(!(bo == bl) && !(brillouin_zone(bo) == bz), "different lattices are equal"); }
  if (l.d > 1) { auto m = l.u; m(1, range::all) = 2 * m(0, range::all); if (l.d == 2) VP_REQUIRE(vp::throws([&] { bravais_lattice b(m); }), "dependent unit vectors are accepted"); } VP_REQUIRE(vp::throws([&] { bravais_lattice b(nda::eye<double>(4)); }), "four dimensions are accepted"); s.nontrivial(l.d > 1); }
// meshes: the points, their order and the closest point
template <typename M> static void points(M const &m, L3 dims, char const *w) {
  long n = dims[0] * dims[1] * dims[2]; VP_REQUIRE(m.size() == n && m.dims() == dims, w, ": size"); long d = 0; auto it = m.begin(); for (long i = 0; i < dims[0]; ++i) for (long j = 0; j < dims[1]; ++j) for (long k = 0; k < dims[2]; ++k, ++d, ++it) { L3 x{i, j, k}; VP_REQUIRE(m.is_index_valid(x) && m.to_data_index(x) == d && m.to_index(d) == x, w, ": point ", d); auto p = m[d]; VP_REQUIRE(p.index() == x && p.data_index() == d && p.mesh_hash() == m.mesh_hash(), w, ": mesh point ", d); auto p2 = m(x); VP_REQUIRE(p2.index() == x && p2.data_index() == d, w, ": mesh point of an index"); VP_REQUIRE((*it).index() == x && (*it).data_index() == d, w, ": iteration"); } VP_REQUIRE(!(it != m.end()), w, ": end of the iteration");
  for (int c = 0; c < 3; ++c) { L3 x{0, 0, 0}; x[c] = dims[c]; VP_REQUIRE(!m.is_index_valid(x), w, ": index past the end"); x[c] = -1; VP_REQUIRE(!m.is_index_valid(x), w, ": negative index"); } }
static long pm(long a, long n) { return ((a % n) + n) % n; }
// a mesh in the layout of older files: the periods as a diagonal matrix, the lattice under another name
template <typename M, typename L> static void old_file(h5::group g, L3 dims, char const *name, L const &l) { auto gr = g.create_group("old"); h5::write_hdf5_format_as_string(gr, M::hdf5_format()); nda::matrix<long> pm = nda::matrix<long>::zeros(3, 3); for (int i = 0; i < 3; ++i) pm(i, i) = dims[i]; h5::write(gr, "periodization_matrix", pm); if (name) h5::write(gr, name, l); }
VP_TEST(zone_mesh) {
  Lat l = gen(s); bravais_lattice bl = make(l); brillouin_zone bz(bl); U3 K = rows(bz.units()); L3 dims{s.integer(1, 6), l.d > 1 ? s.integer(1, 5) : 1, l.d > 2 ? s.integer(1, 4) : 1}; bool cube = s.chance(1, 4); if (cube) dims = {dims[0], l.d > 1 ? dims[0] : 1, l.d > 2 ? dims[0] : 1}; mesh::brzone m = cube ? mesh::brzone(bz, dims[0]) : mesh::brzone(bz, dims); s.say(l.d, "d ", dims[0], "x", dims[1], "x", dims[2], " units ", l.u);
  points(m, dims, "zone mesh"); auto val = [&](L3 i) { return K.mul({double(i[0]) / dims[0], l.d > 1 ? double(i[1]) / dims[1] : 0, l.d > 2 ? double(i[2]) / dims[2] : 0}); };
  for (auto p : m) { D3 v = val(p.index()); VP_REQUIRE(same(p.value(), v, 1e-10), "value of a mesh point"); VP_REQUIRE(same(m.to_value(p.index()), v, 1e-10), "value of an index"); VP_REQUIRE(std::abs(p[0] - v[0]) < 1e-10, "component of a mesh point"); VP_REQUIRE(m[mesh::closest_mesh_pt(p.value())].index() == p.index() && m.closest_index(p.value()) == p.index(), "the mesh point closest to a mesh point"); }
  long N = m.size(); long a = s.integer(0, N - 1), b = s.integer(0, N - 1); auto A = m[a]; auto B = m[b]; L3 ia = A.index(), ib = B.index(); auto fold = [&](L3 x) { return m.to_data_index(L3{pm(x[0], dims[0]), pm(x[1], dims[1]), pm(x[2], dims[2])}); }; VP_REQUIRE(m.to_data_index(A + B) == fold({ia[0] + ib[0], ia[1] + ib[1], ia[2] + ib[2]}) && m.to_data_index(A - B) == fold({ia[0] - ib[0], ia[1] - ib[1], ia[2] - ib[2]}) && m.to_data_index(-A) == fold({-ia[0], -ia[1], -ia[2]}) && m.to_data_index(-3l * A) == fold({-3 * ia[0], -3 * ia[1], -3 * ia[2]}), "sums of mesh points");
  { D3 va = val(ia), vb = val(ib); auto e = A - B; VP_REQUIRE(same(e.value(), sub(va, vb), 1e-10), "value of a difference"); auto e2 = A + 2l * B; VP_REQUIRE(same(e2.value(), {va[0] + 2 * vb[0], va[1] + 2 * vb[1], va[2] + 2 * vb[2]}, 1e-9), "value of a sum"); VP_REQUIRE(m.to_data_index(A + 2l * B) == fold({ia[0] + 2 * ib[0], ia[1] + 2 * ib[1], ia[2] + 2 * ib[2]}), "nested sum"); L3 big{s.integer(-20, 20), s.integer(-20, 20), s.integer(-20, 20)}; VP_REQUIRE(m.index_modulo(big) == (L3{pm(big[0], dims[0]), pm(big[1], dims[1]), pm(big[2], dims[2])}), "folded index"); }
  { h5::file f{}; h5::write(f, "m", m); mesh::brzone m2; h5::read(f, "m", m2); VP_REQUIRE(m2 == m && m2.dims() == dims && m2.mesh_hash() == m.mesh_hash() && m2.bz() == m.bz(), "zone mesh read from a file"); char const *nm = s.pick(std::vector<char const *>{"bz", "brillouin_zone"}); old_file<mesh::brzone>(f, dims, nm, bz); mesh::brzone m3; h5::read(f, "old", m3); VP_REQUIRE(m3 == m && m3.dims() == dims && m3.bz() == bz && m3.mesh_hash() == m.mesh_hash(), "zone mesh read from an older file"); } auto cp = m; VP_REQUIRE(cp == m, "copy");
  { L3 o = dims; std::swap(o[0], o[1]); VP_REQUIRE((mesh::brzone(bz, o) == m) == (o == dims), "meshes of dimensions ", dims[0], ",", dims[1], " and ", o[0], ",", o[1], " are compared"); o = dims; o[s.raw(2)]++; VP_REQUIRE(mesh::brzone(bz, o) != m, "meshes of different size are equal"); if (l.d == 2) { nda::matrix<double> t(2, 2); t(0, 0) = l.u(1, 1); t(1, 1) = l.u(0, 0); t(0, 1) = l.u(0, 1); t(1, 0) = l.u(1, 0); if (t != l.u) VP_REQUIRE(mesh::brzone(brillouin_zone(bravais_lattice(t)), dims) != m, "meshes of different zones are equal"); } }
  // interpolation
  std::vector<dc> f(N); for (auto &x : f) x = s.cplx(-1, 1); auto F = [&](L3 i) { return f[m.to_data_index(i)]; }; D3 c{s.generic(-2, 2), l.d > 1 ? s.generic(-2, 2) : 0, l.d > 2 ? s.generic(-2, 2) : 0}; if (s.chance(1, 4)) c[0] = double(s.integer(-4, 4)) / double(dims[0]); D3 kv = K.mul(c); dc want = 0; std::array<double, 3> x, w; L3 i0; for (int i = 0; i < 3; ++i) { x[i] = c[i] * dims[i]; i0[i] = long(std::floor(x[i])); w[i] = x[i] - i0[i]; }
  for (int q = 0; q < 8; ++q) { double W = 1; L3 id; for (int i = 0; i < 3; ++i) { int o = (q >> i) & 1; W *= o ? w[i] : 1 - w[i]; id[i] = pm(i0[i] + o, dims[i]); } want += W * F(id); } dc got = evaluate(m, F, vec(kv)); VP_CLOSE(got, want, 1e-7, "interpolated value at coordinates ", c[0], ",", c[1], ",", c[2]); VP_CLOSE(dc(evaluate(m, F, A + B)), F(m.to_index(fold({ia[0] + ib[0], ia[1] + ib[1], ia[2] + ib[2]}))), 1e-7, "value at a sum of mesh points"); L3 big{s.integer(-20, 20), s.integer(-20, 20), s.integer(-20, 20)}; VP_CLOSE(dc(evaluate(m, F, big)), F({pm(big[0], dims[0]), pm(big[1], dims[1]), pm(big[2], dims[2])}), 0, "value at an index"); nda::array<double, 1> ka(vec(kv)); VP_CLOSE(dc(evaluate(m, F, ka)), got, 0, "value at an array");
  s.nontrivial(l.d > 1 && N > 2); }
// the closest mesh point, compared with all points and all their images
VP_TEST(closest_momentum) {
  Lat l = gen(s); bravais_lattice bl = make(l); brillouin_zone bz(bl); U3 K = rows(bz.units()); L3 dims{s.integer(1, 5), l.d > 1 ? s.integer(1, 4) : 1, l.d > 2 ? s.integer(1, 3) : 1}; mesh::brzone m(bz, dims); D3 c{s.generic(-2, 2), l.d > 1 ? s.generic(-2, 2) : 0, l.d > 2 ? s.generic(-2, 2) : 0}; D3 k = K.mul(c); s.say(l.d, "d ", dims[0], "x", dims[1], "x", dims[2], " units ", l.u, " momentum ", k[0], " ", k[1], " ", k[2]);
  auto best = [&](L3 i) { double r = 1e300; int R = 6; for (int x = -R; x <= R; ++x) for (int y = l.d > 1 ? -R : 0; y <= (l.d > 1 ? R : 0); ++y) for (int z = l.d > 2 ? -R : 0; z <= (l.d > 2 ? R : 0); ++z) { D3 q{double(i[0]) / dims[0] + x, double(i[1]) / dims[1] + y, double(i[2]) / dims[2] + z}; r = std::min(r, norm(sub(K.mul(q), k))); } return r; };
  double least = 1e300; for (long d = 0; d < m.size(); ++d) least = std::min(least, best(m.to_index(d))); L3 got = m.closest_index(vec(k)); double dist = best(got); VP_REQUIRE(dist <= least + 1e-9, "the mesh point found is at a distance ", dist, ", the closest one at ", least); VP_REQUIRE(m[mesh::closest_mesh_pt(vec(k))].index() == got, "closest mesh point"); s.nontrivial(l.d > 1 && m.size() > 2); }
VP_TEST(lattice_mesh) {
  Lat l = gen(s); bravais_lattice bl = make(l); U3 u = rows(bl.units()); L3 dims{s.integer(1, 6), l.d > 1 ? s.integer(1, 5) : 1, l.d > 2 ? s.integer(1, 4) : 1}; bool cube = s.chance(1, 4); if (cube) dims = {dims[0], l.d > 1 ? dims[0] : 1, l.d > 2 ? dims[0] : 1}; mesh::cyclat m = cube ? mesh::cyclat(bl, dims[0]) : mesh::cyclat(bl, dims); s.say(l.d, "d ", dims[0], "x", dims[1], "x", dims[2], " units ", l.u); points(m, dims, "lattice mesh");
  for (auto p : m) { L3 i = p.index(); D3 v = u.mul({double(i[0]), l.d > 1 ? double(i[1]) : 0, l.d > 2 ? double(i[2]) : 0}); VP_REQUIRE(same(r_t(p), v, 1e-10) && same(r_t(p.value()), v, 1e-10) && same(r_t(m.to_value(i)), v, 1e-10), "position of a mesh point"); VP_REQUIRE(p.value().index() == i && m[mesh::closest_mesh_pt(p.value())].index() == i, "the mesh point closest to a mesh point"); }
  { h5::file f{}; h5::write(f, "m", m); mesh::cyclat m2(3, 2, 1); h5::read(f, "m", m2); VP_REQUIRE(m2 == m && m2.dims() == dims && m2.lattice() == bl && m2.mesh_hash() == m.mesh_hash(), "lattice mesh read from a file"); char const *nm = s.pick(std::vector<char const *>{"bl", "bravais_lattice"}); old_file<mesh::cyclat>(f, dims, nm, bl); mesh::cyclat m3(3, 2, 1); h5::read(f, "old", m3); VP_REQUIRE(m3 == m && m3.dims() == dims && m3.lattice() == bl && m3.mesh_hash() == m.mesh_hash(), "lattice mesh read from an older file"); } L3 big{s.integer(-20, 20), s.integer(-20, 20), s.integer(-20, 20)}, fb{pm(big[0], dims[0]), pm(big[1], dims[1]), pm(big[2], dims[2])}; VP_REQUIRE(m.index_modulo(big) == fb, "folded index"); auto F = [&](L3 i) { return double(m.to_data_index(i)); }; VP_REQUIRE(evaluate(m, F, big) == F(fb) && evaluate(m, F, bravais_lattice::point_t(big, &bl)) == F(fb), "value at a lattice point");
  { L3 o = dims; std::swap(o[0], o[1]); VP_REQUIRE((mesh::cyclat(bl, o) == m) == (o == dims), "meshes of dimensions ", dims[0], ",", dims[1], " and ", o[0], ",", o[1], " are compared"); o = dims; o[s.raw(2)]++; VP_REQUIRE(mesh::cyclat(bl, o) != m, "meshes of different size are equal"); if (l.d == 2) { nda::matrix<double> t(2, 2); t(0, 0) = l.u(1, 1); t(1, 1) = l.u(0, 0); t(0, 1) = l.u(0, 1); t(1, 0) = l.u(1, 0); if (t != l.u) VP_REQUIRE(mesh::cyclat(bravais_lattice(t), dims) != m, "meshes of different lattices are equal"); } } s.nontrivial(l.d > 1 && m.size() > 2); }
// tight binding
struct Hop { std::map<std::vector<long>, nda::matrix<dc>> h; std::vector<nda::vector<long>> R; std::vector<nda::matrix<dc>> t; };
static Hop hops(vp::Src &s, int d, int n, bool flat) {
  Hop o; auto rnd = [&]() { nda::matrix<dc> m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = s.cplx(-1, 1); return m; }; int k = flat ? 0 : int(s.integer(1, 3)); { auto m = rnd(); nda::matrix<dc> h = m + dagger(m); o.h[std::vector<long>(d, 0)] = h; } for (int i = 0; i < k; ++i) { std::vector<long> r(d), mr(d); for (int j = 0; j < d; ++j) { r[j] = s.integer(-2, 2); mr[j] = -r[j]; } if (o.h.count(r)) continue; auto m = rnd(); o.h[r] = m; o.h[mr] = dagger(m); } if (k && s.chance(1, 4)) o.h.erase(std::vector<long>(d, 0)); if (o.h.empty()) o.h[std::vector<long>(d, 0)] = nda::matrix<dc>(nda::eye<dc>(n));
  std::vector<std::vector<long>> keys; for (auto &x : o.h) keys.push_back(x.first); s.shuffle(keys); for (auto &r : keys) { nda::vector<long> v(d); for (int j = 0; j < d; ++j) v(j) = r[j]; o.R.push_back(v); o.t.push_back(o.h[r]); } return o; }
static nda::matrix<dc> ref_hk(Hop const &o, D3 k, int n) { nda::matrix<dc> h = nda::matrix<dc>::zeros(n, n); for (auto &[r, t] : o.h) { double ph = 0; for (size_t j = 0; j < r.size(); ++j) ph += k[j] * double(r[j]); dc e = std::exp(dc(0, 2 * M_PI * ph)); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) h(a, b) += e * t(a, b); } return h; }
template <typename A, typename B> static double dist(A const &a, B const &b) { double m = 0; if (a.shape() != b.shape()) return 1e300; for (long i = 0; i < a.shape()[0]; ++i) for (long j = 0; j < a.shape()[1]; ++j) m = std::max(m, std::abs(dc(a(i, j)) - dc(b(i, j)))); return m; }
VP_TEST(tight_binding) {
  Lat l = gen(s); int n = l.norb; Hop o = hops(s, l.d, n, s.chance(1, 8)); bravais_lattice bl = make(l); triqs::lattice::tight_binding tb(bl, o.R, o.t); s.say(l.d, "d ", n, " orbitals ", o.R.size(), " hoppings"); VP_REQUIRE(tb.n_orbitals() == n && tb.lattice() == bl && tb.displ_vec().size() == o.R.size(), "data");
  auto k1 = [&]() { return D3{s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1)}; }; auto kv = [&](D3 k, bool full) { nda::vector<double> v(full ? 3 : l.d); for (int i = 0; i < v.size(); ++i) v(i) = k[i]; return v; };
  auto spec = [&](nda::matrix<dc> const &h) { return nda::array<double, 1>(nda::linalg::eigenvalues(h)); };
  D3 k = k1(); auto want = ref_hk(o, k, n); for (bool full : {false, true}) { nda::matrix<dc> h = tb.fourier(kv(k, full)); VP_REQUIRE(dist(h, want) < 1e-10, "Hamiltonian at a momentum differs by ", dist(h, want)); VP_REQUIRE(dist(h, nda::matrix<dc>(dagger(h))) < 1e-10, "hermiticity"); auto e = tb.dispersion(kv(k, full)); auto w = spec(want); for (int i = 0; i < n; ++i) VP_CLOSE(e(i), w(i), 1e-9, "energy ", i); }
  int nk = int(s.integer(1, 5)); std::vector<D3> ks; for (int i = 0; i < nk; ++i) ks.push_back(k1()); for (bool full : {false, true}) { nda::matrix<double> K(nk, full ? 3 : l.d); for (int i = 0; i < nk; ++i) for (int j = 0; j < K.shape()[1]; ++j) K(i, j) = ks[i][j]; auto h = tb.fourier(K); auto e = tb.dispersion(K); for (int i = 0; i < nk; ++i) { auto w = ref_hk(o, ks[i], n); auto sp = spec(w); for (int a = 0; a < n; ++a) { VP_CLOSE(e(i, a), sp(a), 1e-9, "energy at momentum ", i); for (int b = 0; b < n; ++b) VP_CLOSE(dc(h(i, a, b)), dc(w(a, b)), 1e-10, "Hamiltonian at momentum ", i); } } }
  L3 dims{s.integer(1, 4), l.d > 1 ? s.integer(1, 3) : 1, l.d > 2 ? s.integer(1, 3) : 1}; bool cube = s.boolean(); if (cube) dims = {dims[0], l.d > 1 ? dims[0] : 1, l.d > 2 ? dims[0] : 1}; mesh::brzone m(brillouin_zone(bl), dims); auto hk = cube ? tb.fourier(int(dims[0])) : tb.fourier(m); auto ek = cube ? tb.dispersion(int(dims[0])) : tb.dispersion(m); VP_REQUIRE(hk.mesh() == m && ek.mesh() == m, "mesh of the Hamiltonian"); for (auto p : m) { auto i = p.index(); auto w = ref_hk(o, {double(i[0]) / dims[0], double(i[1]) / dims[1], double(i[2]) / dims[2]}, n); nda::matrix<dc> g = hk[p]; VP_REQUIRE(dist(g, w) < 1e-9, "Hamiltonian on the mesh"); auto sp = spec(w); for (int a = 0; a < n; ++a) VP_CLOSE(ek[p](a), sp(a), 1e-8, "energy on the mesh"); }
  { h5::file f{}; h5_write(f, "t", tb); auto t2 = triqs::lattice::tight_binding::h5_read_construct(f, "t"); VP_REQUIRE(t2 == tb && dist(nda::matrix<dc>(t2.fourier(kv(k, false))), want) < 1e-10, "Hamiltonian read from a file"); } long cnt = 0; double acc = 0; foreach (tb, [&](auto const &R, auto const &t) { VP_REQUIRE(R == o.R[cnt] && dist(t, o.t[cnt]) == 0, "hopping ", cnt); ++cnt; (void)acc; }); VP_REQUIRE(cnt == long(o.R.size()), "number of hoppings visited"); { auto t3 = o.t; size_t w = s.raw(t3.size() - 1); t3[w](0, 0) += 1; t3[w](0, 0) += dc(0, 0); auto R3 = o.R; bool zero = true; for (auto x : o.R[w]) zero &= x == 0; if (zero) { VP_REQUIRE(triqs::lattice::tight_binding(bl, R3, t3) != tb, "different Hamiltonians are equal"); t3[w](0, 0) += dc(0, 1); } VP_REQUIRE(vp::throws([&] { triqs::lattice::tight_binding x(bl, R3, t3); }), "a hopping which is not hermitian is accepted"); }
  { auto R3 = o.R; R3.pop_back(); VP_REQUIRE(vp::throws([&] { triqs::lattice::tight_binding x(bl, R3, o.t); }), "fewer displacements than matrices are accepted"); auto t3 = o.t; t3.back() = nda::matrix<dc>(nda::eye<dc>(n + 1)); VP_REQUIRE(vp::throws([&] { triqs::lattice::tight_binding x(bl, o.R, t3); }), "a matrix of the wrong size is accepted"); R3 = o.R; R3.back() = nda::vector<long>::zeros({l.d + 1}); VP_REQUIRE(vp::throws([&] { triqs::lattice::tight_binding x(bl, R3, o.t); }), "a displacement of the wrong size is accepted"); bool any = false; for (size_t i = 0; i < o.R.size() && !any; ++i) { bool z = true; for (auto x : o.R[i]) z &= x == 0; if (!z) { any = true; auto R4 = o.R; auto t4 = o.t; R4.erase(R4.begin() + long(i)); t4.erase(t4.begin() + long(i)); VP_REQUIRE(vp::throws([&] { triqs::lattice::tight_binding x(bl, R4, t4); }), "a hopping without its opposite is accepted"); } } }
  s.nontrivial(o.R.size() > 2 && (n > 1 || l.d > 1)); }
// stacks of momenta, paths and grids: functions of the library which no header declares, so they are looked up weakly
namespace triqs::lattice {
  __attribute__((weak)) nda::array<std::complex<double>, 3> hopping_stack(tight_binding const &, nda::array_const_view<double, 2>);
  __attribute__((weak)) nda::array<double, 2> energies_on_bz_path(tight_binding const &, k_t const &, k_t const &, int);
  __attribute__((weak)) nda::array<std::complex<double>, 3> energy_matrix_on_bz_path(tight_binding const &, k_t const &, k_t const &, int);
  __attribute__((weak)) nda::array<double, 2> energies_on_bz_grid(tight_binding const &, int);
} // namespace triqs::lattice
VP_TEST(paths_and_stacks) {
  namespace L = triqs::lattice; Lat l = gen(s); int n = l.norb; Hop o = hops(s, l.d, n, s.chance(1, 8)); L::tight_binding tb(make(l), o.R, o.t); int np = int(s.integer(1, 6)); s.say(l.d, "d ", n, " orbitals ", np, " points"); nda::vector<double> a(3), b(3); for (int j = 0; j < 3; ++j) { a(j) = s.generic(-1, 1); b(j) = s.generic(-1, 1); } auto at = [&](double t) { return D3{a(0) + t * (b(0) - a(0)), a(1) + t * (b(1) - a(1)), a(2) + t * (b(2) - a(2))}; };
  auto same = [&](auto const &got, nda::matrix<dc> const &w, char const *what, int i) { for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) VP_CLOSE(dc(got(x, y, i)), w(x, y), 1e-9, what, " ", i); }; auto levels = [&](auto const &got, nda::matrix<dc> const &w, char const *what, int i) { nda::array<double, 1> e = nda::linalg::eigenvalues(w); for (int x = 0; x < n; ++x) VP_CLOSE(got(x, i), e(x), 1e-8, what, " ", i); };
  if (&L::energy_matrix_on_bz_path != nullptr) { auto m = L::energy_matrix_on_bz_path(tb, a, b, np); VP_REQUIRE(m.shape() == (std::array<long, 3>{n, n, np}), "shape of the Hamiltonian on a path"); for (int i = 0; i < np; ++i) same(m, ref_hk(o, at(double(i) / np), n), "Hamiltonian on a path, point", i); }
  if (&L::energies_on_bz_path != nullptr) { auto e = L::energies_on_bz_path(tb, a, b, np); VP_REQUIRE(e.shape() == (std::array<long, 2>{n, np}), "shape of the energies on a path"); for (int i = 0; i < np; ++i) levels(e, ref_hk(o, at(double(i) / np), n), "energies on a path, point", i); }
  if (&L::hopping_stack != nullptr) { bool full = s.boolean(); nda::array<double, 2> K(full ? 3 : l.d, np); std::vector<D3> ks; for (int i = 0; i < np; ++i) { ks.push_back({s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1)}); for (int j = 0; j < K.shape()[0]; ++j) K(j, i) = ks[i][j]; } auto m = L::hopping_stack(tb, K); VP_REQUIRE(m.shape() == (std::array<long, 3>{n, n, np}), "shape of a stack"); for (int i = 0; i < np; ++i) same(m, ref_hk(o, ks[i], n), "Hamiltonian of a stack, momentum", i); }
  if (&L::energies_on_bz_grid != nullptr) { int q = int(s.integer(1, l.d == 3 ? 3 : 4)); auto e = L::energies_on_bz_grid(tb, q); int tot = 1; for (int j = 0; j < l.d; ++j) tot *= q; VP_REQUIRE(e.shape() == (std::array<long, 2>{n, tot}), "shape of the energies on a grid"); int i = 0; for (int z = 0; z < (l.d > 2 ? q : 1); ++z) for (int y = 0; y < (l.d > 1 ? q : 1); ++y) for (int x = 0; x < q; ++x, ++i) levels(e, ref_hk(o, {(x + 0.5) / q, (y + 0.5) / q, (z + 0.5) / q}, n), "energies on a grid, point", i); }
  s.nontrivial(np > 1 && o.R.size() > 2); }
// densities of states: bounds for each bin allow for energies at the edge of a bin
struct Pt { double e; std::vector<double> w; };
static void bins(std::vector<Pt> const &p, nda::array<double, 1> const &eps, nda::array<double, 2> const &rho, double scale, bool centred, int neps, int n) {
  double lo = 1e300, hi = -1e300; for (auto &x : p) { lo = std::min(lo, x.e); hi = std::max(hi, x.e); } double de = (hi - lo) / neps, tol = 1e-9 * (1 + std::abs(lo) + std::abs(hi)); VP_REQUIRE(eps.size() == neps && rho.shape()[0] == neps && rho.shape()[1] == n, "shape of the density of states"); for (int i = 0; i < neps; ++i) VP_CLOSE(eps(i), centred ? lo + (i + 0.5) * de : lo + i * (hi - lo) / (neps - 1.), tol, "energy ", i);
  for (int a = 0; a < neps; ++a) for (int o = 0; o < n; ++o) { double mn = 0, mx = 0; for (auto &x : p) { double l = lo + a * de, h = lo + (a + 1) * de; if (x.e > l + tol && x.e < h - tol) mn += x.w[o]; if ((x.e > l - tol && x.e < h + tol)) mx += x.w[o]; if (a == 0 && x.e <= l + tol) mn += 0; } double v = rho(a, o) * de / scale; VP_REQUIRE(v >= mn - 1e-7 && v <= mx + 1e-7, "weight of bin ", a, " of orbital ", o, " is ", v, " instead of ", mn, " to ", mx); }
  for (int o = 0; o < n; ++o) { double t = 0, w = 0; for (int a = 0; a < neps; ++a) t += rho(a, o) * de / scale; for (auto &x : p) w += x.w[o]; VP_CLOSE(t, w, 1e-7 * (1 + w), "total weight of orbital ", o); } }
VP_TEST(density_of_states) {
  Lat l = gen(s); int n = l.norb; bool flat = s.chance(1, 12); Hop o = hops(s, l.d, n, flat); triqs::lattice::tight_binding tb(make(l), o.R, o.t); int nk = int(s.integer(1, l.d == 3 ? 4 : 6)), neps = int(s.integer(1, 12)); s.say(l.d, "d ", n, " orbitals ", nk, " points ", neps, " bins"); std::vector<Pt> p; double np = 0;
  for (int x = 0; x < nk; ++x) for (int y = 0; y < (l.d > 1 ? nk : 1); ++y) for (int z = 0; z < (l.d > 2 ? nk : 1); ++z) { ++np; auto h = ref_hk(o, {(x + 0.5) / nk, (y + 0.5) / nk, (z + 0.5) / nk}, n); auto [e, v] = nda::linalg::eigenelements(h); for (int i = 0; i < n; ++i) { Pt q; q.e = e(i); for (int a = 0; a < n; ++a) q.w.push_back(std::norm(v(a, i))); p.push_back(q); } }
  double lo = 1e300, hi = -1e300; for (auto &x : p) { lo = std::min(lo, x.e); hi = std::max(hi, x.e); } if (hi - lo < 1e-6) { s.label("flat"); try { dos(tb, nk, neps); } catch (triqs::runtime_error const &) {} return; } auto [eps, rho] = dos(tb, nk, neps); bins(p, eps, rho, 1 / np, true, neps, n); s.nontrivial(neps > 2 && p.size() > 3); }
VP_TEST(density_of_patch) {
  Lat l; do { l = gen(s, 1); s.assume(l.d == 2 || s.chance(19, 20)); } while (l.d != 2); Hop o = hops(s, 2, 1, s.chance(1, 12)); triqs::lattice::tight_binding tb(make(l), o.R, o.t); int nt = int(s.integer(1, 3)), nd = int(s.integer(1, 5)), neps = int(s.integer(2, 9)); nda::array<double, 2> tri(3 * nt, 2); for (int i = 0; i < 3 * nt; ++i) for (int j = 0; j < 2; ++j) tri(i, j) = s.generic(-1, 1); std::vector<Pt> p; double tot = 0;
  for (int t = 0; t < nt; ++t) { auto P = [&](double a, double b) { D3 r{0, 0, 0}; for (int j = 0; j < 2; ++j) r[j] = tri(3 * t, j) + a * (tri(3 * t + 1, j) - tri(3 * t, j)) + b * (tri(3 * t + 2, j) - tri(3 * t, j)); return r; }; double area = 0.5 * std::abs((tri(3 * t + 1, 0) - tri(3 * t, 0)) * (tri(3 * t + 2, 1) - tri(3 * t, 1)) - (tri(3 * t + 1, 1) - tri(3 * t, 1)) * (tri(3 * t + 2, 0) - tri(3 * t, 0))); tot += area; for (int i = 0; i < nd; ++i) for (int j = 0; i + j < nd; ++j) { p.push_back({ref_hk(o, P((i + 1 / 3.) / nd, (j + 1 / 3.) / nd), 1)(0, 0).real(), {area / (nd * nd)}}); if (i + j + 1 < nd) p.push_back({ref_hk(o, P((i + 2 / 3.) / nd, (j + 2 / 3.) / nd), 1)(0, 0).real(), {area / (nd * nd)}}); } }
  double lo = 1e300, hi = -1e300; for (auto &x : p) { lo = std::min(lo, x.e); hi = std::max(hi, x.e); } if (hi - lo < 1e-6) { s.label("flat"); try { dos_patch(tb, tri, neps, nd); } catch (triqs::runtime_error const &) {} return; } auto [eps, d] = dos_patch(tb, tri, neps, nd); nda::array<double, 2> d2(neps, 1); for (int i = 0; i < neps; ++i) d2(i, 0) = d(i); bins(p, eps, d2, 1, false, neps, 1); (void)tot; s.nontrivial(nd > 1 && neps > 2); }
