PRE = 'import sys, os\nR = sys.argv[1]; D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, D)\nimport io, contextlib, warnings\nwarnings.simplefilter("ignore")\nwith contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):\n    import stubs; stubs.install()\nimport numpy as np\n'
S("twister_last_word", "C27", "c++/triqs/mc_tools/MersenneRNG.hpp", ("s1 = state[0], *p0 = *pM ^ (mixBits(s0, s1) >> 1) ^ (loBit(s1) ? K : 0U);", "s1 = state[0], *p0 = *pM ^ (mixBits(s0, s1) >> 1) ^ (loBit(s0) ? K : 0U);"),
  "more than 623 numbers drawn, so that the last word of a regenerated state is delivered, with the two parities different", "the last word of the regenerated state is wrong: the stream departs from the documented twister",
  cpp='''
#include <triqs/mc_tools/MersenneRNG.hpp>
#include <random>
#include <sstream>
int main() {
  for (uint32_t seed : {1u, 34788u, 928374u, 77u}) {
    std::ostringstream o; uint32_t x = seed | 1u; for (int i = 0; i < 624; ++i) { o << x << " "; x *= 69069u; } o << 624;
    std::mt19937 ref; std::istringstream is(o.str()); is >> ref;
    triqs::mc_tools::RandomGenerators::RandMT g(seed);
    for (int i = 0; i < 5000; ++i) if (g.randomMT() != ref()) return 1;
  }
}''', srcs=["mc_tools/MersenneRNG.cpp"])
S("partition_zigzag_erase", "C24", "c++/triqs/hilbert_space/space_partition.hpp", ("              (upwards ? Cd_connections : C_connections).erase(it);", "              (upwards ? Cd_connections : C_connections).erase(i_subspace);"),
  "a creation operator that connects one subspace to two different subspaces", "only the first connection of a subspace is followed: subspaces that have to be merged stay apart, so the operator no longer maps one subspace to one",
  cpp='''
#include <functional>
#include <map>
#include <vector>
#include <triqs/hilbert_space/space_partition.hpp>
struct State { using value_type = double; std::map<unsigned, double> v; unsigned n = 0; double &operator()(unsigned i) { return v[i]; } unsigned size() const { return n; } };
State make_zero_state(State const &s) { return {{}, s.n}; }
template <typename F> void foreach (State const &s, F f) { for (auto &[i, a] : s.v) f(i, a); }
struct Op { std::vector<std::map<unsigned, double>> col; bool is_empty() const { return col.empty(); }
  State operator()(State const &s) const { State r{{}, s.n}; for (auto &[i, a] : s.v) if (a) for (auto &[f, m] : col[i]) r.v[f] += m * a; return r; } };
int main() {
  int n = 6; Op H; H.col.resize(n); H.col[0][1] = H.col[1][0] = 1; // subspace {0,1}
  Op Cd, C; Cd.col.resize(n); C.col.resize(n); Cd.col[0][3] = 1; C.col[3][0] = 1; Cd.col[1][4] = 1; C.col[4][1] = 1;
  State st{{}, 6}; triqs::hilbert_space::space_partition<State, Op> p(st, H); p.merge_subspaces(Cd, C);
  return p.lookup_basis_state(3) == p.lookup_basis_state(4) && p.n_subspaces() == 4 ? 0 : 1; // {0,1} {2} {3,4} {5}
}''')
S("deadline_overflow", "C39", "c++/triqs/utility/callbacks.cpp", ("auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);", "auto end_time = std::chrono::system_clock::now() + std::chrono::milliseconds(1000 * time_in_seconds);"),
  "a time limit above 2147483 seconds (a run of more than 24 days)", "the deadline overflows and the run stops at once",
  cpp='''
#include <triqs/utility/callbacks.hpp>
int main() { for (int t : {2200000, 3000000, 4000000}) { auto cb = triqs::utility::clock_callback(t); if (cb()) return 1; } }''', srcs=["utility/callbacks.cpp", "utility/signal_handler.cpp"])
S("guard_assignment", "C38", "c++/triqs/utility/scope_guard.hpp", ("        swap(active_, rhs.active_);", "        active_ = rhs.active_;"),
  "a guard that was dismissed is assigned from an active one", "after the assignment both guards are active: the function of the dismissed guard runs",
  cpp='''
#include <triqs/utility/scope_guard.hpp>
#include <functional>
int main() { int a = 0, b = 0; { using G = triqs::utility::scope_guard<std::function<void()>>; G g([&] { ++a; }), h([&] { ++b; }); g.dismiss(); g = std::move(h); } return a == 0 && b == 1 ? 0 : 1; }''')
S("bessel_small_argument", "C38", "c++/triqs/utility/legendre.cpp", ("  if (x == 0) return (n == 0 ? 1.0 : 0);", "  if (x < 1e-3) return (n == 0 ? 1.0 : 0);"),
  "an argument between 0 and 1e-3", "small arguments are treated as 0: i_1(x) = x/3 is lost",
  cpp='''
#include <triqs/utility/legendre.hpp>
#include <cmath>
int main() { for (double x : {9e-4, 1e-4, 1e-6}) if (std::abs(triqs::utility::mod_cyl_bessel_i(1, x) - x / 3) > 1e-3 * x) return 1; }''', srcs=["utility/legendre.cpp"])
S("block_init_by_position", "C04", "python/triqs/gf/block_gf.py", ("            for (i,g) in self: g << A[i]\n", "            for (i,g),(j,a) in zip(self, A): g << a\n"),
  "two block functions with the same blocks in a different order", "assigning a block Green function copies by position instead of by name",
  py=PRE + '''
from triqs.gf import Gf, BlockGf, MeshImFreq
m = MeshImFreq(beta=3., S="Fermion", n_iw=4) if True else None
def mk(v): g = Gf(mesh=m, target_shape=[2, 2]); g.data[...] = v; return g
A = BlockGf(name_list=["up", "dn"], block_list=[mk(1), mk(2)]); B = BlockGf(name_list=["dn", "up"], block_list=[mk(5), mk(6)])
A << B
sys.exit(0 if np.all(A["up"].data == 6) and np.all(A["dn"].data == 5) else 1)''', stubs=True)
S("left_matrix_product_mesh", "C03", "python/triqs/gf/gf.py", ("axes=([-1], [-2])), 0, -2)", "axes=([-1], [-2])), 0, 1)"),
  "a matrix multiplied from the left to a Green function of two variables", "the axes of the result are those of the one-variable case: the data are permuted",
  py=PRE + '''
from triqs.gf import Gf, MeshImFreq, MeshProduct
m = MeshImFreq(beta=3., S="Fermion", n_iw=2)
g = Gf(mesh=MeshProduct(m, m), target_shape=[2, 2]); r = np.random.RandomState(1); g.data[...] = r.normal(size=g.data.shape)
a = np.array([[1., 2.], [3., 4.]])
try: ok = np.allclose((a * g).data, np.einsum("ij,abjk->abik", a, g.data))
except Exception: ok = False
sys.exit(0 if ok else 1)''', stubs=True)
S("diagonal_part_anomalous", "C02", "python/triqs/operators/util/hamiltonians.py", ("        if c_ind == c_dag_ind: # This monomial is of n-type", "        if c_ind <= c_dag_ind: # This monomial is of n-type"),
  "an operator with a monomial that has more creation than annihilation operators (pairing field)", "anomalous monomials are returned as part of the density part",
  py=PRE + '''
from triqs.operators import c, c_dag, n, Operator
from triqs.operators.util.hamiltonians import diagonal_part
H = 2 * n("up", 0) * n("dn", 0) + 3 * c_dag("up", 0) * c_dag("dn", 0) * c("dn", 0) + 1.5 * c_dag("up", 0) * c_dag("up", 1)
sys.exit(0 if (diagonal_part(H) - 2 * n("up", 0) * n("dn", 0)).is_zero() else 1)''', stubs=True)
S("semicircle_shifted_band", "C05", "python/triqs/gf/descriptors.py", ("              if (om > -D) and (om < D):", "              if (om_.real > -D) and (om_.real < D):"),
  "a real-frequency semicircular function with a chemical potential, at a frequency between the shifted and the unshifted band edge", "the band is tested before the shift: wrong values near the band edges",
  py=PRE + '''
from triqs.gf import Gf, MeshReFreq, SemiCircular
m = MeshReFreq(-3., 3., 61); g = Gf(mesh=m, target_shape=[1, 1]); D, mu = 1., .5
g << SemiCircular(D, mu)
for w, v in zip(m, g.data[:, 0, 0]):
    x = w.real + mu
    e = 2 * (x - 1j * np.sqrt(D * D - x * x)) if abs(x) < D else 2 * (x - np.sign(x) * np.sqrt(x * x - D * D))
    if abs(e - v) > 1e-9: sys.exit(1)''', stubs=True)
S("density_above_band", "C08", "python/triqs/dos/dos.py", ("            ind = self.eps.shape[0]\n\n", "            ind = self.eps.shape[0] - 1\n\n"),
  "a chemical potential above the last tabulated energy", "the density keeps growing with the chemical potential above the band (it extrapolates the last interval)",
  py=PRE + '''
from triqs.dos import DOS
e = np.linspace(-1, 1, 201); d = DOS(e, np.full(201, .5), "x")
sys.exit(0 if abs(d.density(5.) - 1) < 1e-9 and abs(d.density(1.5) - 1) < 1e-9 else 1)''', stubs=True)
S("barrier_single_test", "C09", "python/triqs/utility/mpi_mpi4py.py", ("        while not req.Test():\n", "        if not req.Test():\n"),
  "a process that reaches the barrier long after the others", "the barrier tests its request twice at most: fast processes leave it before the slow ones arrive",
  py='''
import sys, os, types, threading, time
R = sys.argv[1]
class Req:
    def __init__(s): s.n = 0
    def Test(s): s.n += 1; return s.n > 5
class Comm:
    rank = 0; size = 2
    def Get_rank(s): return 0
    def Get_size(s): return 2
    def Ibarrier(s): s.req = Req(); return s.req
    def barrier(s): pass
    def __getattr__(s, n): return lambda *a, **k: None
M = types.ModuleType("mpi4py"); MPI = types.ModuleType("mpi4py.MPI"); MPI.COMM_WORLD = Comm(); MPI.SUM = 0; MPI.Intracomm = Comm; M.MPI = MPI
sys.modules["mpi4py"] = M; sys.modules["mpi4py.MPI"] = MPI
ns = {"__name__": "m"}; exec(compile(open(R + "/python/triqs/utility/mpi_mpi4py.py").read(), "m", "exec"), ns)
ns["barrier"](); sys.exit(0 if MPI.COMM_WORLD.req.n > 5 else 1)''')
S("h5diff_nested_precision", "C11", "python/triqs/utility/h5diff.py", ("                compare(key, x, y, level+1, precision)", "                compare(key, x, y, level+1, 1.e-6)"),
  "arrays or Green functions inside a list of the archive, compared with a precision other than the default", "the requested precision is ignored inside lists",
  py=PRE + '''
import triqs.utility.h5diff as H
a = [np.array([1., 2.])]; b = [np.array([1., 2. + 1e-4])]
del H.failures[:]; H.compare("k", a, b, 0, 1e-2); ok = not H.failures
del H.failures[:]; H.compare("k", [np.array([1.])], [np.array([1. + 1e-8])], 0, 1e-10); ok = ok and H.failures
sys.exit(0 if ok else 1)''', stubs=True)
S("bisect_tolerance_of_bracket", "C07", "python/triqs/utility/bound_and_bisect.py", ("x = scipy.optimize.bisect(F, a, b, xtol=xtol, maxiter=maxiter)", "x = scipy.optimize.bisect(F, a, b, xtol=xtol*(1.0+b-a), maxiter=maxiter)"),
  "a bracket much wider than 1 (large increment)", "the tolerance on the root grows with the bracket: the root is less accurate than requested",
  py=PRE + '''
from triqs.utility.bound_and_bisect import bound_and_bisect
for r in (.1234567, 3.3333, -7.77, 12.345):
    x, fx = bound_and_bisect(lambda x: x - r, 0., dx=64., xtol=1e-3, verbosity=0)
    if abs(x - r) > 1e-3: sys.exit(1)''', stubs=True)
S("superlattice_names", "C06", "python/triqs/lattice/super_lattice.py", ("for o in orbital_index_list for pos in site_index_list]", "for pos in site_index_list for o in orbital_index_list]"),
  "a superlattice with several sites per cell of a lattice with several orbitals", "the names of the orbitals do not follow the order of their positions and hoppings",
  py=PRE + '''
from triqs.lattice.tight_binding import TBLattice
from triqs.lattice.super_lattice import TBSuperLattice
t = TBLattice(units=[(1, 0), (0, 1)], hoppings={(1, 0): np.diag([1., 2.]), (-1, 0): np.diag([1., 2.])}, orbital_positions=[(0, 0, 0), (.5, 0, 0)], orbital_names=["s", "p"])
s = TBSuperLattice(t, [(2, 0), (0, 1)])
ok = all(s.orbital_names[s.pack_index_site_orbital(i, o)] == "%d_%s" % (i + 1, "sp"[o]) for i in range(2) for o in range(2))
sys.exit(0 if ok else 1)''', stubs=True)
S("complex_basis_change", "C01", "python/triqs/operators/util/U_matrix.py", ('np.einsum("ij,kl,jlmo,mn,op",np.conj(T),np.conj(T),', 'np.einsum("ij,kl,jlmo,mn,op",np.conj(T),T,'),
  "a complex transformation of the interaction", "one of the two creation operators is transformed with T instead of its conjugate: invisible for real transformations",
  py=PRE + '''
from triqs.operators.util.U_matrix import transform_U_matrix
r = np.random.RandomState(3); U = r.normal(size=(2, 2, 2, 2)); T = np.linalg.qr(r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2)))[0]
w = np.einsum("ai,bj,ijkl,ck,dl->abcd", T.conj(), T.conj(), U, T, T)
sys.exit(0 if np.allclose(transform_U_matrix(U, T), w) else 1)''', stubs=True)
S("regenerated_order", "C20", "c++/triqs/det_manip/det_manip.hpp", ("m(i, col_num[i]) = 1;", "m(i, row_num[i]) = 1;"),
  "rows and columns inserted at different positions, then the inverse computed again from scratch", "the elements of the recomputed inverse are laid out with the order of the rows on both sides: later ratios of determinants are wrong",
  shim=True, cpp='''
#include <cmath>
#include <cstdio>
#include <triqs/det_manip/det_manip.hpp>
struct F { double operator()(double x, double y) const { return 1 / (1 + x + 2 * y) + (std::fabs(x - y) < .01); } };
static double det(std::vector<double> const &x, std::vector<double> const &y) { // expansion along the first row
  if (x.empty()) return 1; double r = 0; std::vector<double> a(x.begin() + 1, x.end());
  for (size_t j = 0; j < y.size(); ++j) { auto b = y; b.erase(b.begin() + j); r += (j % 2 ? -1 : 1) * F{}(x[0], y[j]) * det(a, b); } return r; }
int main() {
  triqs::det_manip::det_manip<F> d(F{}, 10); std::vector<double> x, y;
  long pos[5][2] = {{0, 0}, {0, 1}, {2, 0}, {1, 3}, {0, 2}};
  for (int k = 0; k < 5; ++k) { double a = .3 * k + .1, b = .3 * ((k * 2) % 5) + .1; d.insert(pos[k][0], pos[k][1], a, b); x.insert(x.begin() + pos[k][0], a); y.insert(y.begin() + pos[k][1], b); }
  d.regenerate(); double w = det(x, y);
  if (std::fabs(d.determinant() - w) > 1e-9 * std::fabs(w)) return 1;
  for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { // the inverse, by cofactors
    auto a = x; a.erase(a.begin() + i); auto b = y; b.erase(b.begin() + j); double e = ((i + j) % 2 ? -1 : 1) * det(a, b) / w;
    if (std::fabs(d.inverse_matrix(j, i) - e) > 1e-7 * (1 + std::fabs(e))) return 1; }
  return 0; }''')
S("sign_beyond_32_modes", "C23", "c++/triqs/hilbert_space/imperative_operator.hpp", ("for (int i = 0; i < 64; ++i)", "for (int i = 0; i < 32; ++i)"),
  "an operator acting on a state with occupied modes above number 32", "the sign counts only the crossed particles in the lower half of the word",
  shim=True, srcs=("operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"), cpp='''
#include <cstdio>
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
using namespace triqs::hilbert_space; using namespace triqs::operators;
int main() {
  fundamental_operator_set f; for (int i = 0; i < 50; ++i) f.insert("m", i);
  for (int p : {3, 20, 34, 40}) {
    std::vector<sub_hilbert_space> s(2); s[0].set_index(0); s[1].set_index(1);
    uint64_t occ = (uint64_t(1) << p) | (uint64_t(1) << 36) | 4; if (p == 36) continue; uint64_t to = uint64_t(1) << 45;
    s[0].add_fock_state(occ); s[1].add_fock_state((occ & ~(uint64_t(1) << p)) | to);
    auto op = c_dag("m", 45) * c("m", p); imperative_operator<sub_hilbert_space, double, true> io(op, f, {1, -1}, &s);
    state<sub_hilbert_space, double, false> a(s[0]); a(0) = 1; auto b = io(a);
    int crossed = 0; for (int k = p + 1; k < 45; ++k) crossed += (occ >> k) & 1;
    if (b(0) != (crossed % 2 ? -1. : 1.)) return 1; }
  return 0; }''')
S("hermitian_hoppings_only_real", "C31", "c++/triqs/lattice/tight_binding.cpp", ("if (max_element(abs(overlap_mat_vec_[i] - dagger(overlap_mat_vec_[j]))) > 1.e-12)", "if (max_element(abs(overlap_mat_vec_[i] - transpose(overlap_mat_vec_[j]))) > 1.e-12)"),
  "complex hoppings (spin-orbit coupling, a flux)", "a hermitian set of complex hoppings is refused, and a set which is only symmetric is accepted and gives a Hamiltonian which is not hermitian",
  shim=True, srcs=("lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp", "lattice/tight_binding.cpp"), cpp='''
#include <complex>
#include <cstdio>
#include <triqs/lattice/tight_binding.hpp>
using namespace triqs::lattice; using dc = std::complex<double>;
int main() {
  bravais_lattice bl{nda::matrix<double>{{1, 0}, {0, 1}}}; nda::vector<long> r{1, 0}, l{-1, 0};
  nda::matrix<dc> a{{dc(.5, .25)}}, b{{dc(.5, -.25)}};
  try { tight_binding t(bl, {r, l}, {a, b}); nda::vector<double> k{.1, .2}; auto h = t.fourier(k); if (std::abs(std::imag(dc(h(0, 0)))) > 1e-12) return 1; } catch (std::exception const &) { return 1; }
  try { tight_binding t(bl, {r, l}, {a, a}); return 1; } catch (std::exception const &) {}
  return 0; }''')
S("fourth_moment_ignored", "C34", "c++/triqs/gfs/transform/fourier_matsubara.cpp", ("std::min<size_t>(known_moments.shape()[0], 4)", "std::min<size_t>(known_moments.shape()[0], 3)"),
  "the third moment of a function transformed to Matsubara frequencies is given", "the given moment is dropped: the result is only as good as without it",
  shim=True, srcs=("gfs/transform/fourier_matsubara.cpp", "gfs/transform/fourier_common.cpp"), cpp='''
#include <cstdio>
#include <triqs/gfs.hpp>
using namespace triqs::gfs; using namespace triqs::mesh; using dc = std::complex<double>;
int main() { double beta = 8, e = 1.7; long N = 40;
  nda::array<dc, 3> m(4, 1, 1); m() = 0; double p = 1; for (int k = 1; k < 4; ++k) { m(k, 0, 0) = p; p *= e; }
  gf<imtime, matrix_valued> t{{beta, Fermion, 12 * N + 1}, {1, 1}}; for (auto x : t.mesh()) t[x] = -std::exp(-e * double(x)) / (1 + std::exp(-e * beta));
  gf<imfreq, matrix_valued> g{{beta, Fermion, N}, {1, 1}}; g() = fourier(gf_const_view<imtime, matrix_valued>{t}, nda::array_const_view<dc, 3>{m});
  double err = 0; for (auto w : g.mesh()) err = std::max(err, std::abs(g[w](0, 0) - 1 / (dc(w) - e)));
  std::printf("%g\\n", err); return err < 3e-9 ? 0 : 1; }''')
S("block_tail_moments", "C35", "c++/triqs/gfs/functions/functions2.hpp", ("known_moments.empty() ? fit_hermitian_tail<N, typename BG::g_t>(g_bl) : fit_hermitian_tail<N, typename BG::g_t>(g_bl, known_moments[i]);", "known_moments.empty() ? fit_hermitian_tail<N, typename BG::g_t>(g_bl) : fit_hermitian_tail<N, typename BG::g_t>(g_bl, known_moments[0]);"),
  "a block function fitted with known moments which differ from block to block", "every block is fitted with the known moments of the first one",
  shim=True, cpp='''
#include <cstdio>
#include <triqs/gfs.hpp>
using namespace triqs::gfs; using namespace triqs::mesh; using dc = std::complex<double>;
int main() { double c[2] = {1, 2}; auto m = imfreq{10., Fermion, 60}; std::vector<gf<imfreq, matrix_valued>> v; std::vector<nda::array<dc, 3>> km;
  for (int b = 0; b < 2; ++b) { gf<imfreq, matrix_valued> g{m, {1, 1}}; for (auto w : m) g[w](0, 0) = c[b] / (dc(w) - .5); v.push_back(g); nda::array<dc, 3> k(2, 1, 1); k() = 0; k(1, 0, 0) = c[b]; km.push_back(k); }
  block_gf<imfreq, matrix_valued> G{{"a", "b"}, v}; auto [t, err] = fit_hermitian_tail(G, km);
  for (int b = 0; b < 2; ++b) if (std::abs(t[b](1, 0, 0) - c[b]) > 1e-10 || std::abs(t[b](2, 0, 0) - c[b] * .5) > 1e-3) { std::printf("%d %g\\n", b, std::abs(t[b](1, 0, 0) - c[b])); return 1; }
  return 0; }''')
S("real_below_zero", "C33", "c++/triqs/gfs/functions/functions2.hpp", ("return max_element(abs(imag(g.data()))) <= tolerance;", "return max_element(imag(g.data())) <= tolerance;"),
  "a function whose imaginary part is negative everywhere", "it counts as real",
  shim=True, cpp='''
#include <triqs/gfs.hpp>
using namespace triqs::gfs; using namespace triqs::mesh; using dc = std::complex<double>;
int main() { gf<imtime, matrix_valued> g{{10., Fermion, 11}, {2, 2}}; g() = 0; if (!is_gf_real(g)) return 1;
  g.data()(3, 0, 1) = dc(1, .5); if (is_gf_real(g)) return 1; g.data()(3, 0, 1) = dc(1, -.5); if (is_gf_real(g)) return 1;
  return 0; }''')
