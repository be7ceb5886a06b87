"""Density of states, Hilbert transform and sums over k."""
from gfcommon_loader import *
import tempfile, os, pickle
from triqs.dos import DOS, DOSFromFunction, HilbertTransform
from triqs.dos.dos import dos_from_file
from triqs.sumk import SumkDiscrete, SumkDiscreteFromLattice
from triqs.lattice.tight_binding import TBLattice
from triqs.lattice.bz_patch import BZPatch
import triqs.utility.mpi as mpi
from props import c06
RULE = "generated densities of states, lattices, self-energies (constant, k- or energy-dependent), fields, chemical potentials and rank numbers; oracle: the defining sum, closed forms and quadrature"

class ranks:
    """the arrays of one rank out of `size`; the reduction is done by the caller"""
    def __init__(self, rank, size): self.r, self.s = rank, size
    def __enter__(self):
        self.old = mpi.slice_array
        def sl(A):
            n = len(A); q, m = divmod(n, self.s); lo = self.r * q + min(self.r, m); return A[lo:lo + q + (self.r < m)]
        mpi.slice_array = sl
    def __exit__(self, *a): mpi.slice_array = self.old; return False

# ---- DOS
def pl_integral(e, r, mu):
    """integral of the piecewise linear interpolation up to mu"""
    s = 0.0
    for i in range(len(e) - 1):
        if mu >= e[i + 1]: s += .5 * (r[i] + r[i + 1]) * (e[i + 1] - e[i])
        elif mu > e[i]:
            x = (mu - e[i]) / (e[i + 1] - e[i]); s += (mu - e[i]) * .5 * (r[i] + r[i] + x * (r[i + 1] - r[i]))
    return s
def u_density(case):
    n, lo, w, s, f = case; mu = lo + f * w
    e = np.linspace(lo, lo + w, n); rho = rng(s).uniform(0, 1, n)
    D = DOS(e, rho, "d"); got = D.density(mu); want = pl_integral(e, rho, mu)
    k = np.searchsorted(e, mu, side="right"); h = e[1] - e[0]
    tol = 1e-9 if k in (0, n) or abs(mu - e[k - 1]) < 1e-12 else .5 * abs(rho[k] - rho[k - 1]) * h + 1e-9   # the last, partial interval is treated to first order
    require(abs(got - want) <= tol, "density", got=got, want=want, case=case)
    g0 = D.density() ; require(abs(g0 - D.density(0)) == 0, "default chemical potential")
    i = rng(s).randint(0, n); close(D.density(e[i]), pl_integral(e, rho, e[i]), 1e-9, "density at a point of the mesh")
    close(D.density(lo + w + 1), pl_integral(e, rho, 1e9), 1e-9, "full band"); close(D.density(lo - 1), 0, 1e-12, "empty band")
def u_dos(case):
    n, s, nm = case
    r = rng(s); e = np.sort(r.uniform(-2, 2, n)); rho = r.uniform(0, 1, n)
    D = DOS(list(e) if s % 2 else e, rho, nm)
    for X in (D, D.copy(), pickle.loads(pickle.dumps(D)), DOS.__factory_from_dict__(nm, D.__reduce_to_dict__())):
        require(np.array_equal(X.eps, e) and np.array_equal(X.rho, rho) and X.name == nm, "copy / pickle / archive round trip")
    c = D.copy(); c.rho[0] += 1; require(D.rho[0] == rho[0], "a copy shares the data")
    p = D._plot_({})[0]; require(np.array_equal(p["xdata"], e) and np.array_equal(p["ydata"], rho) and p["label"] == nm, "plot protocol")
    for a in ((e, rho[:-1]), (e, rho.reshape(1, -1)), (e.reshape(-1, 1), rho)):
        raises((AssertionError, RuntimeError), lambda: DOS(*a), "inconsistent arrays accepted")
    f = lambda x: 1 / (1 + x * x); m = 3 + s % 40; F = DOSFromFunction(f, -1.5, 2.0, m, nm)
    close(F.eps, np.linspace(-1.5, 2.0, m), 1e-12, "mesh of DOSFromFunction"); close(F.rho, f(F.eps), 1e-12, "values of DOSFromFunction"); require(F.name == nm, "name")
    cls, a = F.__reduce__(); G = cls(*a); close(G.rho, F.rho, 0, "reduce of DOSFromFunction"); close(G.eps, F.eps, 0, "reduce of DOSFromFunction"); raises(AssertionError, lambda: DOSFromFunction(3, 0, 1), "not callable")
def u_file(case):
    n, no, s, blank, nm, sci = case
    A = rng(s).uniform(-1, 1, (n, no + 1)); A[:, 0] = np.sort(A[:, 0]); d = tempfile.mkdtemp(prefix="verif_dos_")
    try:
        f = os.path.join(d, "d.dat")
        with open(f, "w") as h:
            h.write("\n" * blank)
            for l in A: h.write("  ".join(("%.17e" if sci else "%.17f") % x for x in l) + "\n")
        L = dos_from_file(f, nm); require(len(L) == no, "one DOS per column")
        for i, D in enumerate(L): close(D.eps, A[:, 0], 1e-14, "energies"); close(D.rho, A[:, i + 1], 1e-14, "column", column=i); require(D.name == nm, "name")
        for i in range(1, no + 1): D = dos_from_file(f, nm, i); close(D.rho, A[:, i], 1e-14, "single orbital (counted from one)"); close(D.eps, A[:, 0], 1e-14, "energies")
        raises(AssertionError, lambda: dos_from_file(f, nm, no + 1), "orbital out of range accepted")
    finally:
        for x in os.listdir(d): os.unlink(os.path.join(d, x))
        os.rmdir(d)

# ---- Hilbert transform
def gf_sigma(r, mesh, n, small=.3):
    g = mk_gf(r, mesh, (n, n)); g.data[...] *= small; return g
def u_hilbert(case):
    n, ne, nw, s, mu, eta, fld, eh, sigf, given, uni, kind, size = case
    r = rng(s); mesh = MS.MeshImFreq(2.0, ["Fermion", "Boson"][s % 2], nw) if kind == 0 else MS.MeshReFreq(-1.3, 2.1, nw + 2)
    e = np.linspace(-2, 2, ne) if uni else np.sort(r.uniform(-2, 2, ne)) + .05 * np.arange(ne)
    rho = r.uniform(.1, 1, ne); rho0 = rho.copy(); H = HilbertTransform(DOS(e, rho))
    w = np.array(H.rho_for_sum); require(abs(w.sum() - 1) < 1e-12 and (w > 0).all(), "weights are normalised")
    cell = np.array([(e[i + 1] - e[i - 1]) / 2 for i in range(1, ne - 1)])
    if ne > 3: q = w[1:-1] / (rho[1:-1] * cell); require(np.abs(q / q[0] - 1).max() < 1e-10, "weights are rho times the size of the cell"); require(w[0] / (rho[0] * (e[1] - e[0])) < q[0] * (1 + 1e-9) and w[-1] / (rho[-1] * (e[-1] - e[-2])) < q[0] * (1 + 1e-9) and w[0] / (rho[0] * (e[1] - e[0])) > q[0] * .499, "weights of the end points")
    require(np.array_equal(rho, rho0), "the DOS is not modified")
    S0 = gf_sigma(r, mesh, n); M = rand_c(r, n, n) * .3
    Sig = (lambda x: S0 + x * M) if sigf else S0
    F = [None, M + M.conj().T, gf_sigma(r, mesh, n)][fld]
    E = rand_c(r, n, n); E = E + E.conj().T; EH = (lambda x: np.array([y * np.eye(n) + E * y * y * .2 for y in x])) if eh else None
    z = np.array([complex(p.value) for p in mesh]) + mu + 1j * eta
    want = np.zeros((len(z), n, n), complex)
    for wi, ei in zip(w, e):
        A = z[:, None, None] * np.eye(n) - (ei * np.eye(n) + (E * ei * ei * .2 if eh else 0)) - (S0.data + (ei * M if sigf else 0))
        if fld: A = A - (F if fld == 1 else F.data)
        if np.linalg.cond(A).max() > 1e6: raise Skip()
        want += wi * np.linalg.inv(A)
    res = mk_gf(r, mesh.copy(), (n, n)) if given else None; sd = S0.data.copy()
    out = H(Sig, mu=mu, eta=eta, field=F, epsilon_hat=EH, result=res)
    close(out.data, want, 1e-7, "Hilbert transform", case=case); require(eqm(out.mesh, mesh), "mesh")
    close(S0.data, sd, 0, "the self-energy is not modified")
    if given: require(out is res or np.array_equal(res.data, out.data), "result is computed in place")
    H2 = pickle.loads(pickle.dumps(H)); close(H2(Sig, mu=mu, eta=eta, field=F, epsilon_hat=EH).data, want, 1e-7, "after pickling")
    tot = 0
    for k in range(size):
        with ranks(k, size): tot = tot + H(Sig, mu=mu, eta=eta, field=F, epsilon_hat=EH).data
    close(tot, want, 1e-7, "sum of the contributions of the ranks", size=size)
    raises(AssertionError, lambda: H(S0, n_points_integral=7), "number of points accepted for a tabulated DOS")
    raises(AssertionError, lambda: H(mk_gf(r, mesh, (n, n + 1))), "non-square self-energy accepted")
    raises(AssertionError, lambda: HilbertTransform(3), "not a DOS")
    if not sigf: raises(AssertionError, lambda: H(lambda x, y: S0), "function of two variables accepted")
def u_hilbert_fun(case):
    D, npt, mu, conv, s, n0 = case
    mesh = MS.MeshImFreq(3.0, "Fermion", 3); z = np.array([complex(p.value) for p in mesh]) + mu
    f = lambda e: 2 / np.pi / D**2 * np.sqrt(max(D * D - e * e, 0.))
    H = HilbertTransform(DOSFromFunction(f, -D, D, n0)); S = Gf(mesh=mesh, target_shape=(1, 1)); S.zero()
    ex = 2 / D**2 * z * (1 - np.sqrt(1 - (D / z)**2))
    if conv is None:
        res = H(S, mu=mu, n_points_integral=npt); N = npt or n0
        e = np.linspace(-D, D, N); w = np.array([f(x) for x in e]); w = w / w.sum()
        close(res.data[:, 0, 0], (w[None, :] / (z[:, None] - e)).sum(1), 1e-9, "Hilbert transform of a function", case=case)
        require(np.abs(res.data[:, 0, 0] - ex).max() < 20 * (1 + D) / N**1.5 * max(1, np.abs(ex).max()), "convergence to the integral", got=res.data[:, 0, 0], want=ex, N=N)
    else:
        res = H(S, mu=mu, n_points_integral=npt, test_convergence=conv)
        require(np.abs(res.data[:, 0, 0] - ex).max() <= 3 * conv * np.abs(ex).max() + 1e-6, "refined until convergence", err=np.abs(res.data[:, 0, 0] - ex).max(), case=case)
        def at(N): e = np.linspace(-D, D, N); w = np.array([f(x) for x in e]); w = w / w.sum(); return (w[None, :] / (z[:, None] - e)).sum(1)
        N, nl = npt or n0, 1; old = at(N)
        while nl < 10:
            N *= 2; cur = at(N); q = np.abs(cur - old).max() / np.abs(cur).max(); old = cur; nl += 1
            if abs(q / conv - 1) < 1e-6: raise Skip()
            if q <= conv: break
        close(res.data[:, 0, 0], old, 1e-9, "the grid is doubled until two results agree", points=N, case=case)
        r2 = Gf(mesh=mesh, target_shape=(1, 1)); o = H(S, mu=mu, n_points_integral=npt, test_convergence=conv, result=r2); close(o.data, r2.data, 0, "result in place")

# ---- sum over k
def u_sumk(case):
    c, nk, blocks, nw, mu, fld, eh, sigf, given, s, size = case
    d, no, _, _ = c
    if nk**d > 70: nk = 3 if d < 3 else 2
    TB = c06.tbl(c); SK = SumkDiscreteFromLattice(lattice=TB, n_points=nk); H = TB.hoppings
    require(SK.n_kpts() == nk**d and SK.bz_points.shape == (nk**d, d), "number of k points"); close(SK.bz_weights, np.full(nk**d, 1. / nk**d), 1e-14, "weights")
    x = np.round((SK.bz_points - SK.bz_points[0]) * nk, 9); require(np.abs(x - np.round(x)).max() < 1e-7 and len({tuple(np.mod(np.round(y), nk)) for y in x}) == nk**d, "regular grid over the whole zone")
    for k, h in zip(SK.bz_points, SK.hopping): close(h, c06.Hk(H, k), 1e-11, "hopping at a k point")
    r = rng(s); mesh = MS.MeshImFreq(2.0, "Fermion", nw); names = ["up", "dn", "z"][:blocks]; N = 2 * no if eh else no
    S0 = BlockGf(name_list=names, block_list=[gf_sigma(r, mesh, N) for _ in names]); M = rand_c(r, N, N) * .2
    ph = lambda k: np.cos(2 * np.pi * k[0])
    nb = len(names)
    Sig = [S0, lambda k: S0 + nb * [ph(k) * M], lambda k, e: S0 + nb * [(ph(k) + e[0, 0]) * M]][sigf]
    F0 = [rand_c(r, N, N) * .3 for _ in names]; F = [None, F0, BlockGf(name_list=names, block_list=[gf_sigma(r, mesh, N) for _ in names])][fld]
    EH = (lambda e: np.kron(np.eye(2), e)) if eh else None
    z = np.array([complex(p.value) for p in mesh]) + mu
    def ref(kpts, wts):
        out = {}
        for ib, b in enumerate(names):
            t = np.zeros((len(z), N, N), complex)
            for k, w in zip(kpts, wts):
                h = c06.Hk(H, k); e = EH(h) if eh else h
                A = z[:, None, None] * np.eye(N) - e - S0[b].data
                if sigf == 1: A = A - ph(k) * M
                if sigf == 2: A = A - (ph(k) + h[0, 0]) * M
                if fld: A = A - (F0[ib] if fld == 1 else F[b].data)
                if np.linalg.cond(A).max() > 1e6: raise Skip()
                t += w * np.linalg.inv(A)
            out[b] = t
        return out
    want = ref(SK.bz_points, SK.bz_weights)
    res = BlockGf(name_list=names, block_list=[mk_gf(r, mesh.copy(), (N, N)) for _ in names]) if given else None
    sd = {b: g.data.copy() for b, g in S0}
    kw = dict(mu=mu, field=F, epsilon_hat=EH)
    out = SK(Sig, result=res, **kw)
    for b in names: close(out[b].data, want[b], 1e-7, "sum over k", block=b, case=case); close(S0[b].data, sd[b], 0, "self-energy unchanged")
    if given: require(out is res, "result is filled in place and returned")
    tot = {b: 0 for b in names}
    for k in range(size):
        with ranks(k, size):
            o = SK(Sig, **kw)
            for b in names: tot[b] = tot[b] + o[b].data
    for b in names: close(tot[b], want[b], 1e-7, "sum of the contributions of the ranks", size=size)
    P = pickle.loads(pickle.dumps(SK)); o = P(Sig, **kw)
    require(P.n_kpts() == SK.n_kpts(), "number of k points after pickling", got=P.n_kpts(), want=SK.n_kpts())
    for b in names: close(o[b].data, want[b], 1e-7, "after pickling")
    Q = r.uniform(-.5, .5, d); SK.Recompute_Grid(nk, Q=Q if s % 2 else list(Q))
    for k, k0 in zip(SK.bz_points, P.bz_points): close(k, k0 + Q, 1e-13, "shifted grid")
    want = ref(SK.bz_points, SK.bz_weights); o = SK(Sig, **kw)
    for b in names: close(o[b].data, want[b], 1e-7, "sum on the shifted grid")
    SK.Recompute_Grid(nk + 1); require(SK.n_kpts() == (nk + 1)**d, "grid is recomputed")
    bad = BlockGf(name_list=names, block_list=[gf_sigma(r, mesh, N + 1) for _ in names]); raises(AssertionError, lambda: SK(bad, epsilon_hat=EH), "wrong target shape accepted")
    raises(AssertionError, lambda: SK(3), "not a function"); raises(AssertionError, lambda: SK(lambda a, b, c: S0), "function of three variables accepted"); raises(AssertionError, lambda: SK(S0, selected_blocks=["up"], epsilon_hat=EH), "selected blocks")
    raises(AssertionError, lambda: SK(BlockGf(name_list=names, block_list=[mk_gf(r, MS.MeshReFreq(-1, 1, 4), (N, N)) for _ in names]), epsilon_hat=EH), "wrong mesh accepted")
    raises(AssertionError, lambda: SumkDiscreteFromLattice(lattice=3), "not a lattice"); raises(AssertionError, lambda: SK.Recompute_Grid(nk, method="x"), "unknown method")
def u_sumk_patch(case):
    c, ns, n, s, mu = case
    d, no, R, q = c; c = (2, no, tuple(x[:2] + (0,) * (2 - len(x)) for x in R), q)
    TB = c06.tbl(c); r = rng(s); pol = [[tuple(x) for x in c06.convex(m, r)] for m in ns]; P = BZPatch("p", pol)
    SK = SumkDiscreteFromLattice(lattice=TB, patch=P, n_points=n); nt = sum(m - 2 for m in ns)
    require(SK.n_kpts() == n * n * nt, "number of k points"); close(SK.bz_weights.sum(), 1, 1e-12, "weights are normalised")
    T = np.array(P._triangles).reshape(-1, 3, 2)
    for i, (t, w) in enumerate(zip(T, P._weights)):
        k = SK.bz_points[i * n * n:(i + 1) * n * n]; ww = SK.bz_weights[i * n * n:(i + 1) * n * n]
        close(ww, np.full(n * n, w / P.weight / n / n), 1e-12, "weights of a triangle")
        B = np.c_[t[1] - t[0], t[2] - t[0]]
        if abs(np.linalg.det(B)) < 1e-9: continue
        l = np.linalg.solve(B, (k - t[0]).T).T; require((l > -1e-6).all() and (l.sum(1) < 1 + 1e-6).all(), "k point outside of its triangle")
        require(len({tuple(np.round(x, 6)) for x in l}) == n * n, "repeated k point"); close(k.mean(0), t.mean(0), 1e-7, "k points are spread evenly (first moment)")
        u = np.floor(l * n + 1e-7); fr = l * n - u; up = fr.sum(1) < 1
        require(up.sum() == n * (n + 1) // 2, "one point in each small triangle")
    for k, h in zip(SK.bz_points, SK.hopping): close(h, c06.Hk(TB.hoppings, k), 1e-11, "hopping at a k point")
    mesh = MS.MeshImFreq(2.0, "Fermion", 2); S = BlockGf(name_list=["a"], block_list=[gf_sigma(r, mesh, no, 0)]); z = np.array([complex(p.value) for p in mesh]) + mu
    want = sum(w * np.linalg.inv(z[:, None, None] * np.eye(no) - h) for w, h in zip(SK.bz_weights, SK.hopping))
    close(SK(S, mu=mu)["a"].data, want, 1e-8, "sum on the patch")
    K = pickle.loads(pickle.dumps(SK)); require(K.n_kpts() == SK.n_kpts(), "number of k points of the patch after pickling"); close(K(S, mu=mu)["a"].data, want, 1e-8, "sum on the patch after pickling")

def units():
    b = st.booleans(); lat = c06.lattice(dims=(1, 2, 2, 3), maxr=2, nr=2)
    return [
        Unit("density", st.tuples(st.integers(2, 12), real(-3, 1), st.integers(16, 256).map(lambda i: i / 64), seeds(), real(-.5, 1.5)), u_density, 3000, 15000, lambda c: 0 < c[4] < 1, "chemical potential inside of the band"),
        Unit("dos", st.tuples(st.integers(2, 9), seeds(), st.sampled_from(["", "a", "up_0"])), u_dos, 200, 1000, lambda c: True, "every case"),
        Unit("dos_from_file", st.tuples(st.one_of(st.integers(1, 8), st.integers(9, 300)), st.one_of(st.integers(1, 4), st.integers(5, 14)), seeds(), st.integers(0, 2), st.sampled_from(["", "nm"]), b), u_file, 200, 1000, lambda c: c[1] > 1, "several orbitals"),
        Unit("hilbert", st.tuples(st.integers(1, 3), st.integers(2, 9), st.integers(1, 3), seeds(), real(-2, 2), st.sampled_from([0, .1, 1., -.4]), st.integers(0, 2), b, b, b, b, st.sampled_from([0, 0, 1]), st.integers(1, 4)), u_hilbert, 1500, 8000, lambda c: c[0] > 1, "matrix self-energy"),
        Unit("hilbert_function", st.tuples(st.sampled_from([.5, 1., 2.]), st.one_of(st.none(), st.integers(3, 200)), real(-1, 1), st.sampled_from([None, None, 1e-2, 1e-3, 1e-5]), seeds(), st.integers(3, 60)), u_hilbert_fun, 200, 1000, lambda c: c[1] is not None, "number of points given in the call"),
        Unit("sumk", st.tuples(lat, st.integers(1, 6), st.integers(1, 3), st.integers(1, 3), real(-2, 2), st.integers(0, 2), b, st.integers(0, 2), b, seeds(), st.integers(1, 4)), u_sumk, 800, 5000, lambda c: len(c[0][2]) > 0 and c[2] > 1, "hoppings and several blocks"),
        Unit("sumk_patch", st.tuples(lat, st.lists(st.integers(3, 6), min_size=1, max_size=3).map(tuple), st.integers(1, 5), seeds(), real(-2, 2)), u_sumk_patch, 600, 3000, lambda c: c[2] > 1, "several points per triangle"),
    ]
