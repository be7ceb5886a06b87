"""Coulomb interaction tensors."""
from common import *
load()
from functools import lru_cache
from itertools import product
from triqs.operators.util import U_matrix as UM
import triqs.operators.util as OU
try:
    from scipy.special import sph_harm
    def Y(l, m, th, ph): return sph_harm(m, l, ph, th)
except ImportError:
    from scipy.special import sph_harm_y as Y

RULE = "generated l, Slater integrals / U,J, unitary basis changes, conventions and index tuples; oracle: spherical-harmonic quadrature, sympy 3j/CG, explicit tensor contraction"

# ---------- independent reference: angular quadrature
NTH, NPH = 16, 32
_x, _w = np.polynomial.legendre.leggauss(NTH)
_th = np.arccos(_x)[:, None] + np.zeros((1, NPH)); _ph = (2 * np.pi * np.arange(NPH) / NPH)[None, :] + np.zeros((NTH, 1))
_W = _w[:, None] * np.ones((1, NPH)) * 2 * np.pi / NPH

@lru_cache(None)
def gaunt(l1, m1, k, q, l3, m3):
    """int conj(Y_l1m1) Y_kq Y_l3m3 on the sphere (exact for l1+k+l3 < 2 NTH)"""
    return complex((_W * np.conj(Y(l1, m1, _th, _ph)) * Y(k, q, _th, _ph) * Y(l3, m3, _th, _ph)).sum())

@lru_cache(None)
def alpha(l, k, m1, m2, m3, m4):
    """<m1 m2| 4pi/(2k+1) sum_q Y_kq(1) Y*_kq(2) |m3 m4>"""
    s = 0
    for q in range(-k, k + 1):
        s += gaunt(l, m1, k, q, l, m3) * (-1) ** q * gaunt(l, m2, k, -q, l, m4)
    return (4 * np.pi / (2 * k + 1) * s).real

@lru_cache(None)
def alpha_tensor(l, k):
    r = range(-l, l + 1)
    return np.array([[[[alpha(l, k, a, b, c, d) for d in r] for c in r] for b in r] for a in r])

def ref_U(l, F):
    return sum(f * alpha_tensor(l, 2 * n) for n, f in enumerate(F))

def ref_transform(U, T):
    n = T.shape[0]
    Tc = T.conj()
    r = np.tensordot(Tc, U, axes=(1, 0))                                   # i m2 m3 m4
    r = np.moveaxis(np.tensordot(Tc, r, axes=(1, 1)), 0, 1)
    r = np.moveaxis(np.tensordot(T, r, axes=(1, 2)), 0, 2)
    return np.moveaxis(np.tensordot(T, r, axes=(1, 3)), 0, 3)

# ---------- units
def u_3j(case):
    (j1, m1), (j2, m2), (j3, m3) = case
    from sympy.physics.wigner import wigner_3j
    ref = float(wigner_3j(j1, j2, j3, m1, m2, m3)) if all(abs(m) <= j for j, m in case) else 0.0
    close(UM.three_j_symbol(*case), ref, 1e-10, "three_j_symbol", case=case)
    # symmetries: odd permutation and sign flip give (-1)^(j1+j2+j3)
    s = (-1) ** (j1 + j2 + j3)
    close(UM.three_j_symbol(case[1], case[0], case[2]) * s, ref, 1e-10, "3j odd permutation", case=case)
    close(UM.three_j_symbol(case[1], case[2], case[0]), ref, 1e-10, "3j even permutation", case=case)
    close(UM.three_j_symbol((j1, -m1), (j2, -m2), (j3, -m3)) * s, ref, 1e-10, "3j sign flip", case=case)

@st.composite
def jm3(draw):
    j1 = draw(st.integers(0, 8)); j2 = draw(st.integers(0, 8))
    valid = draw(st.integers(0, 9)) > 0
    j3 = draw(st.integers(abs(j1 - j2), j1 + j2)) if valid else draw(st.integers(0, 8))
    if valid:
        m1 = draw(st.integers(-j1, j1))
        lo, hi = max(-j2, -j3 - m1), min(j2, j3 - m1)
        m2 = draw(st.integers(lo, hi)) if lo <= hi else draw(st.integers(-j2, j2))
        m3 = -m1 - m2
    else:
        m1, m2, m3 = [draw(st.integers(-j - 1, j + 1)) for j in (j1, j2, j3)]
    return ((j1, m1), (j2, m2), (j3, m3))

def u_cg(case):
    (j1, m1), (j2, m2), (j3, m3) = case
    from sympy.physics.wigner import clebsch_gordan
    ref = float(clebsch_gordan(j1, j2, j3, m1, m2, -m3)) if all(abs(m) <= j for j, m in case) else 0.0
    close(UM.clebsch_gordan((j1, m1), (j2, m2), (j3, -m3)), ref, 1e-10, "clebsch_gordan", case=case)

def u_cg_orth(case):
    j1, j2 = case
    pairs = [(a, b) for a in range(-j1, j1 + 1) for b in range(-j2, j2 + 1)]
    js = [(J, M) for J in range(abs(j1 - j2), j1 + j2 + 1) for M in range(-J, J + 1)]
    C = np.array([[UM.clebsch_gordan((j1, a), (j2, b), jm) for jm in js] for a, b in pairs])
    close(C.T @ C, np.eye(len(js)), 1e-9, "CG matrix must be orthogonal", case=case)

def u_ang(case):
    l, k, ms = case
    close(UM.angular_matrix_element(l, k, *ms), alpha(l, k, *ms), 1e-9, "angular_matrix_element", case=case)

@st.composite
def ang(draw):
    l = draw(st.integers(0, 3)); k = draw(st.integers(0, 2 * l))
    m1, m2, m3 = [draw(st.integers(-l, l)) for _ in range(3)]
    m4 = m1 + m2 - m3 if draw(st.integers(0, 5)) else draw(st.integers(-l, l))
    if abs(m4) > l: m4 = draw(st.integers(-l, l))
    return (l, k, (m1, m2, m3, m4))

def chk_sym(U, tol=1e-9):
    """U_ijkl = U_jilk (particle exchange) and U_ijkl = conj(U_klij) (hermiticity)"""
    close(U, np.transpose(U, (1, 0, 3, 2)), tol, "U_ijkl = U_jilk")
    close(U, np.conj(np.transpose(U, (2, 3, 0, 1))), tol, "U hermitian")

def u_slater(case):
    l, F, mode, seed = case
    r = rng(seed)
    T = None
    with_extra = False
    ref = ref_U(l, F)
    if mode == "spherical":
        U = UM.U_matrix_slater(l, radial_integrals=np.array(F), basis="spherical")
        U2 = UM.U_matrix_slater(l, np.array(F))
        close(U, U2, 1e-12, "default basis is spherical")
    elif mode == "cubic":
        U = UM.U_matrix_slater(l, radial_integrals=list(F), basis="cubic")
        T = np.array(UM.spherical_to_cubic(l)) if l > 0 else None
        if T is not None: ref = ref_transform(ref, T)
        if l > 0: require(np.abs(np.imag(U)).max() < 1e-9, "Coulomb tensor in cubic harmonics is real")
        if l == 0: return
    else:
        T = rand_unitary(r, 2 * l + 1)
        U = UM.U_matrix_slater(l, radial_integrals=np.array(F), basis="other", T=T)
        ref = ref_transform(ref, T)
    close(U, ref, 1e-8, "U_matrix_slater", case=case)
    chk_sym(U)

@st.composite
def slat(draw):
    l = draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3]))
    F = tuple(draw(real(0, 8)) for _ in range(l + 1))
    return (l, F, draw(st.sampled_from(["spherical", "cubic", "other"])), draw(seeds()))

def u_rot(case):
    """rotational invariance: the tensor in the spherical basis is unchanged by exp(-i a Lz) and exp(-i b Ly)"""
    l, F, ang_ = case
    m = np.arange(-l, l + 1)
    U = UM.U_matrix_slater(l, radial_integrals=np.array(F))
    Lp = np.diag(np.sqrt(l * (l + 1) - m[:-1] * (m[:-1] + 1.0)), -1)
    Ly = (Lp - Lp.T) / 2j
    w, v = np.linalg.eigh(Ly)
    R = (v * np.exp(-1j * ang_[0] * w)) @ v.conj().T @ np.diag(np.exp(-1j * ang_[1] * m))
    close(UM.transform_U_matrix(U, R), U, 1e-8, "rotational invariance of the Slater tensor", case=case)

def u_uj(case):
    l, U, J = case
    F = UM.U_J_to_radial_integrals(l, U, J)
    require(len(F) == l + 1, "number of radial integrals", F=F)
    u, j = UM.radial_integrals_to_U_J(l, F)
    close([u, j], [U, J], 1e-12, "U,J -> F -> U,J")
    # physics: F0 is the average direct interaction; U-J the average over different orbitals with parallel spin
    t = UM.U_matrix_slater(l, U_int=U, J_hund=J)
    n = 2 * l + 1
    i = np.arange(n)
    direct = t[i[:, None], i[None, :], i[:, None], i[None, :]]
    exch = t[i[:, None], i[None, :], i[None, :], i[:, None]]
    close(direct.mean(), U, 1e-9, "average direct interaction is U", case=case)
    close((direct - exch).sum() / (n * (n - 1)), U - J, 1e-9, "average parallel-spin interaction is U-J", case=case)
    close(t, ref_U(l, F), 1e-8, "U_int/J_hund and radial_integrals give the same tensor")
    t2 = UM.U_matrix_slater(l, radial_integrals=F, U_int=U, J_hund=J)
    close(t2, t, 1e-12, "consistent radial integrals and U,J")
    t3 = UM.U_matrix_slater(l, radial_integrals=F + 1.0, U_int=U, J_hund=J)
    close(t3, ref_U(l, F + 1.0), 1e-8, "radial integrals have priority over U,J")
    F2 = np.array([U, J + 1.0] + [0.5 * J + k for k in range(1, l)])[:l + 1]
    u2, j2 = UM.radial_integrals_to_U_J(l, F2)
    close(u2, F2[0], 1e-12, "F0 = U")

def u_transform(case):
    n, s1, shape_rect = case
    r = rng(s1)
    U = r.normal(size=(n,) * 4) + 1j * r.normal(size=(n,) * 4)
    T1 = rand_c(r, n, n); T2 = rand_c(r, max(1, n - 1) if shape_rect else n, n)
    a = UM.transform_U_matrix(U, T1)
    close(a, ref_transform(U, T1), 1e-9, "transform_U_matrix = T* T* U T T")
    b = UM.transform_U_matrix(a, T2)
    close(b, UM.transform_U_matrix(U, T2 @ T1), 1e-8, "basis changes compose")
    Q = rand_unitary(r, n)
    close(UM.transform_U_matrix(UM.transform_U_matrix(U, Q), Q.conj().T), U, 1e-9, "inverse basis change undoes")
    close(UM.transform_U_matrix(U, np.eye(n)), U, 1e-12, "identity basis change")
    require(a.shape == U.shape, "shape kept")

def u_reduce(case):
    n, seed, imag = case
    r = rng(seed)
    U = r.normal(size=(n,) * 4) + (1j * r.normal(size=(n,) * 4) if imag else 0)
    U0 = U.copy()
    a, b = UM.reduce_4index_to_2index(U)
    close(U, U0, 1e-15, "argument untouched")
    for m, mp in product(range(n), repeat=2):
        close(b[m, mp], U[m, mp, m, mp].real, 1e-12, "U' (antiparallel) = U_mm'mm'", m=m, mp=mp)
        close(a[m, mp], (U[m, mp, m, mp] - U[m, mp, mp, m]).real, 1e-12, "U (parallel) = U_mm'mm' - U_mm'm'm", m=m, mp=mp)

def u_kan(case):
    n, U, J, Up, Jc = case
    kw = {} if Up is None else {"Up_int": Up}
    a, b = UM.U_matrix_kanamori(n, U, J, **kw)
    upv = U - 2 * J if Up is None else Up
    jcv = J if Jc is None else Jc
    kw2 = dict(kw) if Jc is None else dict(kw, Jc_hund=Jc)
    t = UM.U_matrix_kanamori(n, U, J, full_Uijkl=True, **kw2)
    require(t.shape == (n,) * 4, "shape of the full tensor")
    for i, j, k, l in product(range(n), repeat=4):
        want = 0
        if i == j == k == l: want = U
        elif i == k and j == l: want = upv
        elif i == l and j == k: want = J
        elif i == j and k == l: want = jcv
        close(t[i, j, k, l], want, 1e-12, "full Kanamori tensor", idx=(i, j, k, l), case=case)
    ra, rb = UM.reduce_4index_to_2index(t)
    close(ra, a, 1e-12, "2-index parallel = reduction of the full tensor", case=case)
    close(rb, b, 1e-12, "2-index antiparallel = reduction of the full tensor", case=case)
    if Jc is not None:
        raises(ValueError, lambda: UM.U_matrix_kanamori(n, U, J, Jc_hund=Jc), "Jc_hund without full tensor")

# names and conventions
POLY = {"s": lambda x, y, z: 1 + 0 * x, "x": lambda x, y, z: x, "y": lambda x, y, z: y, "z": lambda x, y, z: z,
        "xy": lambda x, y, z: x * y, "yz": lambda x, y, z: y * z, "xz": lambda x, y, z: x * z,
        "z^2": lambda x, y, z: 3 * z * z - 1, "x^2-y^2": lambda x, y, z: x * x - y * y,
        "x(x^2-3y^2)": lambda x, y, z: x * (x * x - 3 * y * y), "z(x^2-y^2)": lambda x, y, z: z * (x * x - y * y),
        "xz^2": lambda x, y, z: x * (5 * z * z - 1), "z^3": lambda x, y, z: z * (5 * z * z - 3), "yz^2": lambda x, y, z: y * (5 * z * z - 1),
        "xyz": lambda x, y, z: x * y * z, "y(3x^2-y^2)": lambda x, y, z: y * (3 * x * x - y * y)}
NAMES = {("triqs", 1): ("x", "y", "z"), ("vasp", 1): ("x", "y", "z"), ("wien2k", 1): ("x", "y", "z"), ("wannier90", 1): ("z", "x", "y"), ("qe", 1): ("z", "x", "y"),
         ("triqs", 2): ("xy", "yz", "z^2", "xz", "x^2-y^2"), ("vasp", 2): ("xy", "yz", "z^2", "xz", "x^2-y^2"),
         ("wien2k", 2): ("z^2", "x^2-y^2", "xy", "yz", "xz"), ("wannier90", 2): ("z^2", "xz", "yz", "x^2-y^2", "xy"), ("qe", 2): ("z^2", "xz", "yz", "x^2-y^2", "xy"),
         ("triqs", 3): ("x(x^2-3y^2)", "z(x^2-y^2)", "xz^2", "z^3", "yz^2", "xyz", "y(3x^2-y^2)"),
         ("vasp", 3): ("x(x^2-3y^2)", "z(x^2-y^2)", "xz^2", "z^3", "yz^2", "xyz", "y(3x^2-y^2)")}

def u_cubic(case):
    conv, l, seed = case
    if (conv, l) not in NAMES:
        if conv not in ("triqs", "vasp", "wien2k", "wannier90", "qe") or l > 3 or l == 3:
            raises(ValueError, lambda: UM.spherical_to_cubic(l, convention=conv), "unknown convention / l")
        return
    T = np.asarray(UM.spherical_to_cubic(l, convention=conv))
    close(T @ T.conj().T, np.eye(2 * l + 1), 1e-12, "spherical_to_cubic is unitary", case=case)
    r = rng(seed)
    v = r.normal(size=(40, 3)); v /= np.linalg.norm(v, axis=1)[:, None]
    th, ph = np.arccos(np.clip(v[:, 2], -1, 1)), np.arctan2(v[:, 1], v[:, 0])
    Yv = np.array([Y(l, m, th, ph) for m in range(-l, l + 1)])
    orb = T @ Yv
    for i, name in enumerate(NAMES[conv, l]):
        if conv == "wien2k" and name in ("yz", "xz"):
            B = np.array([POLY["yz"](*v.T), POLY["xz"](*v.T)]).T.astype(complex)   # the pair spans {yz, xz}
        else:
            B = np.array([POLY[name](*v.T)]).T.astype(complex)
        sol = np.linalg.lstsq(B, orb[i], rcond=None)[0]
        close(B @ sol, orb[i], 1e-8, "cubic harmonic %s has the angular form of its name" % name, case=case)
        if conv != "wien2k":
            require(np.abs(orb[i].imag).max() < 1e-10, "cubic harmonics are real", name=name, case=case)
    if conv == "triqs":
        require(tuple(UM.cubic_names(l)) == NAMES[conv, l], "cubic_names matches the basis order", got=UM.cubic_names(l))
        require(tuple(UM.cubic_names({1: "p", 2: "d", 3: "f"}[l])) == NAMES[conv, l], "cubic_names by letter")
        close(np.asarray(UM.spherical_to_cubic(l)), T, 1e-15, "default convention is triqs")

def u_sub(case):
    conv, nidx, seed, F = case
    names = NAMES[conv, 2]
    it = [i for i, n in enumerate(names) if n in ("xy", "yz", "xz")]
    ie = [i for i, n in enumerate(names) if n in ("z^2", "x^2-y^2")]
    A = rng(seed).normal(size=(5,) * nidx)
    close(UM.t2g_submatrix(A, convention=conv), A[np.ix_(*[it] * nidx)], 1e-15, "t2g_submatrix picks xy,yz,xz", case=case)
    close(UM.eg_submatrix(A, convention=conv), A[np.ix_(*[ie] * nidx)], 1e-15, "eg_submatrix picks z^2,x^2-y^2", case=case)
    if conv == "triqs":
        close(UM.t2g_submatrix(A), A[np.ix_(*[it] * nidx)], 1e-15, "default convention")
        close(UM.eg_submatrix(A), A[np.ix_(*[ie] * nidx)], 1e-15, "default convention")
        require(tuple(UM.cubic_names("t2g")) == tuple(names[i] for i in it), "cubic_names(t2g)")
        require(tuple(UM.cubic_names("eg")) == tuple(names[i] for i in ie), "cubic_names(eg)")
    # the density-density part of the Coulomb matrix on named orbitals is convention independent
    if conv != "wien2k":
        U = UM.U_matrix_slater(2, radial_integrals=list(F), basis="other", T=UM.spherical_to_cubic(2, convention=conv))
        V = UM.U_matrix_slater(2, radial_integrals=list(F), basis="cubic")
        p = [NAMES["triqs", 2].index(n) for n in names]
        for x, y in zip(UM.reduce_4index_to_2index(U), UM.reduce_4index_to_2index(V)):
            close(x, y[np.ix_(p, p)], 1e-8, "two-index interactions agree between conventions orbital by orbital", case=case)
    raises(ValueError, lambda: UM.t2g_submatrix(A, convention="nonsense"), "unknown convention (t2g)")
    raises(ValueError, lambda: UM.eg_submatrix(A, convention="nonsense"), "unknown convention (eg)")

def u_subarray(case):
    shape, idx, seed = case
    A = rng(seed).normal(size=shape)
    got = UM.subarray(A, [tuple(i) if isinstance(i, (list, tuple)) else i for i in idx])
    want = A
    for ax in range(len(shape) - 1, -1, -1):
        want = np.take(want, idx[ax] if not isinstance(idx[ax], tuple) else list(idx[ax]), axis=ax)
    close(got, want, 1e-15, "subarray", case=case)

@st.composite
def subarr(draw):
    nd = draw(st.integers(1, 6)); shape = tuple(draw(st.integers(1, 4 if nd < 4 else 3)) for _ in range(nd))
    idx = []
    for s in shape:
        if draw(st.integers(0, 4)) == 0: idx.append(draw(st.integers(0, s - 1)))
        else: idx.append(tuple(draw(st.lists(st.integers(0, s - 1), min_size=1, max_size=s))))
    return (shape, idx, draw(seeds()))

def u_errors(case):
    l, F = case
    raises(ValueError, lambda: UM.U_matrix_slater(l), "neither F nor U,J")
    raises(ValueError, lambda: UM.U_matrix_slater(l, radial_integrals=list(F), basis="other"), "basis other without T")
    if l > 0:
        raises(ValueError, lambda: UM.U_matrix_slater(l, radial_integrals=list(F) + [1.0], U_int=1.0, J_hund=0.5), "wrong number of radial integrals")
    raises(ValueError, lambda: UM.U_J_to_radial_integrals(4 + l, 1.0, 0.1), "l too large")
    raises(ValueError, lambda: UM.radial_integrals_to_U_J(4 + l, [1.0] * 6), "l too large")
    raises(ValueError, lambda: UM.cubic_names(4 + l), "l too large")

def units():
    convs = st.sampled_from(["triqs", "vasp", "wien2k", "wannier90", "qe"])
    return [
        Unit("three_j", jm3(), u_3j, 500, 5000, lambda c: sum(m for j, m in c) == 0 and any(m for j, m in c), "m1+m2+m3=0, not all zero"),
        Unit("clebsch_gordan", jm3(), u_cg, 500, 5000, lambda c: sum(m for j, m in c) == 0 and c[0][0] + c[1][0] > 0, "selection rule satisfied"),
        Unit("cg_orthogonal", st.tuples(st.integers(0, 4), st.integers(0, 4)), u_cg_orth, 40, 60, lambda c: min(c) > 0, "both j>0"),
        Unit("angular", ang(), u_ang, 400, 4000, lambda c: c[0] > 0 and c[2][0] + c[2][1] == c[2][2] + c[2][3], "l>0, m conserved"),
        Unit("slater", slat(), u_slater, 30, 200, lambda c: c[0] > 0 and sum(f > 0 for f in c[1]) > 1, "l>0 and two non-zero F"),
        Unit("rotational", st.tuples(st.sampled_from([1, 2]), st.tuples(real(0, 8), real(0, 8), real(0, 8)), st.tuples(real(-3, 3), real(-3, 3))).map(lambda t: (t[0], t[1][:t[0] + 1], t[2])), u_rot, 30, 200, lambda c: c[2][0] != 0 and c[1][1] > 0, "rotation not about z"),
        Unit("U_J", st.tuples(st.sampled_from([1, 2, 3]), real(0, 8), real(0, 2)), u_uj, 20, 120, lambda c: c[2] != 0, "J != 0"),
        Unit("transform", st.tuples(st.one_of(st.integers(1, 5), st.integers(6, 8)), seeds(), st.booleans()), u_transform, 80, 600, lambda c: c[0] > 1, "n>1"),
        Unit("reduce", st.tuples(st.one_of(st.integers(1, 5), st.integers(6, 9)), seeds(), st.booleans()), u_reduce, 80, 600, lambda c: c[0] > 1, "n>1"),
        Unit("kanamori", st.tuples(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 9)), real(0, 8), real(-2, 2), st.one_of(st.none(), real(-4, 8)), st.one_of(st.none(), real(-2, 2))), u_kan, 200, 1500, lambda c: c[0] > 1 and c[2] != 0, "n>1, J != 0"),
        Unit("cubic", st.tuples(st.sampled_from(["triqs", "vasp", "wien2k", "wannier90", "qe", "nope"]), st.integers(1, 4), seeds()), u_cubic, 150, 500, lambda c: (c[0], c[1]) in NAMES, "implemented convention"),
        Unit("submatrix", st.tuples(convs, st.sampled_from([2, 4]), seeds(), st.tuples(real(0, 8), real(0, 8), real(0, 8))), u_sub, 30, 100, None, "all"),
        Unit("subarray", subarr(), u_subarray, 300, 2000, lambda c: len(c[0]) > 1, "rank>1"),
        Unit("errors", st.tuples(st.integers(0, 3), st.just((1.0, 1.0, 1.0, 1.0))).map(lambda t: (t[0], t[1][:t[0] + 1])), u_errors, 20, 20, None, "all"),
    ]
