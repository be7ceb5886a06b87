"""Standard Hamiltonians and observables of the operator layer."""
from common import *
load()
import tempfile, os
from itertools import product
from triqs.operators import Operator, c, c_dag, n
import triqs.operators.util as OU
from triqs.operators.util import hamiltonians as HM, observables as OB, op_struct as OS, U_matrix as UM
from stubs.ops_stub import dagger

RULE = "generated tensors, spin/orbital counts, naming conventions, unitary bases; oracle: independent operator algebra built from the documented sums"

SP = [["up", "down"], ["dn", "up"], ["u", "v"], ["s"], ["a", "up", "b"]]   # the last two: no spin, three flavours

def naming(kind, spins, no):
    """returns kwargs and reference index function"""
    if kind == 0: return dict(off_diag=True), lambda s, o: (s, o)
    if kind == 1: return dict(off_diag=False), lambda s, o: ("%s_%s" % (s, o), 0)
    m = {(s, o): ("blk%d" % ((i + o) % 3), 20 * i + o) for i, s in enumerate(spins) for o in range(no)}
    if kind in (3, 4):   # the map wins over off_diag
        return dict(off_diag=kind == 4, map_operator_structure=m), lambda s, o: m[(s, o)]
    return dict(map_operator_structure=m), lambda s, o: m[(s, o)]

def same(A, B, msg, tol=1e-9, **kw):
    d = A - B
    w = max([abs(v) for v in B.terms.values()] + [1.0])
    bad = [(k, v) for k, v in d.terms.items() if not abs(v) < tol * w]
    require(not bad, msg, first=str(bad[:2]), **kw)

def acc(terms):
    """sum of (coef, op) quickly"""
    t = {}
    for cf, op in terms:
        for k, v in op.terms.items():
            t[k] = t.get(k, 0) + cf * v
    return Operator._mk(t)

def slater_ref(spins, no, U, ix):
    T = []
    for s1 in spins:
        for s2 in spins:
            for i, j, k, l in product(range(no), repeat=4):
                if U[i, j, k, l] != 0:
                    T.append((0.5 * U[i, j, k, l], c_dag(*ix(s1, i)) * c_dag(*ix(s2, j)) * c(*ix(s2, l)) * c(*ix(s1, k))))
    return acc(T)

def kanamori_ref(spins, no, U, Up, J, ix):
    T = []
    for s1 in spins:
        for s2 in spins:
            for i in range(no):
                for j in range(no):
                    if (s1, i) == (s2, j): continue
                    T.append((0.5 * (U if s1 == s2 else Up)[i, j], n(*ix(s1, i)) * n(*ix(s2, j))))
    up, dn = spins
    for i in range(no):
        for j in range(no):
            if i == j: continue
            T.append((-J, c_dag(*ix(up, i)) * c(*ix(dn, i)) * c_dag(*ix(dn, j)) * c(*ix(up, j))))
            T.append((J, c_dag(*ix(up, i)) * c_dag(*ix(dn, i)) * c(*ix(dn, j)) * c(*ix(up, j))))
    return acc(T)

def comm(a, b): return a * b - b * a

def u_slater(case):
    sp, no, nm, s, cx, dens = case
    spins = SP[sp]; r = rng(s)
    U = r.uniform(-2, 2, (no,) * 4)
    if cx: U = U + 1j * r.uniform(-2, 2, U.shape)
    if dens: U = U * (r.rand(*U.shape) < 0.4)
    kw, ix = naming(nm, spins, no)
    H = HM.h_int_slater(spins, no, U, complex=cx, **kw)
    same(H, slater_ref(spins, no, U, ix), "h_int_slater", case=case)
    if not cx:   # complex dtype with vanishing imaginary part is accepted
        Hz = HM.h_int_slater(spins, no, U.astype(np.complex128), **kw)
        same(Hz, slater_ref(spins, no, U, ix), "h_int_slater complex dtype", case=case)
        require(not any(isinstance(v, complex) for v in Hz.terms.values()), "a complex Hamiltonian without complex=True", case=case)
    if cx and np.abs(U.imag).max() > 1e-3:
        raises(RuntimeError, lambda: HM.h_int_slater(spins, no, U, **kw), "complex U accepted with complex=False")
    # diagonal part = density-density Hamiltonian of the reduced matrices
    if not cx:
        Us, Ud = UM.reduce_4index_to_2index(U)
        np.fill_diagonal(Us, 0)
        Hd = HM.h_int_density(spins, no, Us, Ud, **kw)
        Usym = U.copy()
        same(HM.diagonal_part(H), acc([(0.5 * (Us if s1 == s2 else Ud)[i, j], n(*ix(s1, i)) * n(*ix(s2, j)))
            for s1 in spins for s2 in spins for i in range(no) for j in range(no) if (s1, i) != (s2, j)]), "density part of slater", case=case)
        same(Hd, HM.diagonal_part(Hd), "density hamiltonian is diagonal", case=case)
        same(HM.diagonal_part(H), Hd, "density part vs h_int_density", case=case)

def _uup(r, no):
    U = r.uniform(-2, 2, (no, no)); U = U + U.T; np.fill_diagonal(U, 0)
    Up = r.uniform(-2, 2, (no, no)); Up = Up + Up.T
    return U, Up

def u_kanamori(case):
    sp, no, nm, s, J = case
    spins = SP[sp]; r = rng(s); U, Up = _uup(r, no)
    if s % 3 == 0: U = r.uniform(-2, 2, (no, no)); np.fill_diagonal(U, 0); Up = r.uniform(-2, 2, (no, no))
    kw, ix = naming(nm, spins, no)
    H = HM.h_int_kanamori(spins, no, U, Up, J, **kw)
    same(H, kanamori_ref(spins, no, U, Up, J, ix), "h_int_kanamori", case=case)
    Hd = HM.h_int_density(spins, no, U, Up, **kw)
    same(Hd, kanamori_ref(spins, no, U, Up, 0.0, ix), "h_int_density", case=case)
    same(HM.diagonal_part(H), Hd, "density part of kanamori", case=case)
    N = OB.N_op(spins, no, **kw)
    if no <= 5: same(comm(H, N), Operator(), "[kanamori, N]", case=case)
    same(dagger(H), H, "kanamori hermitian", case=case)

def u_kanamori_from_slater(case):
    sp, no, nm, U0, J = case
    spins = SP[sp]; kw, ix = naming(nm, spins, no)
    Us, Ud = UM.U_matrix_kanamori(no, U0, J)
    H = HM.h_int_kanamori(spins, no, Us, Ud, J, **kw)
    T = np.zeros((no,) * 4)
    for i in range(no):
        for j in range(no):
            if i == j: T[i, i, i, i] = U0
            else:
                T[i, j, i, j] = U0 - 2 * J; T[i, j, j, i] = J; T[i, i, j, j] = J
    same(H, slater_ref(spins, no, T, ix), "kanamori = slater with Kanamori tensor", case=case)
    S = {k: OB.S_op(k, spins, no, **kw) for k in "xyz"}
    for k in "xyz": same(comm(H, S[k]), Operator(), "kanamori is spin-rotation invariant", comp=k, case=case)

def u_invariance(case):
    l, sp, nm, F, basis, s = case
    no = 2 * l + 1; spins = SP[sp]; kw, ix = naming(nm, spins, no)
    r = rng(s); T = rand_unitary(r, no) if basis == "other" else None
    U = UM.U_matrix_slater(l=l, radial_integrals=F[:l + 1], basis=basis, T=T)
    H = HM.h_int_slater(spins, no, U, complex=True, **kw)
    for k in "z+-x":
        same(comm(H, OB.L_op(k, spins, no, basis=basis, T=T, **kw)), Operator(), "[H, L]=0", tol=1e-7, comp=k, case=case)
    for k in "zx":
        same(comm(H, OB.S_op(k, spins, no, **kw)), Operator(), "[H, S]=0", tol=1e-7, comp=k, case=case)

PM = {"x": [[0, 1], [1, 0]], "y": [[0, -1j], [1j, 0]], "z": [[1, 0], [0, -1]]}
def S_ref(k, spins, no, ix):
    if k in "+-":
        return S_ref("x", spins, no, ix) + (1j if k == "+" else -1j) * S_ref("y", spins, no, ix)
    return acc([(0.5 * PM[k][a][b], c_dag(*ix(spins[a], o)) * c(*ix(spins[b], o))) for a in (0, 1) for b in (0, 1) for o in range(no)])
def L_mat(k, no):
    l = (no - 1) / 2; m = np.arange(no) - l
    Lp = np.zeros((no, no), complex)
    for a in range(no - 1): Lp[a + 1, a] = np.sqrt(l * (l + 1) - m[a] * (m[a] + 1))
    Lm = Lp.T
    return {"z": np.diag(m).astype(complex), "+": Lp, "-": Lm, "x": (Lp + Lm) / 2, "y": (Lp - Lm) / 2j}[k]
def L_ref(k, spins, no, ix, T):
    M = L_mat(k, no)
    if T is not None: M = T.conj() @ M @ T.T
    return acc([(M[a, b], c_dag(*ix(s, a)) * c(*ix(s, b))) for s in spins for a in range(no) for b in range(no)])

def _basis(basis, no, s):
    if basis == "spherical": return None
    if basis == "cubic": return UM.spherical_to_cubic((no - 1) // 2)
    return rand_unitary(rng(s), no)

def u_spin(case):
    sp, no, nm = case
    spins = SP[sp]; kw, ix = naming(nm, spins, no)
    S = {k: OB.S_op(k, spins, no, **kw) for k in "xyz+-"}
    for k in S: same(S[k], S_ref(k, spins, no, ix), "S_op", comp=k, case=case)
    for a, b, d in ("xyz", "yzx", "zxy"): same(comm(S[a], S[b]), 1j * S[d], "su(2) commutator", case=case)
    S2 = OB.S2_op(spins, no, **kw)
    same(S2, S["x"] * S["x"] + S["y"] * S["y"] + S["z"] * S["z"], "S2_op", case=case)
    N = OB.N_op(spins, no, **kw)
    same(N, acc([(1.0, n(*ix(s, o))) for s in spins for o in range(no)]), "N_op", case=case)
    for k in "xz": same(comm(S2, S[k]), Operator(), "[S2,S]", case=case)

def u_orbital(case):
    sp, no, nm, basis, s = case
    spins = SP[sp]; kw, ix = naming(nm, spins, no)
    if basis == "cubic" and no % 2 == 0:
        raises(ValueError, lambda: OB.L_op("z", spins, no, basis=basis, **kw), "cubic basis with half-integer l")
        return
    T = _basis(basis, no, s)
    pt = T if basis == "other" else None
    if basis == "other":
        raises(ValueError, lambda: OB.L_op("z", spins, no, basis=basis, **kw), "basis='other' without T")
    L = {k: OB.L_op(k, spins, no, basis=basis, T=pt, **kw) for k in "xyz+-"}
    for k in L: same(L[k], L_ref(k, spins, no, ix, T), "L_op", comp=k, case=case)
    for a, b, d in ("xyz", "yzx", "zxy"): same(comm(L[a], L[b]), 1j * L[d], "so(3) commutator", case=case)
    if no <= 4:
        L2 = OB.L2_op(spins, no, basis=basis, T=pt, **kw)
        same(L2, L["x"] * L["x"] + L["y"] * L["y"] + L["z"] * L["z"], "L2_op", tol=1e-8, case=case)
        if len(spins) != 2: return
        LS = OB.LS_op(spins, no, basis=basis, T=pt, **kw)
        S = {k: S_ref(k, spins, no, ix) for k in "xyz"}
        same(LS, L["x"] * S["x"] + L["y"] * S["y"] + L["z"] * S["z"], "LS_op", tol=1e-8, case=case)
        Jz = L["z"] + S["z"]
        same(comm(LS, Jz), Operator(), "[LS, Jz]", tol=1e-8, case=case)

@st.composite
def rand_op(draw):
    nt = draw(st.integers(0, 7)); r = []
    for _ in range(nt):
        m = draw(st.lists(st.tuples(st.booleans(), st.integers(0, 2)), max_size=6))
        r.append((tuple(m), draw(real()), draw(st.one_of(st.just(0.0), real()))))
    return tuple(r)
def mk_op(case):
    A = Operator()
    for m, a, b in case:
        t = Operator(1.0)
        for d, i in m: t = t * (c_dag("s", i) if d else c("s", i))
        A += (complex(a, b) if b else a) * t
    return A

def u_diag(case):
    A = mk_op(case)
    D = HM.diagonal_part(A)
    want = Operator._mk({k: v for k, v in A.terms.items() if sorted(i for d, i in k if d) == sorted(i for d, i in k if not d)})
    same(D, want, "diagonal_part", case=case)
    same(HM.diagonal_part(D), D, "diagonal_part idempotent")
    same(HM.diagonal_part(A - D), Operator(), "no density term left")
def nt_diag(case):
    A = mk_op(case); D = HM.diagonal_part(A)
    return 0 < len(D) < len(A)

def u_real(case):
    op, tol = case
    A = mk_op(op)
    im = max([abs(complex(v).imag) for v in A.terms.values()] + [0.0])
    if im > tol:
        raises(RuntimeError, lambda: HM.make_operator_real(A, tol), "make_operator_real accepted im=%g tol=%g" % (im, tol))
        B = HM.make_operator_real(A, im * 1.001)
    else:
        B = HM.make_operator_real(A, tol)
    same(B, Operator._mk({k: complex(v).real for k, v in A.terms.items()}), "make_operator_real", case=case)

def u_struct(case):
    sp, no, off, kind = case
    spins = SP[sp]
    gs = OS.set_operator_structure(spins, no, off)
    d = [(b, k) for b, k in gs]
    require(len(set(b for b, _ in d)) == len(d), "block names unique")
    require(sum(k for _, k in d) == 2 * no, "all spin-orbitals present", got=d)
    mk = OS.get_mkind(off, None)
    ids = [mk(s, o) for s in spins for o in range(no)]
    require(len(set(ids)) == 2 * no, "mkind injective")
    dd = dict(d)
    for b, i in ids: require(b in dd and 0 <= i < dd[b], "mkind index outside of structure", ix=(b, i), struct=d)
    require(set(ids) == set((b, i) for b, k in d for i in range(k)), "structure covered")
    # order: spin major, orbital minor
    require([(b, i) for b, k in d for i in range(k)] == ids, "block order", got=d)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        require([tuple(x) for x in OS.set_operator_structure(spins, list(range(no)), off)] == [tuple(x) for x in gs], "list of orbitals accepted")
        r = rng(no); U, Up = _uup(r, no); J = 0.3; U4 = r.uniform(-1, 1, (no,) * 4) if no < 4 else None; names = ["o%d" % i for i in range(no)]
        fs = [lambda o, **k: HM.h_int_slater(spins, o, U4, off_diag=off, **k), lambda o, **k: HM.h_int_kanamori(spins, o, U, Up, J, off_diag=off, **k),
              lambda o, **k: HM.h_int_density(spins, o, U, Up, off_diag=off, **k), lambda o, **k: OB.N_op(spins, o, off_diag=off, **k),
              lambda o, **k: OB.S_op("x", spins, o, off_diag=off, **k), lambda o, **k: OB.S2_op(spins, o, off_diag=off, **k),
              lambda o, **k: OB.L_op("+", spins, o, off_diag=off, **k), lambda o, **k: OB.L2_op(spins, o, off_diag=off, **k), lambda o, **k: OB.LS_op(spins, o, off_diag=off, **k)]
        if no > 3: fs = fs[1:5]
        f = fs[kind % len(fs)]
        same(f(names), f(no), "list of orbitals = number of orbitals", fn=kind)
        raises(RuntimeError, lambda: f(no, orb_names=names), "orb_names accepted")
    raises(ValueError, lambda: OS.get_mkind(None, None), "no convention given")

def _parse(f):
    H = []
    for line in open(f):
        p = line.rstrip("\n").split("\t")
        if len(p) > 1: H.append(([eval(x) for x in p[:-1]], float(p[-1])))
        else: H.append(line.strip())
    return H

def u_dump(case):
    sp, no, nm, s, J = case
    spins = SP[sp]; r = rng(s); kw, ix = naming(nm, spins, no)
    d = tempfile.mkdtemp(prefix="verif_dump_"); fn = os.path.join(d, "H.txt")
    try:
        U4 = np.round(r.uniform(-2, 2, (no,) * 4), 6) * (r.rand(*(no,) * 4) < .5)
        H = HM.h_int_slater(spins, no, U4, H_dump=fn, **kw)
        same(H, HM.h_int_slater(spins, no, U4, **kw), "dumping changes the result")
        rec = [x for x in _parse(fn) if isinstance(x, tuple)]
        same(acc([(0.5 * u, c_dag(*a) * c_dag(*b) * c(*cc) * c(*dd)) for (a, b, cc, dd), u in rec]), H, "Slater dump file describes H", case=case)
        U, Up = _uup(r, no); U, Up = np.round(U, 6), np.round(Up, 6)
        for kan in (0, 1):
            H = HM.h_int_kanamori(spins, no, U, Up, J, H_dump=fn, **kw) if kan else HM.h_int_density(spins, no, U, Up, H_dump=fn, **kw)
            T, sec = [], ""
            for x in _parse(fn):
                if isinstance(x, str): sec = x; continue
                (a, b), u = x
                if "Density-density terms" in sec: T.append((0.5 * u, n(*a) * n(*b)))
                else:
                    inv = {ix(q, o): (q, o) for q in spins for o in range(no)}
                    (s1, o1), (s2, o2) = inv[tuple(a)], inv[tuple(b)]
                    if "flip" in sec: T.append((0.5 * u, c_dag(*ix(s1, o1)) * c(*ix(s2, o1)) * c_dag(*ix(s2, o2)) * c(*ix(s1, o2))))
                    else: T.append((0.5 * u, c_dag(*ix(s1, o1)) * c_dag(*ix(s2, o1)) * c(*ix(s2, o2)) * c(*ix(s1, o2))))
            same(acc(T), H, "dump file describes H", kanamori=kan, case=case)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)

def units():
    sp = st.integers(0, 2); sa = st.integers(0, 4); nm = st.integers(0, 4)
    bs = st.sampled_from(["spherical", "cubic", "other"])
    return [
        Unit("slater", st.tuples(sa, st.integers(1, 4), nm, seeds(), st.booleans(), st.booleans()), u_slater, 250, 800, lambda c: c[1] > 1, "more than one orbital"),
        Unit("kanamori", st.tuples(sp, st.one_of(st.integers(1, 4), st.integers(1, 12)), nm, seeds(), real()), u_kanamori, 500, 1500, lambda c: c[1] > 1 and c[4] != 0, ">1 orbital, J != 0"),
        Unit("kanamori_from_slater", st.tuples(sp, st.integers(1, 3), nm, real(), real()), u_kanamori_from_slater, 300, 900, lambda c: c[1] > 1 and c[4] != 0, ">1 orbital, J != 0"),
        Unit("invariance", st.tuples(st.integers(0, 1), sp, nm, st.lists(real(), min_size=3, max_size=3).map(tuple), bs, seeds()), u_invariance, 80, 250, lambda c: c[0] > 0, "l>0"),
        Unit("spin", st.tuples(sp, st.integers(1, 5), nm), u_spin, 60, 60, lambda c: c[1] > 1, ">1 orbital"),
        Unit("orbital", st.tuples(sa, st.integers(1, 5), nm, bs, seeds()), u_orbital, 150, 400, lambda c: c[1] > 1, ">1 orbital"),
        Unit("diagonal_part", rand_op(), u_diag, 600, 5000, nt_diag, "operator with both density and non-density monomials"),
        Unit("make_real", st.tuples(rand_op(), st.sampled_from([0, 1e-6, 0.5])), u_real, 300, 2000, lambda c: any(t[2] for t in c[0]), "complex coefficients"),
        Unit("op_struct", st.tuples(sp, st.one_of(st.integers(1, 3), st.integers(9, 12)), st.booleans(), st.integers(0, 8)), u_struct, 120, 162, lambda c: c[1] > 1, ">1 orbital"),
        Unit("dump", st.tuples(sp, st.integers(1, 3), nm, seeds(), st.integers(-8, 8).map(lambda i: i / 4)), u_dump, 150, 400, lambda c: c[1] > 1, ">1 orbital"),
    ]
