"""Lattice layer in Python: superlattices, k paths, parsers and converters."""
from gfcommon_loader import *
import tempfile, pickle, copy as cp
from triqs.lattice.tight_binding import TBLattice, dos as tb_dos
import triqs.lattice.tight_binding as TBM
from triqs.lattice.super_lattice import TBSuperLattice
from triqs.lattice.bz_patch import BZPatch
from triqs.lattice.point import LatticePoint
from triqs.lattice import utils as LU
from stubs import lattice_stub as LS
RULE = "generated lattices, hermitian hoppings, superlattice vectors, paths, files and models; oracle: definition of folding in real and momentum space, numpy evaluation"

@st.composite
def lattice(draw, dims=(1, 2, 3), maxorb=3, maxr=3, nr=4):
    d = draw(st.sampled_from(dims)); no = draw(st.integers(1, maxorb))
    R = draw(st.lists(st.tuples(*[st.integers(-maxr, maxr)] * d), min_size=0, max_size=nr))
    return (d, no, tuple(R), draw(seeds()))
def hops(c, onsite=True):
    d, no, R, s = c; r = rng(s); H = {}
    if onsite: a = rand_c(r, no, no); H[(0,) * d] = a + a.conj().T
    for x in R:
        a = rand_c(r, no, no); m = tuple(-i for i in x)
        if x == m: a = a + a.conj().T
        if x in H: continue
        H[x] = a; H[m] = a.conj().T
    return H
def units_(c):
    d, no, R, s = c; r = rng(s + 1)
    return np.eye(d) + 0.2 * r.uniform(-1, 1, (d, d))
def tbl(c, names=None):
    d, no, R, s = c; r = rng(s + 2)
    return TBLattice(units_(c), hops(c), [tuple(r.uniform(0, 1, 3) * [1] * d + [0] * (3 - d)) if 0 else tuple(np.concatenate([r.uniform(0, 1, d), np.zeros(3 - d)])) for _ in range(no)], names or ["o%d" % i for i in range(no)])

def Hk(H, k): return sum(m * np.exp(2j * np.pi * np.dot(k, R)) for R, m in H.items())

@st.composite
def supercase(draw):
    c = draw(lattice())
    d = c[0]; lim = {1: 4, 2: 3, 3: 2}[d]
    S = draw(st.lists(st.lists(st.integers(-lim, lim), min_size=d, max_size=d).map(tuple), min_size=d, max_size=d).map(tuple))
    return (c, S, draw(st.booleans()), draw(st.sampled_from(["auto", "lists", "tuples", "array", "auto"])), draw(seeds()))
def det(S): return int(round(np.linalg.det(np.array(S, float))))
def u_super(case):
    c, S, rem, mode, s = case
    d, no, R, _ = c; Nc = abs(det(S))
    if Nc == 0: raise Skip()
    if Nc * no > 24: raise Skip()
    TB = tbl(c); H = TB.hoppings; Sa = np.array(S); r = rng(s)
    kw = {}
    base = TBSuperLattice(TB, S, remove_internal_hoppings=rem) if mode == "auto" else None
    if mode != "auto":
        b = int(np.abs(Sa).sum()); inv = np.linalg.inv(Sa.T); sites = []
        for x in itertools.product(range(-b, b + 1), repeat=d):
            f = inv @ x
            if np.all(f > -1e-9) and np.all(f < 1 - 1e-9): sites.append(list(x))
        require(len(sites) == Nc, "self check: number of sites")
        sites = [sites[i] for i in r.permutation(Nc)]
        kw = dict(cluster_sites=sites if mode == "lists" else [tuple(x) for x in sites] if mode == "tuples" else np.array(sites))
        base = TBSuperLattice(TB, np.array(S), remove_internal_hoppings=rem, **kw)
    SL = base
    cs = [tuple(int(i) for i in x) for x in SL.cluster_sites()]
    require(SL.Ncluster_sites == Nc and len(cs) == Nc and SL.n_orbitals == no * Nc, "number of sites")
    if mode != "auto": require(cs == [tuple(x) for x in sites], "given cluster sites are kept in their order", got=cs, want=sites)
    inv = np.linalg.inv(Sa.T.astype(float))
    for x in cs:
        f = inv @ np.array(x); require(np.all(f > -1e-9) and np.all(f < 1 - 1e-9), "cluster site outside of the super-cell", site=x)
    # inequivalent modulo the superlattice
    for a, b in itertools.combinations(cs, 2):
        f = inv @ (np.array(a) - np.array(b)); require(np.abs(f - np.round(f)).max() > 1e-9, "equivalent cluster sites", a=a, b=b)
    close(SL.units, Sa @ TB.units, 1e-12, "units of the superlattice")
    # pack / unpack
    idx = [SL.pack_index_site_orbital(a, o) for a in range(Nc) for o in range(no)]
    require(sorted(idx) == list(range(Nc * no)), "pack_index is a bijection")
    for a in range(Nc):
        for o in range(no): require(SL.unpack_index_site_orbital(SL.pack_index_site_orbital(a, o)) == (a, o), "unpack(pack)")
    pos = TB.orbital_positions
    for a in range(Nc):
        for o in range(no):
            close(SL.orbital_positions[SL.pack_index_site_orbital(a, o)], np.array(pos[o]) + np.concatenate([np.array(cs[a]) @ TB.units, np.zeros(3 - d)]), 1e-12, "orbital positions")
    require(len(set(SL.orbital_names)) == Nc * no, "orbital names are unique", names=SL.orbital_names)
    if no > 1 and Nc > 1:
        lab = {(a, o): SL.orbital_names[SL.pack_index_site_orbital(a, o)] for a in range(Nc) for o in range(no)}; tn = TB.orbital_names
        require(all(tn[o] in lab[a, o] and lab[a, o].replace(tn[o], "") == lab[a, 0].replace(tn[0], "") for a, o in lab), "orbital names follow the order of the orbitals", names=SL.orbital_names)
    # coordinates
    for _ in range(6):
        x = r.randint(-7, 8, d); Rv, al = SL.change_coordinates_L_to_SL(x)
        require(tuple(np.array(Rv) @ Sa + np.array(cs[al])) == tuple(x), "L -> SL", x=x, R=Rv, alpha=al)
        y = SL.change_coordinates_SL_to_L(Rv, al); require(tuple(y) == tuple(x), "SL -> L inverts L -> SL", x=x, got=y)
    # hoppings from their definition
    HS = SL.hoppings
    def t(x): return H.get(tuple(int(i) for i in x), np.zeros((no, no)))
    for Rv, M in HS.items():
        for a in range(Nc):
            for b in range(Nc):
                want = t(np.array(Rv) @ Sa + np.array(cs[b]) - np.array(cs[a]))
                if rem and tuple(Rv) == (0,) * d: want = np.zeros((no, no))
                ia = [SL.pack_index_site_orbital(a, o) for o in range(no)]; ib = [SL.pack_index_site_orbital(b, o) for o in range(no)]
                close(M[np.ix_(ia, ib)], want, 1e-12, "folded hopping", R=Rv, sites=(a, b), case=case)
    if not rem:
        require(abs(sum(np.sum(np.abs(m)**2) for m in HS.values()) - Nc * sum(np.sum(np.abs(m)**2) for m in H.values())) < 1e-8, "a hopping is lost or duplicated")
        k = r.uniform(-.5, .5, d); K = Sa @ k   # reduced coordinates of the same momentum
        n = [np.array(x) for x in itertools.product(range(Nc), repeat=d)]
        # momenta of the base lattice that fold on K:  S q integer
        q = {}
        for x in n:
            f = np.linalg.solve(Sa.astype(float), np.array(x, float)); q.setdefault(tuple(np.round(np.mod(f, 1), 6) % 1), f)
        require(len(q) == Nc, "self check: folded momenta")
        want = np.sort(np.concatenate([np.linalg.eigvalsh(Hk(H, k + np.array(x))) for x in q.values()]))
        close(np.sort(SL.dispersion(K)), want, 1e-8, "band folding", case=case)
    # fold: function of r -> function of R, with a user-defined zero
    F = SL.fold({(0,) * d: np.eye(no) * 2.5}); require(list(F) == [(0,) * d], "a local function folds to a local function"); close(F[(0,) * d], 2.5 * np.eye(no * Nc), 1e-13, "fold of a local function")
    for SL2 in (pickle.loads(pickle.dumps(SL)), cp.copy(SL)):
        require(SL2.Ncluster_sites == Nc and [tuple(x) for x in SL2.cluster_sites()] == cs and list(SL2.orbital_names) == list(SL.orbital_names), "pickle")
        for k_ in HS: close(SL2.hoppings[k_], HS[k_], 0, "hoppings after pickling")
    require(isinstance(repr(SL), str), "repr")

def u_super_bad(case):
    d, S = case
    c = (d, 1, (), 1); TB = tbl(c)
    if len(S) == d and all(len(x) == d for x in S) and det(S) != 0: raise Skip()
    try: TBSuperLattice(TB, S)
    except (ValueError, AssertionError): return
    require(False, "invalid superlattice accepted", case=case)

# ---- TBLattice
def u_tbl(case):
    c, s = case; d, no, R, _ = c
    TB = tbl(c); H = hops(c); r = rng(s)
    HH = TB.hoppings; require(set(HH) == set(H), "hoppings keys")
    for k in H: close(HH[k], H[k], 0, "hoppings")
    close(TB.units, units_(c), 0, "units"); require(TB.ndim == d and TB.n_orbitals == no and len(TB.orbital_names) == no and len(TB.orbital_positions) == no, "sizes")
    k = r.uniform(-1, 1, d); close(TB.fourier(k), Hk(H, k), 1e-11, "fourier"); close(TB.dispersion(k), np.linalg.eigvalsh(Hk(H, k)), 1e-10, "dispersion")
    x = r.randint(-3, 4, d); close(TB.lattice_to_real_coordinates(x), TB.bl.lattice_to_real_coordinates(x), 0, "real coordinates")
    D = TB.__reduce_to_dict__(); T2 = TBLattice.__factory_from_dict__("x", D)
    require(T2 == TB and TB == T2, "archive round trip"); require(not (TB == 3), "comparison with another type")
    H2 = {kk: v.copy() for kk, v in H.items()}; z = (0,) * d; H2[z] = H2[z] + np.eye(no)
    require(not (TBLattice(TB.units, H2, TB.orbital_positions, TB.orbital_names) == TB), "different hoppings compare equal")
    require(not (TBLattice(TB.units, H, TB.orbital_positions, ["z%d" % i for i in range(no)]) == TB), "different orbital names compare equal")
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        T3 = TBLattice(TB.units, hopping=H, orbital_positions=TB.orbital_positions, orbital_names=TB.orbital_names)
        require(any(issubclass(x.category, DeprecationWarning) for x in w), "deprecated keyword warns")
    require(T3 == TB, "deprecated keyword")
    T4 = TBLattice(TB.units, H, TB.orbital_positions); require(list(T4.orbital_names) == [""] * no, "default orbital names")
    n = [2, 3, 2][:d] + [1] * (3 - d)
    m = TB.get_kmesh(n); require(type(m).__name__ == "MeshBrZone" and len(m) == int(np.prod(n)), "k mesh"); m = TB.get_rmesh(n); require(type(m).__name__ == "MeshCycLat" and len(m) == int(np.prod(n)), "r mesh")
    L = tb_dos(TB, 6, 5, "nm"); require(len(L) == no and all(q.name == "nm" for q in L), "one DOS per band")
    try: e, a = LS.dos(TB, 6, 5)
    except Exception: e, a = LS.dos(TB.tb, 6, 5)
    for i, q in enumerate(L): require(np.array_equal(q.eps, e, equal_nan=True) and np.array_equal(q.rho, a[:, i], equal_nan=True), "dos of each band")

# ---- paths
def u_path(case):
    segs, num, bz, rel, s = case
    r = rng(s); pts = r.uniform(-.5, .5, (len(segs) + 1, 3)); S = []
    for i, cont in enumerate(segs):
        a = S[-1][1] if (S and cont) else r.uniform(-.5, .5, 3); S.append((a, r.uniform(-.5, .5, 3)))
    B = None
    cell = np.eye(3)
    if bz: B = LS.BrillouinZone(LS.BravaisLattice(np.eye(3) + .3 * r.uniform(-1, 1, (3, 3)))); cell = B.units
    arg = [tuple(list(x) for x in p) for p in S] if s % 2 else S
    k, dist, ticks = LU.k_space_path(arg, num=num, bz=B, relative_coordinates=rel)
    require(k.shape == (len(S) * num, 3) and dist.shape == (len(S) * num,) and ticks.shape == (len(S) + 1,), "shapes", k=k.shape, d=dist.shape, t=ticks.shape)
    cur = 0.0; close(ticks[0], 0, 0, "first tick")
    for i, (a, b) in enumerate(S):
        x = np.linspace(0, 1, num)[:, None]; want = a + x * (b - a)
        wabs = want @ cell; close(k[i * num:(i + 1) * num], want if rel else wabs, 1e-12, "points of the path", case=case)
        ln = np.linalg.norm((b - a) @ cell); close(dist[i * num:(i + 1) * num], cur + np.linspace(0, 1, num) * ln, 1e-11, "distance along the path", case=case)
        cur += ln; close(ticks[i + 1], cur, 1e-11, "ticks", case=case)
def u_path_default(case):
    k, dist, ticks = LU.k_space_path([((0, 0, 0), (.5, 0, 0))]); require(len(k) == 101 and abs(ticks[-1] - .5) < 1e-14, "defaults")

# ---- Wannier90
def w_write(d, seed, H, deg, units, unit, r):
    no = next(iter(H.values())).shape[0]; Rs = list(H)
    with open(os.path.join(d, seed + "_hr.dat"), "w") as f:
        f.write(" written by verif\n %d\n %d\n" % (no, len(Rs)))
        for i in range(0, len(Rs), 15): f.write("".join("%5d" % deg[x] for x in Rs[i:i + 15]) + "\n")
        for R in Rs:
            for n in range(no):
                for m in range(no):
                    v = H[R][m, n] * deg[R]
                    f.write("%5d%5d%5d%5d%5d%22.15f%22.15f\n" % (R + (m + 1, n + 1, v.real, v.imag)))
    with open(os.path.join(d, seed + ".wout"), "w") as f:
        f.write("junk\n\n   Lattice Unit\n              Lattice Vectors (%s)\n" % unit)
        for i in range(3): f.write("      a_%d   %18.14f %18.14f %18.14f\n" % ((i + 1,) + tuple(units[i])))
        f.write("\n   Unit Cell Volume: 1.0 (Ang^3)\n   Lattice Vectors of something else\n a_1 9 9 9\n")
import os
def u_wannier(case):
    c, unit, spin, loc, extra, s = case
    d0, no, R, _ = c; c = (3, no, tuple(tuple(x) + (0,) * (3 - len(x)) for x in R), c[3])
    H = hops(c); r = rng(s)
    for _ in range(extra):   # many R vectors: the degeneracy table spans several lines
        x = tuple(int(i) for i in r.randint(-4, 5, 3)); m = tuple(-i for i in x)
        if x in H: continue
        a = rand_c(r, no, no)
        if x == m: a = a + a.conj().T
        H[x] = a; H[m] = a.conj().T
    keys = list(H); keys = [keys[i] for i in r.permutation(len(keys))]; H = {k: H[k] for k in keys}
    deg = {}
    for k in H: deg[k] = deg.get(tuple(-i for i in k), int(r.randint(1, 9)))
    U = np.eye(3) * 3 + r.uniform(-1, 1, (3, 3)); d = tempfile.mkdtemp(prefix="verif_w90_")
    try:
        w_write(d, "sd", H, deg, U, unit, r)
        hd, nw = LU.parse_hopping_from_wannier90_hr_dat(os.path.join(d, "sd_hr.dat"))
        require(nw == no and set(hd) == set(H), "keys of the hopping dictionary", got=len(hd), want=len(H))
        o1 = all(np.allclose(hd[k], H[k], atol=1e-12) for k in H); o2 = all(np.allclose(hd[k], H[k].T, atol=1e-12) for k in H)
        require(o1 or o2, "hoppings of the file (up to one global transposition)", case=case)
        V = LU.parse_lattice_vectors_from_wannier90_wout(os.path.join(d, "sd.wout")); sc = 1 if unit == "Ang" else 0.529177210903
        close(np.array(V), U * sc, 1e-8, "lattice vectors", case=case)
        h2, n2 = LU.extend_wannier90_to_spin(hd, nw); require(n2 == 2 * nw, "spin: size")
        for k in hd:
            close(h2[k][:nw, :nw], hd[k], 0, "spin up block"); close(h2[k][nw:, nw:], hd[k], 0, "spin down block"); require(not h2[k][:nw, nw:].any() and not h2[k][nw:, :nw].any(), "spin off-diagonal")
        n = no * (2 if spin else 1); A = rand_c(r, n, n); A = A + A.conj().T
        T = LU.TB_from_wannier90("sd", path=d + "/", extend_to_spin=spin, add_local=A if loc else None)
        require(T.n_orbitals == n and T.ndim == 3, "size"); close(T.units, U * sc, 1e-8, "units")
        for _ in range(2):
            k = r.uniform(-.5, .5, 3); M = Hk(hd, k); M = np.kron(np.eye(2), M) if spin else M
            if loc: M = M + A
            close(T.fourier(k), M, 1e-10, "TB_from_wannier90", case=case)
            if not loc: close(T.dispersion(k), np.sort(np.repeat(np.linalg.eigvalsh(Hk(H, k)), 2 if spin else 1)), 1e-10, "bands", case=case)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)

# ---- pythTB
class FakePTB:
    def __init__(self, d, no, onsite, hop, lat, orb): self._dim_r = self._dim_k = d; self._norb = no; self._site_energies = onsite; self._hoppings = hop; self._lat = lat; self._orb = orb; self._nspin = 1
    def get_num_orbitals(self): return self._norb
    def get_lat(self): return self._lat.copy()
    def get_orb(self): return self._orb.copy()
def u_ptb(case):
    d, no, hp, s = case; r = rng(s)
    on = r.uniform(-1, 1, no); hop = []
    for (i, j, R) in hp:
        i, j, R = i % no, j % no, tuple(R[:d])
        if i == j and not any(R): continue
        hop.append([complex(*r.uniform(-1, 1, 2)), i, j, np.array(R)])
    lat = np.eye(d) + .2 * r.uniform(-1, 1, (d, d)); orb = r.uniform(0, 1, (no, d))
    T = LU.TB_from_pythTB(FakePTB(d, no, on, hop, lat, orb))
    require(T.ndim == d and T.n_orbitals == no, "size"); close(T.units, lat, 1e-14, "units")
    for _ in range(2):
        k = r.uniform(-.5, .5, d); M = np.diag(on).astype(complex)
        for a, i, j, R in hop:
            M[i, j] += a * np.exp(2j * np.pi * np.dot(k, R)); M[j, i] += np.conj(a * np.exp(2j * np.pi * np.dot(k, R)))
        close(T.fourier(k), M, 1e-12, "TB_from_pythTB", case=case)

# ---- sympy
def u_sympy(case):
    c, analytical, s = case; d, no, R, _ = c
    if d == 1: raise Skip()
    H = {k: np.round(v, 3) for k, v in hops(c).items()}
    T = TBLattice(units_(c), H, [(0, 0, 0)] * no, ["o%d" % i for i in range(no)])
    import sympy as sp, warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        E = LU.TB_to_sympy(T, analytical=analytical)
    r = rng(s); k = r.uniform(-.5, .5, d); U = T.units
    if analytical: sub = {sp.Symbol("a%dk" % (i + 1), real=True): 2 * np.pi * (k[i] if i < d else 0.3) for i in range(3)}
    else:
        kc = np.linalg.solve(np.round(U, 6), 2 * np.pi * k); sub = {sp.Symbol("k" + "xyz"[i], real=True): (kc[i] if i < d else 0.3) for i in range(3)}
    M = np.array([[complex(sp.N(sp.sympify(E[i, j]).subs(sub))) for j in range(no)] for i in range(no)])
    a, b = Hk(H, k), Hk(H, -k)   # sign convention of the phase is not part of the statement
    require(np.allclose(M, a, atol=1e-6) or np.allclose(M, b, atol=1e-6), "symbolic Hamiltonian", got=M, want=a, case=case)

# ---- points and patches
def u_point(case):
    i, j, s, x = case; r = rng(s); bl = LS.BravaisLattice(np.eye(3) + .3 * r.uniform(-1, 1, (3, 3)))
    p, q = LatticePoint(list(i), bl), LatticePoint(list(j), bl); v, w = np.array(i) @ bl.units, np.array(j) @ bl.units
    close(p.value, v, 1e-13, "value"); close(np.array(p), v, 1e-13, "cast"); close((p + q).value, v + w, 1e-13, "+"); close((p - q).value, v - w, 1e-13, "-"); close((-p).value, -v, 1e-13, "unary -")
    require(list((p + q).index) == [a + b for a, b in zip(i, j)] and list((p - q).index) == [a - b for a, b in zip(i, j)], "indices add")
    close(p * x, v * x, 1e-13, "*"); close(x * p, v * x, 1e-13, "* on the left"); close(p / (abs(x) + .5), v / (abs(x) + .5), 1e-13, "/")
    y = r.uniform(-1, 1, 3); close(p + y, v + y, 1e-13, "+ array"); close(p - y, v - y, 1e-13, "- array")
    close(p + MeshPoint(0, 0, 0, y), v + y, 1e-13, "+ mesh point"); close(p - MeshPoint(0, 0, 0, y), v - y, 1e-13, "- mesh point")
    for a in range(3): require(p[a] == p.value[a], "component")
    close(p.value, v, 1e-13, "value unchanged"); require(len(p) == 3, "len")

def convex(n, r):
    a = np.sort(r.uniform(0, 2 * np.pi, n)); return [tuple(x) for x in np.c_[np.cos(a) * .4, np.sin(a) * .3] + r.uniform(-.2, .2, 2)]
def u_patch(case):
    ns, s, asl = case; r = rng(s); P = [convex(n, r) for n in ns]
    area = lambda p: .5 * abs(sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p))))
    b = BZPatch("nm", [[list(x) for x in p] for p in P] if asl else P)
    require(b.name == "nm", "name"); close(b.weight, sum(map(area, P)), 1e-12, "weight of the patch is its area", case=case)
    T = np.array(b._triangles).reshape(-1, 3, 2); require(len(T) == sum(n - 2 for n in ns) == len(b._weights), "number of triangles")
    for t, w in zip(T, b._weights): close(w, area([tuple(x) for x in t]), 1e-13, "weight of a triangle")
    q = 0
    for p in P:
        k = len(p) - 2; close(sum(b._weights[q:q + k]), area(p), 1e-12, "triangles of a polygon cover it")
        c1 = sum(w * t.mean(axis=0) for w, t in zip(b._weights[q:q + k], T[q:q + k]))
        ex = np.zeros(2)
        sg = sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p))) / 2
        for i in range(len(p)):
            cr = p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1]; ex += (np.array(p[i]) + np.array(p[(i + 1) % len(p)])) * cr / 6
        close(c1, ex * np.sign(sg), 1e-12, "first moment of the triangulation")
        q += k

def units():
    big = lambda c: abs(det(c[1])) > 1
    return [
        Unit("superlattice", supercase(), u_super, 700, 5000, big, "more than one site per super-cell"),
        Unit("superlattice_bad", st.tuples(st.integers(1, 3), st.lists(st.lists(st.integers(-2, 2), min_size=1, max_size=3), min_size=1, max_size=3)), u_super_bad, 150, 500, lambda c: True, "every case"),
        Unit("tb_lattice", st.tuples(lattice(maxorb=4), seeds()), u_tbl, 300, 2000, lambda c: len(c[0][2]) > 0, "at least one hopping"),
        Unit("k_path", st.tuples(st.lists(st.booleans(), min_size=1, max_size=9).map(tuple), st.integers(2, 120), st.booleans(), st.booleans(), seeds()), u_path, 500, 3000, lambda c: len(c[0]) > 1, "several segments"),
        Unit("wannier90", st.tuples(lattice(), st.sampled_from(["Ang", "Bohr"]), st.booleans(), st.booleans(), st.integers(0, 20), seeds()), u_wannier, 250, 1500, lambda c: c[0][1] > 1, "several orbitals"),
        Unit("pythtb", st.tuples(st.integers(1, 3), st.integers(1, 3), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.tuples(*[st.integers(-2, 2)] * 3)), max_size=6).map(tuple), seeds()), u_ptb, 400, 2500, lambda c: len(c[2]) > 1, "several hoppings"),
        Unit("sympy", st.tuples(lattice(dims=(2, 3), maxorb=2, maxr=1, nr=2), st.booleans(), seeds()), u_sympy, 50, 250, lambda c: len(c[0][2]) > 0, "at least one hopping"),
        Unit("lattice_point", st.tuples(st.tuples(*[st.integers(-4, 4)] * 3), st.tuples(*[st.integers(-4, 4)] * 3), seeds(), real()), u_point, 200, 1000, lambda c: any(c[0]), "non-zero point"),
        Unit("bz_patch", st.tuples(st.lists(st.integers(3, 7), min_size=1, max_size=3).map(tuple), seeds(), st.booleans()), u_patch, 200, 1000, lambda c: max(c[0]) > 3, "polygon with more than three corners"),
    ]
