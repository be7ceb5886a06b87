"""Matsubara frequencies and mesh points behave as the numbers they stand for."""
from common import *
load()
from triqs.gf import MeshProduct
import cmath, math
from triqs.gf.matsubara_freq import MatsubaraFreq
from triqs.gf.mesh_point import MeshPoint, MeshValueGenerator
import triqs.gf.mesh_product as MPm
from gfcommon_loader import *
RULE = "generated frequencies, scalars, arrays and expression trees; oracle: the arithmetic of the complex numbers they denote"
B = [1.0, 2.0, 3.0, 40.0, .5]
def v(n, b, s): return 1j * math.pi * (2 * n + (s == "Fermion")) / b
def ev(t, leaf):
    """evaluate an expression tree on (object, reference) pairs"""
    k = t[0]
    if k == "leaf": return leaf(t[1])
    if k == "num": return t[1], t[1]
    if k == "neg": a = ev(t[1], leaf); return -a[0], -a[1]
    a, b = ev(t[1], leaf), ev(t[2], leaf)
    if k == "+": return a[0] + b[0], a[1] + b[1]
    if k == "-": return a[0] - b[0], a[1] - b[1]
    if k == "*": return a[0] * b[0], a[1] * b[1]
    if abs(b[1]) < 1e-3: raise Skip()
    return a[0] / b[0], a[1] / b[1]
def depth(t): return 0 if t[0] in ("leaf", "num") else 1 + max(depth(x) for x in t[1:])

def u_freq(case):
    n, b, s, m, s2, x, k = case
    f, g = MatsubaraFreq(n, b, s), MatsubaraFreq(m, b, s2); F, G = v(n, b, s), v(m, b, s2)
    require(f.n == n and f.beta == b and f.statistic == s, "attributes"); t = 1e-12
    for h, H in ((f, F), (g, G)):
        close(complex(h), H, t, "value"); close(h.value, H, t, "value"); close(h.imag, H.imag, t, "imag"); require(h.real == 0, "real"); close(abs(h), abs(H), t, "abs")
    for r, R in ((f + g, F + G), (f - g, F - G), (-f, -F), (f + (-g), F - G), (-(f + g), -F - G)):
        require(isinstance(r, MatsubaraFreq) and isinstance(r.n, int), "sum, difference and opposite are Matsubara frequencies", got=r); close(complex(r), R, t, "value of the sum, difference or opposite", case=case)
        require(r.beta == b, "beta")
    st_ = "Fermion" if s != s2 else "Boson"; require((f + g).statistic == st_ and (f - g).statistic == st_ and (-f).statistic == s, "statistic of the result")
    for r, R in ((f * g, F * G), (f * x, F * x), (x * f, F * x), (f + x, F + x), (x + f, F + x), (f - x, F - x), (x - f, x - F), (f ** k, F ** k)): close(complex(r), R, 1e-9, "arithmetic", case=case)
    if G: close(f / g, F / G, 1e-9, "quotient")
    if x: close(f / x, F / x, 1e-9, "quotient by a number")
    if F: close(x / f, x / F, 1e-9, "number over frequency"); close(f ** -1, 1 / F, 1e-9, "inverse")
    A = rng(abs(n)).uniform(-1, 1, (2, 3)) + 1j
    for r, R in ((f * A, F * A), (A * f, A * F), (f + A, F + A), (A + f, A + F), (A - f, A - F), (f - A, F - A), (f / A, F / A)): close(np.asarray(r, dtype=complex), R, 1e-9, "arithmetic with arrays")
    o = MatsubaraFreq(m, b + (1, 0.01, -0.01)[(n + m) % 3], s2); raises(RuntimeError, lambda: f + o, "different temperatures"); raises(RuntimeError, lambda: f - o, "different temperatures")
    require(str(n) in str(f) and s in str(f), "printing")

def u_tree(case):
    t, b = case
    def leaf(i): n, s = i; return MatsubaraFreq(n, b, s), v(n, b, s)
    try: r, R = ev(t, leaf)
    except OverflowError: raise Skip()
    if abs(R) > 1e12: raise Skip()
    close(complex(r), R, 1e-8, "expression", case=case)

class Foreign:
    def __init__(s, x): s.x = x
def u_point(case):
    x, y, k, seed = case
    p, q = MeshPoint(3, 4, 5, x, .5), MeshPoint(1, 2, 3, y)
    require((p.index, p.data_index, p.mesh_hash, p.value, p.weight) == (3, 4, 5, x, .5), "attributes")
    for r, R in ((p + q, x + y), (p - q, x - y), (p * q, x * y), (p + y, x + y), (y + p, y + x), (p - y, x - y), (y - p, y - x), (p * y, x * y), (y * p, y * x), (-p, -x)): close(r, R, 0, "arithmetic of mesh points", case=case); require(type(r) == type(R), "type of the result")
    if y: close(p / q, x / y, 0, "quotient"); close(p / y, x / y, 0, "quotient")
    if x: close(y / p, y / x, 0, "quotient")
    r = rng(seed); M, N = r.uniform(-1, 1, (2, 2)), r.uniform(-1, 1, (2, 2))
    a = MeshPoint(0, 0, 0, M)
    for r_, R in ((a + N, M + N), (a - N, M - N), (a * N, M * N), (a * p, M * x), (p * a, x * M), (p - a, x - M)): close(r_, R, 1e-14, "array-valued points")
    close(a[1], M[1], 0, "getitem"); close(a[k % 2, 1], M[k % 2, 1], 0, "getitem")
    close(complex(p), complex(x), 0, "complex()"); close([p.real, p.imag], [x.real, x.imag], 0, "real and imag")
    if not isinstance(x, complex): require(float(p) == float(x) and int(p) == int(x), "float() and int()")
    f = MeshPoint(0, 0, 0, lambda *a, **kw: (a, kw)); require(f(1, y, z=2) == ((1, y), {"z": 2}), "call")
    w = MatsubaraFreq(k, 2.0, "Fermion"); W = v(k, 2.0, "Fermion"); mp = MeshPoint(k, 0, 0, w)
    for r_, R in ((mp + w, 2 * W), (w + mp, 2 * W), (mp - p, W - x), (p - mp, x - W), (mp * 2, 2 * W), (x + mp, x + W), (w - mp, 0), (mp - w, 0)): close(complex(r_), R, 1e-12, "frequency points")
    close(complex(1 / mp), 1 / W, 1e-12, "inverse of a frequency point"); close(complex(mp), W, 1e-13, "complex()"); close(mp.imag, W.imag, 1e-13, "imag")

def u_mesh(case):
    kinds, size, seed = case
    m = mk_mesh_list(kinds, size); pts = list(m); one = len(kinds) == 1
    require(len(pts) == len(m) == int(np.prod(mesh_shape(m))), "number of points")
    L = [list(x) for x in (m._mlist if not one else [m])]
    import itertools
    for j, (p, c) in enumerate(zip(pts, itertools.product(*L))):
        if one:
            require(p.data_index == c[0].data_index and p.index == c[0].index, "point"); q = m(p.index); require(q.data_index == p.data_index and q.index == p.index, "mesh(index)"); require(m[p.data_index].index == p.index, "mesh[data index]")
            require(p.mesh_hash == m.mesh_hash, "hash")
        else:
            I = tuple(x.index for x in c); D = tuple(x.data_index for x in c)
            require(tuple(x.index for x in p) == I and tuple(x.data_index for x in p) == D, "components of a product point", case=case)
            require(j == np.ravel_multi_index(D, mesh_shape(m)), "product points come in row-major order of the data")
            require(tuple(m.to_data_index(I)) == D, "to_data_index", case=case)
    if not one:
        comp = list(m._mlist); require(m == m.copy() and m == MeshProduct(*comp) and not (m != m.copy()), "equality of product meshes")
        for other in (comp[:-1], comp[1:], comp + comp[:1], comp + comp[-1:]): require(not (m == MeshProduct(*other)) and not (MeshProduct(*other) == m), "product meshes with different numbers of components are equal", case=case)
        rev = comp[::-1]
        if any(not (a == b) for a, b in zip(comp, rev)): require(not (m == MeshProduct(*rev)), "product meshes with different components are equal", case=case)
    if one:
        vals = list(MeshValueGenerator(m)); require(len(vals) == len(pts), "values() has one entry per point")
        for a, p in zip(vals, pts): require(a is p.value or np.all(np.asarray(a) == np.asarray(p.value)) or complex(a) == complex(p), "values are those of the points")

def units():
    n = st.integers(-20, 20); S = st.sampled_from(["Fermion", "Boson"]); b = st.sampled_from(B)
    num = st.one_of(st.integers(-3, 3), real(), cplx())
    leaf = st.tuples(st.just("leaf"), st.tuples(n, S)); tree = st.recursive(st.one_of(leaf, leaf, st.tuples(st.just("num"), num)), lambda c: st.one_of(st.tuples(st.sampled_from(["+", "-", "*", "/"]), c, c), st.tuples(st.just("neg"), c)), max_leaves=8)
    return [Unit("frequency", st.tuples(n, b, S, n, S, num, st.integers(0, 4)), u_freq, 1200, 8000, lambda c: c[0] and c[3], "both frequencies of non-zero index"),
            Unit("expressions", st.tuples(tree, b), u_tree, 1500, 10000, lambda c: depth(c[0]) > 1, "expression of depth at least two"),
            Unit("points", st.tuples(num, num, st.integers(-5, 5), seeds()), u_point, 1000, 6000, lambda c: c[0] and c[1], "non-zero values"),
            Unit("meshes", st.tuples(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3).map(tuple), st.integers(2, 3), seeds()), u_mesh, 300, 1500, lambda c: len(c[0]) > 1, "product mesh")]
