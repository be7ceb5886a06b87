"""Lazy initialisers, descriptors and Green-function tools."""
from gfcommon_loader import *
import tempfile, warnings, math
from triqs.gf import descriptors as DS, lazy_expressions as LE, tools as TT, inverse, conjugate, transpose
from triqs.gf import SemiCircular, Flat, Wilson, Omega, iOmega_n, Fourier, LegendreToMatsubara, MatsubaraToLegendre
from triqs.gf.descriptor_base import Function, Const
RULE = "generated meshes, targets, expression trees, parameters; oracle: numpy evaluation on the mesh values, closed-form Hilbert transforms, reconstruction"

FM = ["imfreq_f", "imfreq_b", "refreq"]
def fmesh(kind, n, beta=3.0, win=(-1.9, 2.3)):
    if kind == "imfreq_f": return MS.MeshImFreq(beta, "Fermion", n)
    if kind == "imfreq_b": return MS.MeshImFreq(beta, "Boson", n)
    if kind == "dlr_imfreq": return MS.MeshDLRImFreq(beta, "Fermion", 4.0, 1e-6)
    return MS.MeshReFreq(win[0], win[1], n + 2)
def zvals(mesh): return np.array([complex(p.value) for p in mesh])
def bc(v, t):  # broadcast an array of values over the identity of the target
    return v if not t else v[:, None, None] * np.eye(t[0])
TSQ = [(), (1, 1), (2, 2), (3, 3)]

# ---- descriptors
def semi_z(z, D):
    z = np.asarray(z, complex); return 2 / D**2 * z * (1 - np.sqrt(1 - (D / z)**2))
def semi_quad(z, D, n=4000):
    k = np.arange(1, n + 1); x = np.cos(np.pi * k / (n + 1)); w = np.pi / (n + 1) * np.sin(np.pi * k / (n + 1))**2
    return np.array([2 / np.pi * np.sum(w / (q - D * x)) for q in np.atleast_1d(z)])
def u_desc(case):
    kind, n, t, D, mu, what, s = case
    mesh = fmesh(kind, n, beta=1.0 + (s % 17)); z = zvals(mesh); r = rng(s)
    g = mk_gf(r, mesh, t)
    if kind == "refreq":
        w = z.real + (mu if what == "semi" else 0)
        if np.any(np.abs(np.abs(w) - D) < 1e-6): raise Skip()
    elif what == "semi" and kind == "imfreq_b" : z = z.copy()
    if what == "semi":
        g << SemiCircular(D, mu) if (mu or s % 2) else g << SemiCircular(D)
        if kind == "refreq":
            ins = np.abs(w) < D
            want = 2 / D**2 * np.where(ins, w - 1j * np.sqrt(np.maximum(D**2 - w**2, 0)), w - np.sign(w) * np.sqrt(np.maximum(w**2 - D**2, 0)))
        else:
            zz = z + mu; ok = np.abs(zz.imag) > 1e-9
            want = np.where(ok, semi_z(np.where(ok, zz, 1j), D), 0)
            if ok.any() and np.abs(zz.imag[ok]).min() / D > 0.02: close(semi_quad(zz[ok], D), want[ok], 1e-6, "closed form (self check)")
            if not ok.all(): g.data[~ok] = 0; 
        close(g.data, bc(want, t), 1e-9, "SemiCircular", case=case)
        if kind == "refreq": require(np.all(g.data.imag.diagonal(0, 1, 2) <= 1e-12) if t else np.all(g.data.imag <= 1e-12), "spectral function is positive")
    elif what == "flat":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (g << Flat(D)) if s % 2 else (g << Wilson(D))
        if kind == "refreq":
            w = z.real; want = 1 / (2 * D) * np.log(np.abs(w + D) / np.abs(w - D)) - 1j * np.pi / (2 * D) * (np.abs(w) < D)
        else:
            ok = np.abs(z.imag) > 1e-9; x, wq = np.polynomial.legendre.leggauss(400)
            want = np.where(ok, -np.log(np.where(ok, z, 1j) - D) / (2 * D) + np.log(np.where(ok, z, 1j) + D) / (2 * D), 0)
            # ln branch: the imaginary part of ln(z-D)-ln(z+D) never leaves (-pi, pi) off the real axis
            if not ok.all(): g.data[~ok] = 0
        close(g.data, bc(want, t), 1e-9, "Flat", case=case)
    elif what == "omega":
        g << (Omega if s % 2 else iOmega_n); close(g.data, bc(z, t), 1e-12, "Omega", case=case)
    elif what == "const":
        if t and s % 2: C = rand_c(r, *t); g << C; want = np.broadcast_to(C, g.data.shape)
        else: g << mu; want = bc(np.full(len(z), mu, complex), t)
        close(g.data, want, 1e-12, "constant", case=case)
        if t:
            raises(RuntimeError, lambda: g << np.zeros((t[0] + 1, t[0] + 1)), "constant of the wrong size accepted"); close(g.data, want, 1e-12, "rejected constant leaves the target unchanged")
    elif what == "function":
        M = rand_c(r, *t) if t else 0.7
        g << Function(lambda w: M / (complex(w) - 5j - D)); z2 = 1 / (z - 5j - D)
        close(g.data, z2[:, None, None] * M if t else z2 * M, 1e-12, "Function", case=case)
        import io, contextlib
        def bad(): 
            with contextlib.redirect_stdout(io.StringIO()): g << Function(lambda w: undefined_name)
        raises(NameError, bad, "exception inside of the user function")
    elif what == "wrongmesh":
        h = mk_gf(r, mk_mesh(["imtime_f", "retime", "legendre", "brzone"][s % 4], 2), t); d = h.data.copy()
        for x in (SemiCircular(D), Flat(D), Omega, 2.0):
            raises(TypeError, lambda: h << x, "frequency initialiser accepted on another mesh"); close(h.data, d, 0, "unchanged")

def u_semi_dos(case):
    """the semicircular density: closed form, normalised, and its Hilbert transform is the descriptor"""
    D, xs = case; f = DS.semi(D)
    for x in xs:
        w = x * D; want = 2 / (np.pi * D * D) * math.sqrt(D * D - w * w) if abs(x) < 1 else 0.0
        require(abs(f(w) - want) < 1e-7 / D, "semicircular density", D=D, w=w, got=f(w), want=want)
    n = 400; k = np.arange(1, n + 1); th = np.pi * k / (n + 1); m = [sum(f(D * math.cos(a)) * (D * math.cos(a)) ** q * math.sin(a) * D for a in th) * np.pi / (n + 1) for q in (0, 1, 2)]
    require(abs(m[0] - 1) < 1e-9 and abs(m[1]) < 1e-9 * D and abs(m[2] - D * D / 4) < 1e-9 * D * D, "moments of the semicircular density", D=D, got=m)
def u_ofit(case):
    n, t, L, st_ = case
    mesh = MS.MeshImTime(3.0, "Fermion", n); g = mk_gf(rng(1), mesh, t)
    g << DS.OneFermionInTime(L); tau = np.linspace(0, 3.0, n)
    close(g.data, bc(-np.exp(-L * tau) / (1 + np.exp(-L * 3.0)) + 0j, t), 1e-10, "OneFermionInTime", case=case)

# ---- expression trees
@st.composite
def tree(draw, depth, mat):
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        return draw(st.sampled_from([("om",), ("h", 0), ("h", 1), ("self",), ("semi", 1.5), ("flat", 0.75), ("fun",), ("om",)]))
    k = draw(st.sampled_from(["+", "-", "*", "+s", "-s", "s+", "s-", "*s", "s*", "/s", "inv", "conj", "tr", "+m", "*m", "+", "-"]))
    if k in "+-*": return (k, draw(tree(depth - 1, mat)), draw(tree(depth - 1, mat)))
    if k in ("inv", "conj", "tr"):
        if k == "tr" and not mat: k = "conj"
        return (k, draw(tree(depth - 1, mat)))
    if k in ("+m", "*m"):
        if not mat: k = k[0] + "s"
        else: return (k, draw(tree(depth - 1, mat)), draw(st.integers(0, 1000)))
    return (k, draw(tree(depth - 1, mat)), draw(st.sampled_from([2, -1.5, 0.5 + 1j, 1, 3.25])))

def has_lazy(t): return t[0] in ("om", "semi", "flat", "fun") or any(has_lazy(c) for c in t[1:] if isinstance(c, tuple))

class Sing(Exception): pass
def ev_np(t, env):
    """numpy evaluation: array of shape (nw,n,n) (scalars are promoted to 1x1)"""
    z, n = env["z"], env["n"]; I = np.eye(n)
    o = t[0]
    if o == "om": return z[:, None, None] * I
    if o == "h": return env["h"][t[1]]
    if o == "self": return env["self"]
    if o == "semi": return env["semi"](t[1])[:, None, None] * I
    if o == "flat": return env["flat"](t[1])[:, None, None] * I
    if o == "fun": return (1 / (z + 2j))[:, None, None] * I
    a = ev_np(t[1], env)
    if o == "inv":
        if np.linalg.cond(a).max() > 1e5 or np.abs(np.linalg.det(a)).min() < 1e-6: raise Sing()
        return np.linalg.inv(a)
    if o == "conj": return a.conj()
    if o == "tr": return np.swapaxes(a, 1, 2)
    if o == "+m": return a + rand_c(rng(t[2]), n, n)
    if o == "*m": return a @ rand_c(rng(t[2]), n, n)
    if o in "+-*":
        b = ev_np(t[2], env); return a + b if o == "+" else a - b if o == "-" else a @ b
    s = t[2]
    return {"+s": lambda: a + s * I, "-s": lambda: a - s * I, "s+": lambda: s * I + a, "s-": lambda: s * I - a, "*s": lambda: a * s, "s*": lambda: s * a, "/s": lambda: a / s}[o]()
def ev_tq(t, env):
    o = t[0]
    if o == "om": return Omega
    if o == "h": return env["H"][t[1]]
    if o == "self": return env["G"]
    if o == "semi": return SemiCircular(t[1])
    if o == "flat": return Flat(t[1])
    if o == "fun": return Function(lambda w: env["I"] / (complex(w) + 2j))
    a = ev_tq(t[1], env); n = env["n"]
    if o == "inv": return inverse(a)
    if o == "conj": return conjugate(a)
    if o == "tr": return transpose(a)
    if o == "+m": return a + rand_c(rng(t[2]), n, n)
    if o == "*m": return a * rand_c(rng(t[2]), n, n)
    if o in "+-*":
        b = ev_tq(t[2], env); return a + b if o == "+" else a - b if o == "-" else a * b
    s = t[2]
    return {"+s": lambda: a + s, "-s": lambda: a - s, "s+": lambda: s + a, "s-": lambda: s - a, "*s": lambda: a * s, "s*": lambda: s * a, "/s": lambda: a / s}[o]()

def u_expr(case):
    kind, n, s, tr, n_iw = case
    r = rng(s); t = () if n == 0 else (n, n)
    mesh = fmesh(kind, n_iw, win=(-1.93, 2.31)); z = zvals(mesh)
    if kind == "imfreq_b": z = z.copy()
    G = mk_gf(r, mesh, t); H = [mk_gf(r, mesh.copy(), t) for _ in (0, 1)]
    up = lambda d: d if t else d[:, None, None]
    if kind == "imfreq_b" and any(k in repr(tr) for k in ("semi", "flat")): raise Skip()
    if kind == "refreq":
        semi = lambda D: 2 / D**2 * np.where(np.abs(z.real) < D, z.real - 1j * np.sqrt(np.maximum(D**2 - z.real**2, 0)), z.real - np.sign(z.real) * np.sqrt(np.maximum(z.real**2 - D**2, 0)))
        flat = lambda D: 1 / (2 * D) * np.log(np.abs(z.real + D) / np.abs(z.real - D)) - 1j * np.pi / (2 * D) * (np.abs(z.real) < D)
    else:
        semi = lambda D: semi_z(z, D); flat = lambda D: (np.log(z + D) - np.log(z - D)) / (2 * D)
    env = dict(z=z, n=max(n, 1), h=[up(h.data.copy()) for h in H], self=up(G.data.copy()), semi=semi, flat=flat, H=H, G=G, I=np.eye(n) if n else 1.0)
    try: want = ev_np(tr, env)
    except Sing: raise Skip()
    if np.abs(want).max() > 1e6: raise Skip()
    E = ev_tq(tr, env)
    if DS.is_lazy(E): require(isinstance(str(E), str), "printable")
    hd = [h.data.copy() for h in H]; gd = G.data.copy()
    close(G.data, gd, 0, "building an expression has no side effect")
    G << E
    close(up(G.data), want, 1e-6, "g << expression", case=case)
    for h, d in zip(H, hd): close(h.data, d, 0, "operands of the expression are unchanged")
    if isinstance(E, LE.LazyExpr):   # expressions are re-usable values
        K = G.copy(); K.data[...] = up(gd) if t else gd
        if "self" not in repr(tr):
            K << E; close(up(K.data), want, 1e-6, "second evaluation of the same expression")
        if "self" not in repr(tr):
            c = E.copy(); K << c; close(up(K.data), want, 1e-6, "evaluation of a copy of the expression"); require(str(c) == str(E), "a copy prints the same")

def u_print(case):
    """printed form denotes the same value"""
    (tr, vals) = case
    class X(LE.LazyExprTerminal):
        def __init__(self, n): self.n = n
        def __str__(self): return self.n
        __repr__ = __str__
    names = "abc"
    def mk(t):
        if isinstance(t, int): return LE.LazyExpr(X(names[t]))
        if t[0] == "f": return LE.lazy_function("f", lambda x: 3 * x + 1)(mk(t[1]))
        return LE.LazyExpr(t[0], mk(t[1]), mk(t[2]))
    def py(t):
        from fractions import Fraction as Fr
        if isinstance(t, int): return Fr(vals[t])
        if t[0] == "f": return 3 * py(t[1]) + 1
        a, b = py(t[1]), py(t[2])
        if t[0] == "/" and b == 0: raise Skip()
        return a + b if t[0] == "+" else a - b if t[0] == "-" else a * b if t[0] == "*" else a / b
    from fractions import Fraction as Fr
    E = mk(tr); want = py(tr)
    env = {c: Fr(v) for c, v in zip(names, vals)}; env["f"] = lambda x: 3 * x + 1
    got = eval(str(E), env)
    require(got == want, "printed lazy expression has another value", text=str(E), got=got, want=want)
    ev = LE.eval_expr_with_context(lambda x: env[x.n], E); require(ev == want, "evaluation in a context", got=ev, want=want)
    T = LE.transform(E, lambda tag, ch: ("+" if tag == "-" else tag, ch), lambda x: X("a") if isinstance(x, X) else x)
    def py2(t):
        if isinstance(t, int): return Fr(vals[0])
        if t[0] == "f": return 3 * py2(t[1]) + 1
        a, b = py2(t[1]), py2(t[2])
        if t[0] == "/" and b == 0: raise Skip()
        return a + b if t[0] in "+-" else a * b if t[0] == "*" else a / b
    w2 = py2(tr); require(LE.eval_expr_with_context(lambda x: env[x.n], T) == w2, "transform(node, terminal)")
    leaves = lambda t: [names[t]] if isinstance(t, int) else sum([leaves(c) for c in t[1:]], [])
    require([x.n for x in LE.all_terminals(E) if isinstance(x, X)] == leaves(tr), "all_terminals")
ptree = st.recursive(st.integers(0, 2), lambda ch: st.one_of(st.tuples(st.sampled_from("+-*/"), ch, ch), st.tuples(st.just("f"), ch)), max_leaves=8)

def u_evalexpr(case):
    kind, n, s, sc = case
    t = () if n == 0 else (n, n); r = rng(s); mesh = fmesh(kind, 3); z = zvals(mesh)
    h = mk_gf(r, mesh, t); k = mk_gf(r, mesh.copy(), t)
    E = (Omega + h) * sc - k
    res = LE.eval_expr(E); close(res.data, (bc(z, t) + h.data) * sc - k.data, 1e-11, "eval_expr", case=case)
    require(LE.eval_expr(h) is h, "eval_expr of a plain object")
    raises(ValueError, lambda: LE.eval_expr(Omega * 2 + SemiCircular(1.)), "purely abstract expression evaluated")
    o = mk_gf(r, fmesh(kind, 4), t); raises(ValueError, lambda: LE.eval_expr(LE.make_lazy(h) + LE.make_lazy(o)), "incompatible terminals evaluated")
    a = LE.LazyExpr(Omega); b = a.copy(); a += 1.0; require(b.is_terminal() and b.get_terminal() is Omega and not a.is_terminal(), "copies of an expression are independent")

def u_block_desc(case):
    n, sizes, s, what = case
    r = rng(s); names = ["b%d" % i for i in range(len(sizes))]
    if what == 0: mi, mo, D, fun = MS.MeshImTime(2., "Fermion", 5), MS.MeshImFreq(2., "Fermion", 2), Fourier, "set_from_fourier"
    elif what == 1: mi, mo, D, fun = MS.MeshLegendre(2., "Fermion", 4), MS.MeshImFreq(2., "Fermion", 2), LegendreToMatsubara, "set_from_legendre"
    else: mi, mo, D, fun = MS.MeshImFreq(2., "Fermion", 2), MS.MeshLegendre(2., "Fermion", 4), MatsubaraToLegendre, "set_from_imfreq"
    A = BlockGf(name_list=names, block_list=[mk_gf(r, mi, (k, k)) for k in sizes])
    B = BlockGf(name_list=names, block_list=[mk_gf(r, mo, (k, k)) for k in sizes])
    want = {}
    for b, g in A:
        tmp = B[b].copy(); getattr(TG.gf_fnt, fun)(tmp, g); want[b] = tmp.data.copy()
    d = D(A); B << d
    for b, g in B: close(g.data, want[b], 1e-12, "block transform descriptor", block=b)
    B.zero(); B << d
    for b, g in B: close(g.data, want[b], 1e-12, "block transform descriptor applied again", block=b)
    x = B[names[0]]; x.zero(); x << D(A[names[0]]); close(x.data, want[names[0]], 1e-12, "transform descriptor of one block")
    x.zero()
    if what != 2: x << 2 * D(A[names[0]]); close(x.data, 2 * want[names[0]], 1e-12, "transform descriptor inside of an expression")

# ---- tools
def u_dyson(case):
    n, s, blocks, kind = case
    r = rng(s); mesh = fmesh(kind, 4); z = zvals(mesh)
    t = (n, n) if n else ()
    def one():
        E = rand_c(r, max(n, 1), max(n, 1)); E = E + E.conj().T; eta = 1.5j
        g0 = np.linalg.inv((z + eta)[:, None, None] * np.eye(max(n, 1)) - E); S = 0.3 * rand_c(r, len(z), max(n, 1), max(n, 1))
        A = np.linalg.inv(g0) - S
        if np.linalg.cond(A).max() > 1e4: raise Skip()
        g = np.linalg.inv(A)
        return [Gf(mesh=mesh.copy(), data=(x if n else x[:, 0, 0]).copy()) for x in (g0, g, S)]
    if blocks:
        L = [one() for _ in range(blocks)]; nm = ["x%d" % i for i in range(blocks)]
        g0, g, S = [BlockGf(name_list=nm, block_list=[l[i] for l in L]) for i in range(3)]
        eq = lambda a, b, m: [close(a[k].data, b[k].data, 1e-8, m) for k in nm]
    else:
        g0, g, S = one(); eq = lambda a, b, m: close(a.data, b.data, 1e-8, m)
    eq(TT.dyson(G0_iw=g0, Sigma_iw=S), g, "dyson -> G"); eq(TT.dyson(G0_iw=g0, G_iw=g), S, "dyson -> Sigma"); eq(TT.dyson(G_iw=g, Sigma_iw=S), g0, "dyson -> G0")
    raises(ValueError, lambda: TT.dyson(G_iw=g), "one argument"); raises(ValueError, lambda: TT.dyson(G_iw=g, G0_iw=g0, Sigma_iw=S), "three arguments"); raises(ValueError, lambda: TT.dyson(G_iw=g, X=g0), "unknown argument")

def u_delta(case):
    n, s, nb = case
    r = rng(s); mesh = MS.MeshImFreq(10.0, "Fermion", 60); z = zvals(mesh); m = max(n, 1)
    E = rand_c(r, m, m); E = E + E.conj().T; V = rand_c(r, m, nb); e = r.uniform(-1, 1, nb)
    De = np.einsum("kj,wj,lj->wkl", V, 1 / (z[:, None] - e), V.conj())
    g0 = np.linalg.inv(z[:, None, None] * np.eye(m) - E - De)
    g = Gf(mesh=mesh, data=(g0 if n else g0[:, 0, 0]).copy()); d = g.data.copy()
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): res = TT.delta(g); B = TT.delta(BlockGf(name_list=["up", "dn"], block_list=[g, 0.5 * g]))
    close(res.data, De if n else De[:, 0, 0], 3e-3, "delta(G0)", case=case); close(g.data, d, 0, "argument unchanged")
    require(list(B.indices) == ["up", "dn"], "names of the blocks", got=list(B.indices)); close(B["up"].data, res.data, 1e-12, "delta of a BlockGf")
    with contextlib.redirect_stdout(io.StringIO()): close(B["dn"].data, TT.delta(0.5 * g).data, 1e-10, "delta of the second block")
    g.data[0] += 5j
    raises(AssertionError, lambda: TT.delta(g), "non-hermitian function accepted"); raises(TypeError, lambda: TT.delta(mk_gf(r, mk_mesh("refreq", 2), (1, 1))), "wrong mesh accepted")

def ref_delta(V, e, mesh):
    if isinstance(mesh, MS.MeshImFreq): k = 1 / (zvals(mesh)[:, None] - e)
    else:
        tau = np.array([float(p.value) for p in mesh]); b = mesh.beta
        k = np.array([[-np.exp(-t * x - np.logaddexp(0, -b * x)) for x in e] for t in tau])
    return np.einsum("kj,wj,lj->wkl", V, k, V.conj())
def u_make_delta(case):
    n, nb, s, cx, kind, beta, blocks, aslist = case
    r = rng(s)
    mesh = MS.MeshImFreq(beta, "Fermion", 1 + s % 9) if kind == 0 else MS.MeshImTime(beta, "Fermion", 2 + s % 9)
    mk = lambda: (rand_c(r, n, nb) if cx else r.uniform(-1, 1, (n, nb)))
    V = [mk() for _ in range(max(blocks, 1))]; e = [r.uniform(-20, 20, nb) * (r.rand(nb) < .8) for _ in V]
    L = (lambda x: [float(q) for q in x]) if aslist else (lambda x: x)
    if not blocks:
        d = TT.make_delta(V[0], L(e[0]), mesh); close(d.data, ref_delta(V[0], e[0], mesh), 1e-10, "make_delta", case=case)
        require(eqm(d.mesh, mesh), "mesh"); raises(AssertionError, lambda: TT.make_delta(V[0], np.zeros(nb + 1), mesh), "wrong number of energies accepted")
    else:
        nm = ["s%d" % i for i in range(blocks)]
        d = TT.make_delta(V, [L(x) for x in e], mesh, nm if s % 2 else None)
        require(list(d.indices) == (nm if s % 2 else [str(i) for i in range(blocks)]), "block names")
        for (b, g), v, x in zip(d, V, e): close(g.data, ref_delta(v, x, mesh), 1e-10, "make_delta block", block=b, case=case)
        raises(AssertionError, lambda: TT.make_delta(V, [L(x) for x in e] + [L(e[0])], mesh), "size mismatch accepted")

def u_discretize(case):
    n, nb, s, kind, cx, v0, blocks, meth = case
    r = rng(s); n = max(n, 0); m = max(n, 1)
    if cx and meth == "Nelder-Mead": raise Skip()
    mesh = MS.MeshImFreq(8.0, "Fermion", 12) if kind == 0 else MS.MeshImTime(8.0, "Fermion", 31)
    def one():
        V = r.uniform(0.2, 1, (m, nb)); e = np.sort(r.uniform(-2, 2, nb)); d = ref_delta(V, e, mesh)
        return V, e, Gf(mesh=mesh.copy(), data=(d if n else d[:, 0, 0]) + 0j)
    import io, contextlib
    herm = lambda x: x if kind == 0 else .5 * (x + np.conj(np.swapaxes(x, 1, 2) if x.ndim == 3 else x))
    V, e, D = one(); inp = D
    if blocks: bn = ["a", "b"] if s % 2 else ["up", "dn"]; inp = BlockGf(name_list=bn, block_list=[D, one()[2]])
    if v0 == 0: V0 = 0.5
    elif v0 == 1: V0 = V + 0.05
    else:
        if m > nb: raise Skip()
        V0 = None
    eps0 = 2.0 if s % 2 else list(e + 0.1)
    if s % 4 == 2 and not blocks and nb > 1:   # unsorted guess (the columns of the couplings follow)
        pr = r.permutation(nb); eps0 = list((e + 0.1)[pr])
        if v0 == 1: V0 = V[:, pr] + 0.05
    if blocks: eps0 = 2.0; V0 = 0.5
    if kind and s % 3 == 0:   # a noisy function, not hermitian
        for q in ([b for _, b in inp] if blocks else [D]): q.data[...] += 1e-3 * (r.uniform(-1, 1, q.data.shape) + 1j * r.uniform(-1, 1, q.data.shape))
    keep = [b.data.copy() for _, b in inp] if blocks else [D.data.copy()]
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = TT.discretize_bath(inp, nb, eps0=eps0, V0=V0, cmplx=cx, maxiter=60, tol=1e-9, method=meth)
    except np.linalg.LinAlgError:
        if n: raise Skip()
        raise
    for x, q in zip(keep, [b for _, b in inp] if blocks else [D]): require(np.array_equal(x, q.data), "the hybridisation given is left unchanged", case=case)
    def chk1(Vo, eo, do, Di):
        require(Vo.shape == (m, nb) and len(eo) == nb, "shapes"); require(np.all(np.diff(eo) >= 0), "bath energies are sorted", eps=eo)
        ref = ref_delta(Vo, np.asarray(eo), mesh); ref = ref if n else ref[:, 0, 0]
        close(do.data, ref, 1e-9, "returned hybridisation is the one of the returned bath", case=case)
        nrm = lambda d: np.linalg.norm(d - herm(Di.data)) / np.sqrt(len(mesh))
        e0 = np.linspace(-eps0, eps0, nb) if not isinstance(eps0, list) else np.array(eps0)
        if V0 is not None:
            st0 = ref_delta(V0 * np.ones((m, nb)) if np.isscalar(V0) else V0, e0, mesh); st0 = st0 if n else st0[:, 0, 0]
            require(nrm(do.data) <= nrm(st0) * (1 + 1e-9) + 1e-12, "the fit is not worse than the initial guess", got=nrm(do.data), start=nrm(st0))
    if blocks:
        Vs, es, Ds = res; require(list(Ds.indices) == bn, "block names", got=list(Ds.indices))
        for q, b in enumerate(bn): chk1(Vs[q], es[q], Ds[b], inp[b])
    else: chk1(*res, D)

def u_txt(case):
    n, nw, s, lo, w = case
    r = rng(s); d = tempfile.mkdtemp(prefix="verif_txt_")
    try:
        mesh = MS.MeshReFreq(lo, lo + w, nw); g = mk_gf(r, mesh, (n, n), name=os.path.join(d, "g"))
        TT.write_gf_to_txt(g)
        fs = [["%s_%d_%d.dat" % (g.name, i, j) for j in range(n)] for i in range(n)]
        h = TT.read_gf_from_txt(fs, "blk"); close(h.data, g.data, 1e-14, "text round trip", case=case)
        require(abs(h.mesh.w_min - lo) < 1e-12 and abs(h.mesh.w_max - lo - w) < 1e-12 and len(h.mesh) == nw and h.name == "blk", "mesh of the text round trip")
        A = np.loadtxt(fs[0][n - 1]); close(A[:, 0], np.array([float(p.value) for p in mesh]), 1e-14, "frequency column"); close(A[:, 1] + 1j * A[:, 2], g.data[:, 0, n - 1], 1e-14, "columns")
        mi = MS.MeshImFreq(2.0, "Fermion", nw); gi = mk_gf(r, mi, (n, n), name=os.path.join(d, "gi")); TT.write_gf_to_txt(gi)
        A = np.loadtxt("%s_%d_0.dat" % (gi.name, n - 1)); close(A[:, 0], zvals(mi).imag, 1e-13, "Matsubara column"); close(A[:, 1] + 1j * A[:, 2], gi.data[:, n - 1, 0], 1e-14, "columns (Matsubara)")
        raises(ValueError, lambda: TT.write_gf_to_txt(mk_gf(r, mk_mesh("imtime_f", 2), (n, n))), "unsupported mesh accepted")
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)

def u_zero_tail(case):
    kind, t, k, s = case
    g = mk_gf(rng(s), mk_mesh(kind, 2), t)
    if kind in ("imfreq_f", "imfreq_b", "imtime_f", "imtime_b", "refreq", "retime"):
        z = TT.make_zero_tail(g, k); require(z.shape == (max(1, k),) + t and z.dtype == np.complex128 and not z.any(), "make_zero_tail", shape=z.shape)
        z = TT.make_zero_tail(g); require(z.shape == (10,) + t, "default number of moments")
        B = BlockGf(name_list=["a", "b"], block_list=[g, g.copy()]); l = TT.make_zero_tail(B, k); require(len(l) == 2 and all(x.shape == (max(1, k),) + t for x in l), "blocks")
    else: raises(RuntimeError, lambda: TT.make_zero_tail(g, k), "unsupported mesh accepted")

def u_fit_legendre(case):
    n, order, deg, beta, s, blocks = case
    r = rng(s); deg = min(deg, order); nt = max(3 * order, 12); mesh = MS.MeshImTime(beta, "Fermion" if s % 3 else "Boson", nt)
    c = rand_c(r, deg, n, n); ch = 0.5 * (c + np.conj(np.swapaxes(c, 1, 2)))
    x = np.linspace(-1, 1, nt); P = np.polynomial.legendre.legvander(x, deg - 1)
    l = np.arange(deg); sc = np.sqrt(2 * l + 1) / beta
    g = Gf(mesh=mesh, data=np.einsum("xl,l,lij->xij", P, sc, c) + 0j); d = g.data.copy()
    res = TT.fit_legendre(g, order); want = np.zeros((order, n, n), complex); want[:deg] = ch
    close(res.data, want, 1e-7, "fit_legendre recovers the hermitian part of a Legendre expansion", case=case)
    require(len(res.mesh) == order and res.mesh.beta == beta and res.mesh.statistic == mesh.statistic, "Legendre mesh"); close(g.data, d, 0, "argument unchanged")
    if blocks: B = TT.fit_legendre(BlockGf(name_list=["a", "b"], block_list=[g, g.copy()]), order); close(B["b"].data, want, 1e-7, "blocks")
    raises(AssertionError, lambda: TT.fit_legendre(mk_gf(r, mk_mesh("imfreq_f", 2), (n, n)), order), "wrong mesh accepted")

def units():
    pos = st.floats(0.25, 5.0, width=32).map(float)
    return [
        Unit("descriptors", st.tuples(st.sampled_from(FM + ["dlr_imfreq"]), st.integers(1, 6), st.sampled_from(TSQ), pos, st.one_of(st.just(0.0), real(-3, 3)), st.sampled_from(["semi", "semi", "flat", "omega", "const", "function", "wrongmesh"]), seeds()), u_desc, 1500, 8000, lambda c: len(c[2]) > 0, "matrix target"),
        Unit("semi_dos", st.tuples(pos, st.lists(st.one_of(real(-2, 2), st.sampled_from([0.0, 1.0, -1.0, 0.999])), min_size=1, max_size=6)), u_semi_dos, 100, 1000, lambda c: any(abs(x) < 1 for x in c[1]), "a point inside the band"),
        Unit("one_fermion", st.tuples(st.integers(2, 9), st.sampled_from(TSQ), real(-3, 3), st.just(0)), u_ofit, 120, 600, lambda c: c[2] != 0, "nonzero energy"),
        Unit("expressions", st.tuples(st.sampled_from(FM), st.integers(0, 3), seeds(), st.integers(1, 3).flatmap(lambda d: st.tuples(st.just(0), tree(d, False))).map(lambda x: x[1]), st.integers(1, 3)).flatmap(lambda c: st.just(c) if c[1] == 0 else st.tuples(st.just(c[0]), st.just(c[1]), st.just(c[2]), tree(3, True), st.just(c[4]))), u_expr, 1500, 10000, lambda c: has_lazy(c[3]) and isinstance(c[3][1] if len(c[3]) > 1 else 0, tuple), "composite expression with a lazy terminal"),
        Unit("printing", st.tuples(ptree, st.tuples(*[st.integers(-7, 9)] * 3)), u_print, 1200, 8000, lambda c: isinstance(c[0], tuple) and any(isinstance(x, tuple) for x in c[0]), "nested expression"),
        Unit("eval_expr", st.tuples(st.sampled_from(FM), st.integers(0, 2), seeds(), real()), u_evalexpr, 200, 1000, lambda c: c[1] > 0, "matrix target"),
        Unit("block_transform", st.tuples(st.just(0), st.lists(st.integers(1, 3), min_size=1, max_size=3).map(tuple), seeds(), st.integers(0, 2)), u_block_desc, 150, 800, lambda c: len(c[1]) > 1, "several blocks"),
        Unit("dyson", st.tuples(st.integers(0, 3), seeds(), st.integers(0, 2), st.sampled_from(FM)), u_dyson, 250, 1200, lambda c: c[0] > 1, "matrix target"),
        Unit("delta", st.tuples(st.integers(0, 2), seeds(), st.integers(1, 3)), u_delta, 60, 300, lambda c: c[0] > 1, "matrix target"),
        Unit("make_delta", st.tuples(st.integers(1, 3), st.integers(1, 4), seeds(), st.booleans(), st.integers(0, 1), st.sampled_from([1.0, 5.0, 50.0]), st.integers(0, 2), st.booleans()), u_make_delta, 500, 3000, lambda c: c[0] > 1 and c[1] > 1, "several orbitals and bath sites"),
        Unit("discretize", st.tuples(st.integers(0, 2), st.integers(1, 4), seeds(), st.integers(0, 1), st.booleans(), st.integers(0, 2), st.sampled_from([0, 0, 1]), st.sampled_from(["BFGS", "BFGS", "Nelder-Mead"])), u_discretize, 120, 500, lambda c: c[1] > 1, "several bath sites"),
        Unit("text", st.tuples(st.integers(1, 3), st.integers(2, 6), seeds(), real(), pos), u_txt, 150, 600, lambda c: c[0] > 1, "matrix target"),
        Unit("zero_tail", st.tuples(st.sampled_from(KINDS), st.sampled_from(TSQ), st.integers(-1, 5), seeds()), u_zero_tail, 200, 600, lambda c: c[2] > 0, "positive number of moments"),
        Unit("fit_legendre", st.tuples(st.integers(1, 3), st.integers(1, 24), st.integers(1, 24), pos, seeds(), st.booleans()), u_fit_legendre, 200, 1000, lambda c: c[0] > 1, "matrix target"),
    ]
