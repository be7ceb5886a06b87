"""What is plotted, compared, captured or built through the older constructors is the data."""
from common import *
load()
import sys, types, io, contextlib, math, os, time, tempfile, threading
from gfcommon_loader import *
import triqs.plot.protocol as PP
import triqs.utility.comparison_tests as CT
RULE = "generated Green functions, windows, options, archives and perturbations; oracle: the data array, a recursive comparison, and the recorded calls to a stand-in plotting library"

def u_clip(case):
    X, lo, hi, gen = case
    X = sorted(X)
    if lo > hi: raises(AssertionError, lambda: PP.clip_array(X, lo, hi), "inverted window"); return
    sl = PP.clip_array(np.array(X) if gen else X, lo, hi); require(X[sl] == [x for x in X if lo <= x <= hi], "clip_array", got=X[sl], case=case)

def u_proto(case):
    kind, pts, w, n, opts, name = case
    opt = dict(opts); pre = dict(opt)
    if name: opt["name"] = name
    if kind == "fun" or kind == "cfun":
        f = (lambda x: x * x - 1) if kind == "fun" else (lambda x: complex(x, x * x)); ob = f
        if n: opt["n_points"] = n
        win = (-1.0, 1.0 + w)
        if w: opt["x_window"] = win
        r = PP.plot_protocol_apply(ob, opt, lambda: (0.0, 2.0)); a, b = win if w else (0.0, 2.0); N = n or 100
        X = np.asarray(r[0]["xdata"]); require(abs(len(X) - N) <= 1 and abs(X[0] - a) < 1e-12 and X[-1] < b + 1e-9 and abs(X[-1] - b) < 2.1 * (b - a) / N, "sampling points of a function", got=(X[0], X[-1], len(X)), case=case)
        close(np.diff(X), np.full(len(X) - 1, (b - a) / N), 1e-9, "equidistant points"); Y = np.array([f(x) for x in X])
    elif kind == "native":
        class P_:
            def _plot_(self, o): return ["native", o]
        require(PP.plot_protocol_apply(P_(), opt, None) == ["native", opt], "native plot protocol"); return
    elif kind == "table":
        class T: pass
        PP.plot_function_table[T] = lambda o, d: [o, d]
        try: t = T(); require(PP.plot_protocol_apply(t, opt, None) == [t, opt], "registered plot function")
        finally: del PP.plot_function_table[T]
        return
    elif kind == "bad": raises(RuntimeError, lambda: PP.plot_protocol_apply(3, opt, None), "an object that cannot be plotted"); return
    else:
        X = np.array([p[0] for p in pts]); Y = np.array([p[1] + (1j * p[2] if kind.startswith("c") else 0) for p in pts])
        if not pts: raise Skip()
        ob = list(zip(X.tolist(), Y.tolist()))
        if kind.endswith("array") : ob = np.array([X, Y]).T; X = X.astype(ob.dtype)
        if kind.endswith("gen"): ob = ((a, b) for a, b in ob)
        r = PP.plot_protocol_apply(ob, opt, None)
        for d in r: close(d["xdata"], X, 0, "xdata")
    c = kind.startswith("c"); nm = name or None
    require(len(r) == (2 if c else 1), "number of curves", got=len(r))
    if c: close(r[0]["ydata"], Y.real, 0, "real part"); close(r[1]["ydata"], Y.imag, 0, "imaginary part"); close(r[1]["xdata"], r[0]["xdata"], 0, "xdata")
    else: close(r[0]["ydata"], Y, 0, "values")
    if nm: require([d["label"] for d in r] == ([("Re " if not i else "Im ") + nm for i in range(2)] if c and "label" not in pre else [pre.get("label", nm)] * len(r)), "labels", got=[d["label"] for d in r])
    for d in r: require(all(d.get(k) == x for k, x in pre.items()), "plot options are passed on", got=d, want=pre)

def u_gf(case):
    kind, size, tsh, real_, mode, w, opts, name, s = case
    g = rng(s); m = mk_mesh(kind, size); G = mk_gf(g, m, tsh, real_, name="G"); D = G.data.copy()
    opt = dict(opts)
    if name is not None: opt["name"] = name
    if mode is not None: opt["mode"] = mode
    if w: opt["x_window"] = w
    nm = "G" if name is None else name
    if kind in ("brzone", "cyclat", "dlr"):
        raises(Exception, lambda: G._plot_(dict(opt)), "no curve for this mesh"); return
    X = np.arange(len(m)) if kind == "legendre" else np.array([complex(p.value) for p in m])
    X = (X.imag if kind.startswith("imfreq") else X.real).astype(float)
    if not real_ and (mode not in (None, "", "R", "I", "S") or (mode == "S" and kind != "refreq")): raises(ValueError, lambda: G._plot_(dict(opt)), "meaningless mode"); return
    R = G._plot_(opt)
    sel = [i for i, x in enumerate(X) if not w or w[0] <= x <= w[1]]
    parts = [("", lambda x: x)] if real_ else {None: [("Re ", np.real), ("Im ", np.imag)], "": [("Re ", np.real), ("Im ", np.imag)], "R": [("Re ", np.real)], "I": [("Im ", np.imag)], "S": [("", lambda x: -x.imag / math.pi)]}[mode]
    want = {}
    for pre, f in parts:
        for ind in np.ndindex(*tsh): want[("%s%s %s" % (pre, nm, "_".join(map(str, ind)))).strip()] = f(D[(slice(None),) + ind])[sel]
    require(len(R) == len(want), "one curve per component and part", got=[r["label"] for r in R], want=list(want))
    over = "label" in dict(opts)
    for r, (l, y) in zip(R, sorted(want.items()) if over else [(r["label"].strip(), want.get(r["label"].strip())) for r in R]):
        close(r["xdata"], X[sel], 1e-13, "xdata"); require(all(r.get(k) == x for k, x in opts), "options are passed on")
        if not over: require(y is not None, "unexpected label", got=r["label"], want=list(want)); close(r["ydata"], y, 1e-13, "curve of component " + l, case=case); require(r["xlabel"] and nm in r["ylabel"], "axis labels")
    require(over or len({r["label"] for r in R}) == len(R), "every component is plotted once"); close(G.data, D, 0, "plotting changes the data")
    if kind[:6] in ("imfreq", "imtime") and "label" not in dict(opts):   # on the meshes of the discrete Lehmann representation: the same curves, as points
        import triqs.gf.plot.one_var as OV
        o2 = dict(opts, **({"name": name} if name is not None else {}), **({"mode": mode} if mode is not None else {}), **({"x_window": w} if w else {})); Q = getattr(OV, "dlr_" + kind[:6])(G, dict(o2))
        require(len(Q) == len(R), "curves of the sparse meshes")
        for q, r in zip(Q, R):
            close(q["xdata"], r["xdata"], 0, "xdata"); close(q["ydata"], r["ydata"], 0, "ydata"); require(q["label"] == r["label"] and q["xlabel"] == r["xlabel"] and q["ylabel"] == r["ylabel"], "labels"); require(q["linestyle"] == "None" and q["marker"] == dict(opts).get("marker", "x"), "points instead of lines, marker of the caller", got=q.get("marker"), opts=opts)

def u_hist(case):
    import triqs.stat, triqs.stat.histogram as H
    a, l, n, typ, width, opts, s = case
    h = triqs.stat.Histogram(a, a + l, n); h.data[:] = rng(s).randint(0, 9, n); opt = dict(opts)
    if typ: opt["type"] = typ
    if width: opt["width"] = width
    fn = PP.plot_function_table[triqs.stat.Histogram]; r, = PP.plot_protocol_apply(h, opt, None); bw = width or l / (n - 1)
    X = a + np.arange(n) * l / (n - 1); close(r["xdata"], X - (bw / 2 if typ == "bar" else 0), 1e-12, "bin positions", case=case); close(r["ydata"], h.data, 0, "counts")
    require(r["plot_function"] == ("bar" if typ == "bar" else "plot") and all(r[k] == v for k, v in opts), "plot function and options", got=r)
    if typ == "bar": close(r["width"], bw, 1e-12, "bin width")

MPL = {}
def mpl():
    if MPL: return MPL["m"], MPL["log"]
    log = []
    def rec(name): return lambda *a, **k: log.append((name, a, k))
    m, p = types.ModuleType("matplotlib"), types.ModuleType("matplotlib.pyplot")
    class Axes:
        def __getattr__(s, n): return rec("ax." + n)
    for f in ("plot", "bar", "contourf", "xlabel", "ylabel", "legend", "xticks", "title", "figure"): setattr(p, f, rec(f))
    p.gcf = lambda: types.SimpleNamespace(number=7); p.xlim = lambda: (0.0, 1.0); p.subplots = rec("subplots"); m.pyplot = p; m.axes = types.SimpleNamespace(Axes=Axes); m.rc = rec("rc"); p.strict = False
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = m, p
    import triqs.plot.mpl_interface as I
    MPL.update(m=I, log=log, Axes=Axes, p=p); return I, log
def u_oplot(case):
    kind, mode, opts, num, ax, s = case
    I, log = mpl(); del log[:]
    g = rng(s); opt = dict(opts); G = mk_gf(g, mk_mesh("refreq", 3), (2, 1), False, "G"); ob = G if kind == "gf" else (lambda x: x + 1)
    if num: opt["num"] = num
    pre = "ax.set_" if ax else ""
    if ax:
        a = MPL["Axes"](); opt.pop("num", None); a.oplot(ob, "-o", **opt)
    else: {"": I.oplot, "R": I.oplotr, "I": I.oploti}[mode if kind == "gf" else ""](ob, "-o", **opt)
    want = PP.plot_protocol_apply(ob, dict(opts, **({"mode": mode} if mode and kind == "gf" and not ax else {})), lambda: (0.0, 1.0))
    curves = [x for x in log if x[0] in ("plot", "bar", "ax.plot", "ax.bar")]
    require(len(curves) == len(want), "one plotted curve per curve", got=len(curves), want=len(want))
    for (nm, a, k), w in zip(curves, want):
        require(nm == ("ax." if ax else "") + "plot" and a[2] == "-o", "plot function and format"); close(a[0], w["xdata"], 0, "xdata"); close(a[1], w["ydata"], 0, "ydata")
        require(k.get("label") == w["label"] if kind == "gf" else True, "label"); require(all(k.get(x) == y for x, y in opts if x != "legend"), "matplotlib options are passed on", got=k, want=opts)
    if not ax: require([x for x in log if x[0] == "figure"] == [("figure", (), {"num": num or 7})], "figure number")
    if kind == "gf": require([x[1][0] for x in log if x[0] == pre + "xlabel"] == [w["xlabel"] for w in want] and [x[1][0] for x in log if x[0] == pre + "ylabel"] == [w["ylabel"] for w in want], "axis labels")
    require(len([x for x in log if x[0] in ("legend", "ax.legend")]) == (len(want) if dict(opts).get("legend", True) else 0), "legend")

# ---------------- comparison
def build(t, g):
    k = t[0]
    if k == "dict": return {n: build(x, g) for n, x in t[1]}
    if k == "list": return [build(x, g) for x in t[1]]
    if k == "tuple": return tuple(build(x, g) for x in t[1])
    if k == "arr": return g.uniform(-1, 1, t[1]) + (1j * g.uniform(-1, 1, t[1]) if t[2] else 0)
    if k == "gf": return mk_gf(g, mk_mesh(t[1], 2), (2, 2), False)
    if k == "bgf": return BlockGf(name_list=["a", "b"], block_list=[mk_gf(g, mk_mesh(t[1], 2), (1, 1), False) for _ in range(2)], make_copies=False)
    if k == "b2gf": return Block2Gf(["a"], ["b", "c"], [[mk_gf(g, mk_mesh(t[1], 2), (1, 1), False) for _ in range(2)]])
    if k == "op":
        from triqs.operators import c, c_dag; return t[1] * c_dag("u", 0) * c("d", t[2]) + 1.5
    return t[1]
def paths(x, p=()):
    """every leaf"""
    if isinstance(x, dict): return [q for k in x for q in paths(x[k], p + (k,))] or [p]
    if isinstance(x, (list, tuple)): return [q for i, v in enumerate(x) for q in paths(v, p + (i,))] or [p]
    return [p]
def change(x, p, how, eps):
    """a copy of x changed at path p; None when the change does not apply"""
    if p:
        if isinstance(x, dict): r = dict(x); r[p[0]] = change(x[p[0]], p[1:], how, eps); return None if r[p[0]] is None else r
        l = list(x); l[p[0]] = change(x[p[0]], p[1:], how, eps); return None if l[p[0]] is None else type(x)(l)
    if how == "type": return "other" if not isinstance(x, str) else 1.0
    if isinstance(x, (dict,)): return dict(x, extra=1) if how == "size" else None
    if isinstance(x, (list, tuple)): return x + type(x)([1]) if how == "size" else None
    if isinstance(x, bool): return (not x) if how == "value" else None
    if isinstance(x, (int, float, complex)): return x + (1 if isinstance(x, int) else eps * 1j if isinstance(x, complex) and x.real > 0 else eps) if how == "value" else None
    if isinstance(x, str): return x + "x" if how == "value" else None
    if isinstance(x, np.ndarray):
        if how == "size": return np.concatenate([x, x[:1]]) if x.ndim and len(x) else None
        if how != "value" or not x.size: return None
        y = x.copy(); y.flat[-1] += eps; return y
    if isinstance(x, Gf):
        if how == "size": return Gf(mesh=mk_mesh("imfreq_f" if not isinstance(x.mesh, MS.MeshImFreq) else "imtime_f", 2), target_shape=x.target_shape)
        y = x.copy(); y.data.flat[-1] += eps; return y
    if isinstance(x, (BlockGf,)):
        y = x.copy()
        if how == "size": return BlockGf(name_list=["a", "z"], block_list=[b for _, b in y], make_copies=True)
        y["b"].data.flat[0] += eps; return y
    if isinstance(x, Block2Gf): y = x.copy(); y["a", "c"].data.flat[0] += eps; return y if how == "value" else None
    return x + eps if how == "value" else None   # operator
class FakeGroup(dict): pass
def u_compare(case):
    t, s, pick, how, big, prec, arch = case
    import triqs.utility.h5diff as HD
    A, B_ = build(t, rng(s)), build(t, rng(s)); HD.verbose = 0
    def diff(x, y):
        F = {"1": x, "2": y}; old = HD.HDFArchive; HD.HDFArchive = lambda f, m: F[f]
        with contextlib.redirect_stderr(io.StringIO()) as e, contextlib.redirect_stdout(io.StringIO()):
            try: HD.h5diff("1", "2", prec); return False
            except RuntimeError: return True
            finally: HD.HDFArchive = old
    require(not diff(A, B_), "identical archives are reported to differ", case=case, failures=HD.failures[:1])
    P_ = paths(B_); P_ = P_[pick % len(P_):] + P_[:pick % len(P_)]; eps = prec * (50. if big else .01)
    for p, how in [(p, h) for h in (how, "value", "type", "size") for p in P_]:
        leaf = B_
        for k in p: leaf = leaf[k]
        if not big and (how != "value" or isinstance(leaf, (bool, int, str))): continue
        C = change(B_, p, how, eps)
        if C is not None: break
    else: raise Skip()
    r = diff(A, C); require(r == bool(big), "a difference is %s" % ("not reported" if big else "reported below the precision"), at=p, how=how, case=case); require(diff(C, A) == bool(big), "the comparison is not symmetric", at=p, how=how, case=case)
    def rename(x):   # the same number of entries under other names
        if isinstance(x, dict):
            for k in x:
                y = rename(x[k])
                if y is not None: return dict(x, **{k: y})
            if x: k = sorted(x)[pick % len(x)]; return {("q" + q if q == k else q): v for q, v in x.items()}
        return None
    if big and isinstance(A, dict):
        C = rename(B_)
        if C is not None: require(diff(A, C) and diff(C, A), "a renamed entry is not reported", case=case)
    require(not diff(A, B_), "a second comparison remembers the first", case=case)

def u_assert(case):
    sh, cplx_, prec, big, kind, x, s = case
    g = rng(s); a = np.array(g.uniform(-1, 1, sh) + (1j * g.uniform(-1, 1, sh) if cplx_ else 0)); b = a.copy()
    if b.size: b.flat[g.randint(b.size)] += prec * (3 if big else .3) * (1j if cplx_ and s % 2 else 1) * (-1) ** (s % 3)
    def fails(f, *l):
        try: f(*l); return False
        except AssertionError: return True
    require(fails(CT.assert_arrays_are_close, a, b, prec) == bool(big and b.size), "assert_arrays_are_close", case=case); require(fails(CT.assert_arrays_are_close, b, a, prec) == bool(big and b.size), "symmetric")
    n = 3; I = np.identity(n) * x; J = I.copy(); J.flat[s % 9] += prec * (3 if big else .3); require(fails(CT.assert_array_close_to_scalar, J, x, prec) == bool(big), "assert_array_close_to_scalar")
    m = mk_mesh(kind, 2); G = mk_gf(g, m, (2, 2), False); H = G.copy(); H.data.flat[s % H.data.size] += prec * (3 if big else .3)
    require(fails(CT.assert_gfs_are_close, G, H, prec) == bool(big), "assert_gfs_are_close"); require(fails(CT.assert_gfs_are_close, G, mk_gf(g, mk_mesh("imfreq_b" if kind != "imfreq_b" else "imtime_b", 2), (2, 2)), 1e9), "different meshes")
    o = mk_mesh(kind, 3)
    if len(o) != len(m) : require(fails(CT.assert_gfs_are_close, G, mk_gf(g, o, (2, 2)), 1e9), "meshes of different size")
    mk = lambda names, l: BlockGf(name_list=names, block_list=l, make_copies=True)
    X, Y = mk(["a", "b"], [G, G]), mk(["a", "b"], [G, H]); require(fails(CT.assert_block_gfs_are_close, X, Y, prec) == bool(big), "assert_block_gfs_are_close")
    require(fails(CT.assert_block_gfs_are_close, X, mk(["a", "c"], [G, G]), 1e9), "different block names"); require(fails(CT.assert_block_gfs_are_close, X, mk(["a"], [G]), 1e9), "different number of blocks")
    mk2 = lambda l: Block2Gf(["a"], ["b", "c"], [l]); require(fails(CT.assert_block2_gfs_are_close, mk2([G.copy(), G.copy()]), mk2([G.copy(), H.copy()]), prec) == bool(big), "assert_block2_gfs_are_close")

def u_capture(case):
    from triqs.utility.capture_stdout import capture_stdout
    lines, nest, exc = case
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        try:
            with capture_stdout() as c:
                for l in lines: print(l)
                if nest:
                    with capture_stdout() as d: print("inner")
                    require(list(d) == ["inner"], "nested capture")
                if exc: raise KeyError("x")
        except KeyError: require(exc, "unexpected exception")
        print("after")
    require(list(c) == "".join(l + "\n" for l in lines).splitlines(), "captured lines", got=list(c)); require(o.getvalue() == "after\n", "standard output is restored", got=o.getvalue())

def u_redirect(case):
    chunks, twice = case
    import triqs.utility.redirect as R
    o = io.StringIO(); d = tempfile.mkdtemp(prefix="verif_red_"); f = os.open(os.path.join(d, "out"), os.O_RDWR | os.O_CREAT); keep = os.dup(1)
    try:
        os.dup2(f, 1)
        with contextlib.redirect_stdout(o):
            R.start_redirect(); a = R.a
            if twice: R.start_redirect(); require(R.a is a and o.getvalue() == "Already redirected c++ output\n", "second start"); o.truncate(0); o.seek(0)
            import stat
            for _ in range(400):
                if stat.S_ISFIFO(os.fstat(1).st_mode): break
                time.sleep(.05)
            require(stat.S_ISFIFO(os.fstat(1).st_mode), "the standard output is not redirected")
            for c in chunks: os.write(1, c)
            want = b"".join(chunks).decode(errors="replace"); t0 = time.time()
            while o.getvalue() != want and time.time() < t0 + 15: time.sleep(.1)
            got = o.getvalue(); R.stop_redirect(); R.stop_redirect(); a.join(60)
            os.write(1, b"direct")
        require(got == want, "redirected output", got=got, want=want); require(not a.is_alive(), "the thread stops")
        require(os.pread(f, 1000, 0) == b"direct", "the standard output is restored", got=os.pread(f, 1000, 0))
    finally:
        os.dup2(keep, 1); os.close(keep); os.close(f); os.unlink(os.path.join(d, "out")); os.rmdir(d)

def u_compat(case):
    import triqs.gf as T, inspect
    kind, tsh, how, n, beta, stat, s = case
    g = rng(s); cls = {"imfreq": T.GfImFreq, "imtime": T.GfImTime, "legendre": T.GfLegendre, "refreq": T.GfReFreq, "retime": T.GfReTime}[kind]
    mk = {"imfreq": lambda: MS.MeshImFreq(beta, stat, n), "imtime": lambda: MS.MeshImTime(beta, stat, n), "legendre": lambda: MS.MeshLegendre(beta, stat, n), "refreq": lambda: MS.MeshReFreq(-1.0, beta, n), "retime": lambda: MS.MeshReTime(-1.0, beta, n)}
    m = mk[kind](); kw = dict(name="nm")
    if how == "params": kw.update(n_points=n, **(dict(window=(-1.0, beta)) if kind in ("refreq", "retime") else dict(beta=beta, statistic=stat)))
    else: kw["mesh"] = m
    if how == "data": D = mk_data(g, m, tsh); kw["data"] = D
    else: kw["target_shape"] = list(tsh)
    G = cls(**kw); require(isinstance(G, Gf) and eqm(G.mesh, m), "mesh", got=G.mesh, want=m, case=case); require(G.name == "nm" and tuple(G.target_shape) == tuple(tsh), "target shape and name")
    close(G.data, D if how == "data" else np.zeros(mesh_shape(m) + tuple(tsh)), 0, "data")
    wrong = mk["imtime" if kind != "imtime" else "imfreq"](); raises(AssertionError, lambda: cls(mesh=wrong, target_shape=[1, 1]), "mesh of another type")
    if kind not in ("refreq", "retime"): raises(AssertionError, lambda: cls(target_shape=[1, 1]), "no mesh and no beta")
    raises(AssertionError, lambda: cls(n_points=0, target_shape=[1, 1], **(dict(window=(-1, 1)) if kind in ("refreq", "retime") else dict(beta=1.0))), "no points"); raises(TypeError, lambda: cls(m), "positional arguments")

def u_select(case):
    pts, A, B_, stride = case
    import triqs.gf.plot.select_indices as SI
    L = [np.array(p + (0.0,)) for p in pts]; dist = lambda p, q: math.hypot(p[0] - q[0], p[1] - q[1])
    require(SI.pick_selection_vec(list(range(len(L))), stride) == list(range(len(L)))[::stride], "one point out of stride")
    d = [dist(A, p) for p in L]; r = SI.closest_point_in_line(A, L); require(r == [i for i, x in enumerate(d) if x == min(d)], "closest points", got=r)
    a, b = np.array(A), np.array(B_); I = SI.closest_to(A, B_, L); require(len(set(I)) == len(I), "each point once")
    require(I[0] == r[0] and SI.closest_point_in_line(B_, L)[0] in I, "both ends are on the path", got=I)
    ok = set(); N = 2
    while N <= 512: ok |= {SI.closest_point_in_line(a + (b - a) * (i / (N - 1)), L)[0] for i in range(N)}; N *= 2
    require(set(I) <= ok, "points away from the path", got=I, case=case)

def units():
    opts = st.lists(st.tuples(st.sampled_from(["color", "lw", "label", "marker"]), st.sampled_from(["r", 2, "x"])), max_size=2, unique_by=lambda t: t[0]).map(tuple)
    pts = st.lists(st.tuples(real(), real(), real()), min_size=1, max_size=5).map(tuple); num = st.sampled_from([-3, -1, 0, .5, 1, 2, 2.5, 4])
    k1 = st.sampled_from(["imfreq_f", "imfreq_b", "imtime_f", "refreq", "legendre"])
    leaf = st.one_of(st.tuples(st.just("v"), st.one_of(st.integers(-5, 5), real(), cplx(), st.booleans(), st.text("ab", max_size=3))), st.tuples(st.just("arr"), st.sampled_from([(2,), (2, 3), (0,), (1,)]), st.booleans()), st.tuples(st.sampled_from(["gf", "bgf", "b2gf"]), k1), st.tuples(st.just("op"), st.integers(1, 3), st.integers(0, 2)))
    lst = lambda c: st.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3), st.tuples(c, c, st.integers(4, 13)).map(lambda t: [t[i % 2] for i in range(t[2])])).map(tuple); dct = lambda c: st.lists(st.tuples(st.sampled_from(["k1", "k2", "k3"]), c), max_size=3, unique_by=lambda t: t[0]).map(tuple)
    tree = st.tuples(st.just("dict"), dct(st.recursive(leaf, lambda c: st.one_of(st.tuples(st.sampled_from(["list", "tuple"]), lst(c)), st.tuples(st.just("dict"), dct(c))), max_leaves=5)))
    p2 = st.tuples(st.integers(-4, 4).map(lambda i: i / 2), st.integers(-4, 4).map(lambda i: i / 2))
    return [
        Unit("clip", st.tuples(st.lists(st.one_of(num, real()), max_size=8).map(tuple), num, num, st.booleans()), u_clip, 1000, 6000, lambda c: c[0] and c[1] < c[2], "non-empty list and window"),
        Unit("protocol", st.tuples(st.sampled_from(["fun", "cfun", "list", "clist", "array", "carray", "gen", "cgen", "native", "table", "bad"]), pts, st.sampled_from([0, 1.5]), st.sampled_from([0, 7, 20]), opts, st.sampled_from(["", "f"])), u_proto, 600, 4000, lambda c: len(c[1]) > 1, "several points"),
        Unit("green_functions", st.tuples(st.sampled_from(KINDS), st.integers(2, 4), st.sampled_from([(), (1, 1), (2, 2), (2, 3), (3,)]), st.booleans(), st.sampled_from([None, "", "R", "I", "S", "Q"]), st.sampled_from([None, None, (-1.2, 1.7), (0, 2), (5, 6)]), opts, st.sampled_from([None, "nm"]), seeds()), u_gf, 600, 4000, lambda c: len(c[2]) > 0, "matrix- or vector-valued"),
        Unit("histogram", st.tuples(real(), st.integers(1, 5), st.integers(2, 8), st.sampled_from([None, "XY", "bar"]), st.sampled_from([None, .25]), opts, seeds()), u_hist, 300, 1500, lambda c: c[3] == "bar", "bars"),
        Unit("oplot", st.tuples(st.sampled_from(["gf", "fun"]), st.sampled_from(["", "R", "I"]), st.lists(st.sampled_from([("color", "r"), ("lw", 2), ("legend", False)]), max_size=2, unique=True).map(tuple), st.sampled_from([None, 3]), st.booleans(), seeds()), u_oplot, 300, 1500, lambda c: len(c[2]) > 0, "with options"),
        Unit("archive_diff", st.tuples(tree, seeds(), st.integers(0, 20), st.sampled_from(["value", "value", "type", "size"]), st.booleans(), st.sampled_from([1e-3, 1e-6, 1e-8]), st.booleans()), u_compare, 900, 6000, lambda c: len(c[0][1]) > 0, "non-empty archive"),
        Unit("assertions", st.tuples(st.sampled_from([(2,), (3, 2), (0,), (2, 2, 2), ()]), st.booleans(), st.sampled_from([1e-3, 1e-6, 1e-9]), st.booleans(), k1, real(), seeds()), u_assert, 300, 2000, lambda c: c[3], "perturbation above the precision"),
        Unit("capture", st.tuples(st.lists(st.text("ab ", max_size=4), max_size=4).map(tuple), st.booleans(), st.booleans()), u_capture, 300, 1000, lambda c: len(c[0]) > 1, "several lines"),
        Unit("redirect", st.tuples(st.lists(st.binary(min_size=1, max_size=20), min_size=1, max_size=3).map(tuple), st.booleans()), u_redirect, 5, 25, lambda c: len(c[0]) > 1, "several writes"),
        Unit("older_constructors", st.tuples(st.sampled_from(["imfreq", "imtime", "legendre", "refreq", "retime"]), st.sampled_from([(1, 1), (2, 2), (2, 3)]), st.sampled_from(["params", "mesh", "data"]), st.integers(2, 6), st.sampled_from([1, 2.5, 10.0]), st.sampled_from(["Fermion", "Boson"]), seeds()), u_compat, 300, 1500, lambda c: c[2] == "params", "built from parameters"),
        Unit("path_selection", st.tuples(st.lists(p2, min_size=1, max_size=12, unique=True).map(tuple), p2, p2, st.integers(1, 4)), u_select, 300, 1500, lambda c: len(c[0]) > 3 and c[1] != c[2], "several points and a path"),
    ]
