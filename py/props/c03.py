"""Python Green-function container."""
from gfcommon_loader import *
import pickle

RULE = "generated meshes (single and product), target shapes, data, scalars/matrices, slices and operation sequences; oracle: plain numpy arrays"

mesh_kinds = st.lists(st.sampled_from(KINDS), min_size=1, max_size=3).map(tuple)
tsh = st.sampled_from(TSH)

SCAL = [2, -1.5, 0.5 + 1.5j, np.float64(1.25), np.complex128(0.5 - 1j), 0, 1, 3, -7, 5, np.int64(6), 1e-3, 1e6, np.float64(-0.25), np.int64(-1), -1, -2 + 0j, np.complex128(-1.5), -0.5j]
def tmul(a, b, ra, rb):
    if ra == 2 and rb == 2: return np.einsum("...ij,...jk->...ik", a, b)
    if ra == 0 and rb == 0: return a * b
    if ra == 2: return a * b[..., None, None]
    return a[..., None, None] * b

def ident(t):  # scalar c acts as c*identity on matrix targets
    m = np.zeros(t)
    for i in range(min(t)): m[i, i] = 1
    return m

def u_binary(case):
    kinds, size, t1, t2, op, s, real = case
    r = rng(s)
    mesh = mk_mesh_list(kinds, size)
    if op in ("+", "-", "+=", "-=", "<<"): t2 = t1
    if op in ("*", "@"):
        if len(t1) not in (0, 2) or len(t2) not in (0, 2): raise Skip()
        if len(t1) == 2 and len(t2) == 2: t2 = (t1[1], t2[1])
        real = False
    if op in ("*=", "@="):
        if len(t1) not in (0, 2): raise Skip()
        if len(t1) == 0: t2 = ()
        else: t2 = () if len(t2) != 2 else (t1[1], t1[1])
    g, h = mk_gf(r, mesh, t1, real), mk_gf(r, mesh.copy(), t2, real)
    dg, dh = g.data.copy(), h.data.copy()
    if op == "+": res, want = g + h, dg + dh
    elif op == "-": res, want = g - h, dg - dh
    elif op == "*": res, want = g * h, tmul(dg, dh, len(t1), len(t2))
    elif op == "@": res, want = g @ h, tmul(dg, dh, len(t1), len(t2))
    else:
        k = g; buf = g.data
        if op == "+=": k += h; want = dg + dh
        elif op == "-=": k -= h; want = dg - dh
        elif op == "*=": k *= h; want = tmul(dg, dh, len(t1), len(t2))
        elif op == "@=": k @= h; want = tmul(dg, dh, len(t1), len(t2))
        elif op == "<<": k << h; want = dh
        require(k is g, "in-place operation keeps the object", op=op)
        require(g.data is buf or np.shares_memory(g.data, buf), "in-place operation keeps the storage", op=op)
        close(g.data, want, 1e-12, op, case=case)
        require(eqm(g.mesh, mesh), "mesh unchanged by in-place operation")
        close(h.data, dh, 0, "right operand unchanged")
        h.data[...] = 77; close(g.data, want, 1e-12, "in-place result does not alias the operand")
        return
    close(res.data, want, 1e-12, op, case=case)
    close(g.data, dg, 0, "left operand unchanged"); close(h.data, dh, 0, "right operand unchanged")
    require(tuple(res.target_shape) == want.shape[len(mesh_shape(mesh)):], "target shape", got=res.target_shape)
    if op in "+-" or not any(k.startswith("imtime") for k in kinds): require(eqm(res.mesh, mesh), "mesh of the result")
    g.data[...] = 5; h.data[...] = 6
    close(res.data, want, 1e-12, "result independent of the operands", op=op)

def u_scalar(case):
    kinds, size, t, op, si, mat, s = case
    r = rng(s); mesh = mk_mesh_list(kinds, size)
    isarr = mat and len(t) == 2
    isreal = op in ("g*x", "x*g", "g/x", "g*=x", "g/=x", "g+=x", "g-=x", "g+x") and (len(t) != 2 or op[1:-1] in ("*", "/", "*=", "/=")) and not mat and np.isrealobj(SCAL[si]) and s % 3 == 0
    g = mk_gf(r, mesh, t, isreal); big = None
    if (s // 7) % 3 == 0 and g.data.ndim:   # a view of every other element of larger storage
        ax = g.data.ndim - 1 if (s // 5) % 2 else 0; sh = list(g.data.shape); sh[ax] *= 2
        big = np.full(sh, 99, dtype=g.data.dtype); ix = [slice(None)] * len(sh); ix[ax] = slice(0, None, 2); v = big[tuple(ix)]; v[...] = g.data; g = Gf(mesh=mesh, data=v)
        ix[ax] = slice(1, None, 2); rest = big[tuple(ix)]
    d = g.data.copy()
    if mat and not isarr: raise Skip()
    if isarr:
        n0, n1 = t
        x = rand_c(r, *{"g+x": t, "x+g": t, "g-x": t, "x-g": t, "g+=x": t, "g-=x": t, "g*x": (n1, 2), "g*=x": (n1, n1), "x*g": (2, n0)}.get(op, (1, 1)))
        if op == "g*x": x = rand_c(r, n1, n1)   # the result keeps the shape of g
        if op == "x*g": x = rand_c(r, n0, n0)
        if s % 2: x = x.real.copy()
        if op in ("g/x", "g/=x"): raise Skip()
        add, mulr, mull = x, np.einsum("...ij,jk->...ik", d, x) if op in ("g*x", "g*=x") else None, np.einsum("ij,...jk->...ik", x, d) if op == "x*g" else None
    else:
        x = SCAL[si]
        add = x * ident(t) if len(t) == 2 else x
        mulr = mull = d * x
    if op in ("g/x", "g/=x") and x == 0: raise Skip()
    W = {"g+x": lambda: d + add, "x+g": lambda: d + add, "g-x": lambda: d - add, "x-g": lambda: add - d, "g*x": lambda: mulr, "x*g": lambda: mull,
         "g+=x": lambda: d + add, "g-=x": lambda: d - add, "g*=x": lambda: mulr, "g/x": lambda: d / x, "g/=x": lambda: d / x}[op]()
    if op == "g+x": res = g + x
    elif op == "x+g": res = x + g
    elif op == "g-x": res = g - x
    elif op == "x-g": res = x - g
    elif op == "g*x": res = g * x
    elif op == "x*g": res = x * g
    elif op == "g/x": res = g / x
    else:
        k = g
        if op == "g+=x": k += x
        elif op == "g-=x": k -= x
        elif op == "g*=x": k *= x
        elif op == "g/=x": k /= x
        require(k is g, "in-place operation keeps the object")
        if big is not None: require(np.all(rest == 99), "an operation on a view changes its surroundings", case=case)
        close(g.data, W, 1e-12, op, case=case); return
    require(isinstance(res, Gf), "result is a Green function", got=type(res))
    close(res.data, W, 1e-12, op, case=case)
    close(g.data, d, 0, "operand unchanged", op=op)
    require(eqm(res.mesh, mesh), "mesh of the result")
    res.data[...] = 77; close(g.data, d, 0, "result independent of its operand", op=op, case=case)

def u_unary(case):
    kinds, size, t, s, real = case
    r = rng(s); mesh = mk_mesh_list(kinds, size); g = mk_gf(r, mesh, t, real, name="foo"); d = g.data.copy()
    close((-g).data, -d, 0, "-g")
    close(g.conjugate().data, d.conj(), 0, "conjugate")
    for h in (g.copy(), Gf(mesh=mesh, data=(d.real + 0j))):
        hd = h.data.copy()
        for nm, f in (("conjugate", lambda: h.conjugate()), ("-g", lambda: -h)):
            o = f(); o.data[...] = 7; close(h.data, hd, 0, nm + " is independent of its operand")
    re, im = g.real, g.imag
    close(re.data, d.real, 0, "real"); close(im.data, d.imag, 0, "imag"); require(re.name == "Re foo" and im.name == "Im foo", "names of the parts", got=(re.name, im.name))
    c = g.copy(); close(c.data, d, 0, "copy"); require(eqm(c.mesh, g.mesh) and c.name == "foo", "copy keeps mesh and name")
    c.data[...] = 3; close(g.data, d, 0, "copy is deep")
    if not isinstance(mesh, MeshProduct): require(c.mesh is not g.mesh, "copy copies the mesh")
    if len(t) == 2 and len(kinds) == 1:
        tr = g.transpose(); close(tr.data, np.swapaxes(d, 1, 2), 0, "transpose")
        tr.data[...] = 1; close(g.data, d, 0, "transpose is a copy")
        close(g.transpose().transpose().data, d, 0, "transpose twice")
        n0, n1 = t; L, R = rand_c(r, 2, n0), rand_c(r, n1, 3)
        if s % 3 == 0: L = np.asfortranarray(L); R = np.asfortranarray(R)
        if s % 3 == 1: L = rand_c(r, n0, 2).T; R = rand_c(r, 3, n1).T
        out = mk_gf(r, mesh, (2, 3)); out.from_L_G_R(L, mk_gf(rng(s + 1), mesh, t), R)
        close(out.data, np.einsum("ij,wjk,kl->wil", L, mk_gf(rng(s + 1), mesh, t).data, R), 1e-12, "from_L_G_R")
        if n0 != 2: raises(AssertionError, lambda: out.from_L_G_R(rand_c(r, 2, 2), g, R), "from_L_G_R accepts a mismatched left matrix")
    if not real and (len(t) == 0 or (len(t) == 2 and t[0] == t[1])):
        inv = g.inverse()
        if len(t) == 0: close(inv.data, 1 / d, 1e-10, "inverse")
        else:
            want = np.linalg.inv(d)
            require(np.all(np.abs(inv.data - want) <= 1e-8 * np.linalg.cond(d).max() * (1 + np.abs(want).max())), "inverse")
        close(g.data, d, 0, "inverse is a copy")
        gg = g.copy(); gg.invert(); close(gg.data, inv.data, 1e-12, "invert in place = inverse")
        # in place on a function that is a view of a larger one: the values of the others stay
        n = t[0] if t else 1; m1 = mk_mesh("imfreq_f", 2); m2 = mk_mesh("retime", 3); m3 = mk_mesh("imtime_f", 2 + s % 3)
        big = mk_gf(r, MeshProduct(m1, m2, m3), t); b0 = big.data.copy(); j = s % len(m2)
        big[:, list(m2)[j], :].invert()
        want = b0.copy(); want[:, j] = 1 / b0[:, j] if not t else np.linalg.inv(b0[:, j])
        cn = 1.0 if not t else np.linalg.cond(b0[:, j]).max()
        close(np.delete(big.data, j, 1), np.delete(b0, j, 1), 0, "the rest of the function is untouched")
        require(np.all(np.abs(big.data - want) <= 1e-9 * cn * (1 + np.abs(want).max())), "in-place inversion of a slice of a function of several variables")
        if t:
            wide = mk_gf(r, mesh, (n + 1, n + 1)); w0 = wide.data.copy(); wide[1:, :n].invert()
            close(wide.data[..., 0, :], w0[..., 0, :], 0, "rest untouched"); close(wide.data[..., n], w0[..., n], 0, "rest untouched")
            want = np.linalg.inv(w0[..., 1:, :n]) 
            require(np.all(np.abs(wide.data[..., 1:, :n] - want) <= 1e-9 * np.linalg.cond(w0[..., 1:, :n]).max() * (1 + np.abs(want).max())), "in-place inversion of a block of the target space")
    elif len(t) in (1, 3):
        raises(TypeError, lambda: g.copy().invert(), "inversion of a tensor-valued Gf")
    z = g.copy(); z.zero(); close(z.data, 0 * d, 0, "zero")
    p = pickle.loads(pickle.dumps(g)); close(p.data, d, 0, "pickle"); require(eqm(p.mesh, g.mesh) and p.name == g.name, "pickle keeps mesh and name")
    dd = g.__reduce_to_dict__(); dd = dict(dd); dd["indices"] = "legacy"; dd["singularity"] = "legacy"
    q = Gf.__factory_from_dict__("nm", dd); close(q.data, d, 0, "legacy archive layout"); require(q.name == "nm", "name of the reloaded object")
    require(g.rank == len(kinds) and g.target_rank == len(t) and tuple(g.target_shape) == tuple(t), "rank / target shape")
    require(list(g.target_indices) == list(np.ndindex(*t)), "target_indices")
    e = g.copy(); e.zero(); e.copy_from(g); close(e.data, d, 0, "copy_from")
    g.data[...] = 0; close(e.data, d, 0, "copy_from is deep"); close(inv.data if False else p.data, d, 0, "pickle is deep")

def pick_key(r, mesh, how):
    """a generated key into the mesh; returns (key for Gf, data index)"""
    d = r.randint(len(mesh))
    if how == "mp": return mesh[d], d
    idx = mesh.to_index(d)
    return (Idx(*idx) if isinstance(idx, tuple) and r.randint(2) else Idx(idx)), d

def u_mesh_access(case):
    kinds, size, t, s, hows, setit = case
    r = rng(s); mesh = mk_mesh_list(kinds, size); g = mk_gf(r, mesh, t); d = g.data.copy(); nt = len(t)
    ms = [mesh] if len(kinds) == 1 else list(mesh._mlist)
    hows = [hows[i % len(hows)] for i in range(len(ms))]
    keys, ds = [], []
    for m, h in zip(ms, hows):
        if h == ":": keys.append(slice(None)); ds.append(slice(None))
        else:
            k, i = pick_key(r, m, h); keys.append(k); ds.append(i)
    if len(ms) == 1:
        if hows[0] == ":":
            require(g[:] is g, "g[:] is g"); return
        key = keys[0]
        close(g[key], d[ds[0]], 0, "g[mesh point]", case=case)
        if setit:
            v = rand_c(r, *t) if t else complex(rand_c(r, 1)[0]); g[key] = v; w = d.copy(); w[ds[0]] = v
            close(g.data, w, 0, "g[mesh point] = value", case=case)
        bad = mk_mesh(kinds[0], size + 3)
        if len(bad) != len(mesh): raises(AssertionError, lambda: g[bad[0]], "mesh point of another mesh accepted")
        return
    if all(h == ":" for h in hows): return
    if any(h == ":" for h in hows):
        v = g[tuple(keys)]
        close(v.data, d[tuple(ds)], 0, "partial mesh slice", case=case)
        rest = [m for m, h in zip(ms, hows) if h == ":"]
        require(eqm(v.mesh, rest[0] if len(rest) == 1 else MeshProduct(*rest)), "mesh of the slice", got=v.mesh)
        require(tuple(v.target_shape) == tuple(t), "target of the slice")
        v.data[...] = 9; w = d.copy(); w[tuple(ds)] = 9; close(g.data, w, 0, "the slice is a view")
        if setit:
            h2 = mk_gf(r, v.mesh.copy(), t); g[tuple(keys)] = h2; w[tuple(ds)] = h2.data; close(g.data, w, 0, "slice assignment", case=case)
        return
    close(g[tuple(keys)], d[tuple(ds)], 0, "g[mp1, mp2..]", case=case)
    mi = Idx(*[m.to_index(i) for m, i in zip(ms, ds)])
    close(g[mi], d[tuple(ds)], 0, "g[Idx(i,j,..)] on a product mesh", case=case)
    if setit:
        v = rand_c(r, *t) if t else complex(rand_c(r, 1)[0]); w = d.copy(); w[tuple(ds)] = v
        if s % 2: g[tuple(keys)] = v
        else: g[mi] = v
        close(g.data, w, 0, "g[mp1, mp2..] = v", case=case)
    raises(AssertionError, lambda: g[tuple(keys[:-1])] if len(keys) > 2 else g[tuple(keys + keys)], "wrong number of mesh keys accepted")

def sl(r, n):
    a = r.randint(0, n); b = r.randint(a + 1, n + 1); return slice(a, b)

def u_target(case):
    kinds, size, t, s, kind = case
    if not t: raise Skip()
    r = rng(s); mesh = mk_mesh_list(kinds, size); g = mk_gf(r, mesh, t); d = g.data.copy(); R = len(kinds)
    if kind == "int":
        k = tuple(int(r.randint(n)) for n in t); dk = (slice(None),) * R + k
    else:
        k = tuple(sl(r, n) for n in t); dk = (slice(None),) * R + k
    key = k if len(k) > 1 else k[0]
    if len(k) == 1 and kind != "int" and key == slice(None): return
    v = g[key]
    close(v.data, d[dk], 0, "target slice", case=case); require(eqm(v.mesh, mesh), "mesh kept")
    v.data[...] = 4; w = d.copy(); w[dk] = 4; close(g.data, w, 0, "target slice is a view")
    src = mk_gf(r, mesh, v.target_shape)
    op = s % 6
    if op == 4 and kinds not in (("imfreq_f",), ("imfreq_b",), ("refreq",)): op = 5
    if op == 0: g[key] = src; w[dk] = src.data
    elif op == 1: g[key] << src; w[dk] = src.data
    elif op == 2: v += src; w[dk] += src.data
    elif op == 3: v *= 2; w[dk] *= 2
    elif op == 4 and len(t) == 2 and (kind == "int" or v.target_shape[0] == v.target_shape[1]):
        g[key] << 3.0
        if kind == "int": w[dk] = 3.0
        else:
            w[dk] = 0; q = w[dk]
            for i in range(min(q.shape[-2:])): q[..., i, i] = 3.0
    elif op == 5: v -= src; w[dk] -= src.data
    close(g.data, w, 1e-13, "write through a target slice", case=case)
    if len(t) == 2:
        raises(NotImplementedError, lambda: g[0, 0:1], "partial slice accepted")
        raises(RuntimeError, lambda: g["a", "b"], "string indices accepted")
        raises(AssertionError, lambda: g[0], "wrong number of target indices accepted")

def u_reject(case):
    k1, k2, size, t, s, op = case
    m1, m2 = mk_mesh(k1, size), mk_mesh(k2, size + (1 if k1 == k2 else 0))
    if k1 == k2 == "dlr": m2 = MS.MeshDLR(3.0, "Fermion", 5.0, 1e-6)
    if eqm(m1, m2): raise Skip()
    if len(t) not in (0, 2) and "*" in op: raise Skip()
    if op == "*" and {k1, k2} == {"imtime_f", "imtime_b"}: raise Skip()
    if len(t) == 2: t = (t[0], t[0])
    r = rng(s); g, h = mk_gf(r, m1, t), mk_gf(r, m2, t); d = g.data.copy(); dh = h.data.copy()
    prod = s % 2
    if prod:
        e = mk_mesh("refreq", 1)
        g, h = mk_gf(r, MeshProduct(e, m1), t), mk_gf(r, MeshProduct(e.copy(), m2), t); d = g.data.copy(); dh = h.data.copy()
    def f():
        nonlocal g
        k = g
        if op == "+": k + h
        elif op == "-": k - h
        elif op == "*": k * h
        elif op == "+=": k += h
        elif op == "-=": k -= h
        elif op == "*=": k *= h
        else: k << h
    raises(AssertionError, f, "%s of Green functions on different meshes" % op)
    close(g.data, d, 0, "operand changed by a rejected operation"); close(h.data, dh, 0, "operand changed by a rejected operation")
    require(eqm(g.mesh, MeshProduct(mk_mesh("refreq", 1), m1) if prod else m1), "mesh changed by a rejected operation")

def u_stat(case):
    """product of imaginary-time functions combines statistics"""
    s1, s2, n, t, prod = case
    r = rng(n)
    a, b = MS.MeshImTime(2.0, s1, n), MS.MeshImTime(2.0, s2, n)
    if prod: a, b = MeshProduct(MS.MeshReFreq(0, 1, 2), a), MeshProduct(MS.MeshReFreq(0, 1, 2), b)
    res = mk_gf(r, a, t) * mk_gf(r, b, t)
    m = res.mesh._mlist[1] if prod else res.mesh
    require(m.statistic == ("Boson" if s1 == s2 else "Fermion"), "statistic of a product in imaginary time", got=m.statistic, s=(s1, s2))
    require(m.beta == 2.0 and len(m) == n, "mesh of the product")

def u_ctor(case):
    kinds, size, t, s, what = case
    mesh = mk_mesh_list(kinds, size); r = rng(s)
    d = mk_data(r, mesh, t)
    if what == 0:
        g = Gf(mesh=mesh, target_shape=t); require(g.data.shape == d.shape and np.all(g.data == 0) and g.data.dtype == np.complex128, "zero initialised complex")
        g = Gf(mesh=mesh, target_shape=list(t), is_real=True); require(g.data.shape == d.shape and np.all(g.data == 0) and g.data.dtype == np.float64, "zero initialised real")
        g = Gf(mesh=mesh, data=d); require(g.data is d, "data is not copied")
    elif what == 1: raises(AssertionError, lambda: Gf(mesh=mesh, data=d, target_shape=t), "both data and target_shape")
    elif what == 2: raises(AssertionError, lambda: Gf(mesh=mesh), "neither data nor target_shape")
    elif what == 3:
        i = r.randint(len(kinds)); sh = list(d.shape); sh[i] += 1
        raises(AssertionError, lambda: Gf(mesh=mesh, data=np.zeros(sh)), "data inconsistent with the mesh")
    elif what == 4: raises(AssertionError, lambda: Gf(mesh=3, target_shape=t), "not a mesh")
    elif what == 5 and t: raises(AssertionError, lambda: Gf(mesh=mesh, target_shape=[0] + list(t[1:])), "empty target")
    elif what == 6: raises(AssertionError, lambda: Gf(mesh=mesh, data=d, is_real=True), "is_real with data")

def u_product_mesh(case):
    k1, k2, size, s = case
    mesh = mk_mesh_list((k1,) + k2, size)
    ms = list(mesh._mlist)
    require(len(mesh) == int(np.prod([len(m) for m in ms])), "size of a product mesh")
    pts = list(mesh)
    require(len(pts) == len(mesh), "iteration covers the mesh")
    want = list(itertools.product(*[range(len(m)) for m in ms]))
    require([tuple(p.data_index for p in q) for q in pts] == want, "iteration order")
    q = want[s % len(want)]
    ix = tuple(m.to_index(i) for m, i in zip(ms, q))
    require(tuple(mesh.to_data_index(ix)) == q, "to_data_index inverts to_index", ix=ix)
    c = mesh.copy(); require(c == mesh and all(a is not b for a, b in zip(c._mlist, ms)), "copy")
    require(mesh[0] is ms[0] and mesh.rank == len(ms) and list(mesh.components) == ms and tuple(mesh.size_of_components()) == tuple(len(m) for m in ms), "components")
    p = pickle.loads(pickle.dumps(mesh)); require(p == mesh, "pickle keeps the order of components")
    o = MeshProduct(*[mk_mesh(k, size + 5) if k != "dlr" else mk_mesh(k) for k in (k1,) + k2])
    o.copy_from(mesh); require(o == mesh, "copy_from")
    big = MeshProduct(*[MS.MeshReFreq(0, i + 1.0, 2) for i in range(11)])
    require(MeshProduct.__factory_from_dict__("", big.__reduce_to_dict__()) == big, "reduce/restore of many components")

@st.composite
def history(draw):
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=2).map(tuple))
    t = draw(st.sampled_from([(), (2, 2), (3, 3), (2, 3)]))
    ops = draw(st.lists(st.tuples(st.integers(0, 13), st.integers(0, 7), st.integers(0, 7), st.integers(0, 1000)), min_size=1, max_size=14).map(tuple))
    return (kinds, t, draw(seeds()), ops)

def u_history(case):
    """objects sharing storage through slices, compared after each operation with numpy views"""
    kinds, t, s, ops = case
    r = rng(s); mesh = mk_mesh_list(kinds, 2); R = len(kinds)
    G, M = [], []
    for _ in range(2):
        g = mk_gf(r, mesh.copy(), t); G.append(g); M.append(g.data.copy())
    for (o, i, j, a) in ops:
        i %= len(G); j %= len(G); g, m = G[i], M[i]; h, n = G[j], M[j]
        same = tuple(g.target_shape) == tuple(h.target_shape) and eqm(g.mesh, h.mesh)
        rr = rng(a)
        if o == 0 and len(t) == 2 and g.target_rank == 2:
            k = (sl(rr, g.target_shape[0]), sl(rr, g.target_shape[1])); G.append(g[k]); M.append(m[(slice(None),) * g.rank + k])
        elif o == 1 and g.target_rank == 2:
            k = tuple(int(rr.randint(q)) for q in g.target_shape); G.append(g[k]); M.append(m[(slice(None),) * g.rank + k])
        elif o == 2 and g.rank == 2:
            x = rr.randint(2); q = rr.randint(len(g.mesh[x])); key = [slice(None)] * 2; key[x] = g.mesh[x][q]; dk = [slice(None)] * 2; dk[x] = q
            G.append(g[tuple(key)]); M.append(m[tuple(dk)])
        elif o == 3 and same: g += h; m += n.copy()
        elif o == 4 and same: g -= h; m -= n.copy()
        elif o == 5 and same: g << h; m[...] = n.copy()
        elif o == 6: g *= 0.5j; m *= 0.5j
        elif o == 7: g /= 2.0; m /= 2.0
        elif o == 8: G.append(g.copy()); M.append(m.copy())
        elif o == 9 and same and not any(x.startswith("imtime") for x in kinds): G.append(g + h); M.append(m + n)
        elif o == 10 and g.rank == 1:
            q = rr.randint(len(g.mesh)); v = rand_c(rr, *g.target_shape) if g.target_rank else 0.25j; g[g.mesh[q]] = v; m[q] = v
        elif o == 11 and g.rank == 2:
            q = [rr.randint(len(g.mesh[x])) for x in (0, 1)]; g[g.mesh[0][q[0]], g.mesh[1][q[1]]] = 0.125; m[tuple(q)] = 0.125
        elif o == 12: g.zero(); m[...] = 0
        elif o == 13 and g.target_rank in (0, 2):
            g += 1.5
            if g.target_rank == 0: m += 1.5
            else:
                for x in range(min(g.target_shape)): m[..., x, x] += 1.5
        for q, (x, y) in enumerate(zip(G, M)): close(x.data, y, 1e-10, "history", obj=q, after=(o, i, j, a))

def u_xview(case):
    kind, size, win, t, s = case
    mesh = mk_mesh(kind, size); g = mk_gf(rng(s), mesh, t)
    def num(v): return v.imag if kind.startswith("imfreq") else float(v)
    X = np.array([num(p.value) for p in mesh])
    lo, hi = sorted(win)
    for w in (None, (lo, hi)):
        x, y = g.x_data_view(x_window=w, flatten_y=bool(s % 2))
        sel = np.ones(len(X), bool) if w is None else (X >= lo) & (X <= hi)
        close(np.array([float(q) for q in x]), X[sel], 1e-13, "x_data_view x", case=case)
        d = g.data[sel]
        if s % 2 and t == (1, 1): d = d[:, 0, 0]
        close(y, d, 0, "x_data_view data", case=case)

def units():
    sz = st.integers(1, 3)
    m2 = st.lists(st.sampled_from(KINDS), min_size=1, max_size=2).map(tuple)
    ops = ["g+x", "x+g", "g-x", "x-g", "g*x", "x*g", "g/x", "g+=x", "g-=x", "g*=x", "g/=x"]
    multi = lambda c: len(c[0]) > 1
    return [
        Unit("binary", st.tuples(m2, sz, tsh, tsh, st.sampled_from(["+", "-", "*", "@", "+=", "-=", "*=", "@=", "<<"]), seeds(), st.booleans()), u_binary, 1500, 10000, lambda c: c[4] in "*@" or len(c[0]) > 1, "matrix product or product mesh"),
        Unit("scalar", st.tuples(m2, sz, tsh, st.sampled_from(ops), st.integers(0, len(SCAL) - 1), st.booleans(), seeds()), u_scalar, 1500, 10000, lambda c: c[5] or c[4] not in (5, 6), "matrix operand or scalar not 0/1"),
        Unit("unary", st.tuples(m2, sz, tsh, seeds(), st.booleans()), u_unary, 600, 4000, lambda c: len(c[2]) > 0, "non-scalar target"),
        Unit("mesh_access", st.tuples(mesh_kinds, sz, tsh, seeds(), st.lists(st.sampled_from(["mp", "idx", ":", "mp"]), min_size=3, max_size=3).map(tuple), st.booleans()), u_mesh_access, 1200, 8000, multi, "product mesh"),
        Unit("target_slice", st.tuples(m2, sz, tsh, seeds(), st.sampled_from(["int", "range"])), u_target, 900, 6000, lambda c: max(c[2] + (0,)) > 1, "target larger than one"),
        Unit("reject_mesh", st.tuples(st.sampled_from(KINDS), st.sampled_from(KINDS), sz, tsh, seeds(), st.sampled_from(["+", "-", "*", "+=", "-=", "*=", "<<"])), u_reject, 700, 4000, lambda c: c[0] == c[1] or c[4] % 2, "same mesh type with other parameters, or product mesh"),
        Unit("statistics", st.tuples(st.sampled_from(["Fermion", "Boson"]), st.sampled_from(["Fermion", "Boson"]), st.integers(2, 6), st.sampled_from([(), (2, 2)]), st.booleans()), u_stat, 80, 80, lambda c: c[0] != c[1] or c[0] == "Fermion", "not boson x boson"),
        Unit("constructor", st.tuples(m2, sz, tsh, seeds(), st.integers(0, 6)), u_ctor, 400, 2000, lambda c: c[4] > 0, "invalid arguments"),
        Unit("product_mesh", st.tuples(st.sampled_from(KINDS), st.lists(st.sampled_from(KINDS), min_size=1, max_size=3).map(tuple), sz, seeds()), u_product_mesh, 400, 2000, lambda c: True, "every case"),
        Unit("history", history(), u_history, 1200, 10000, lambda c: len({o[0] for o in c[3]} & {0, 1, 2}) > 0 and len({o[0] for o in c[3]} & {3, 4, 5, 6, 10, 11, 12, 13}) > 0, "a slice is taken and something is modified"),
        Unit("x_data_view", st.tuples(st.sampled_from(["imfreq_f", "imfreq_b", "imtime_f", "refreq", "retime"]), st.integers(2, 6), st.tuples(real(-6, 6), real(-6, 6)), st.sampled_from([(1, 1), (2, 2)]), seeds()), u_xview, 300, 1500, lambda c: True, "every case"),
    ]
