"""Block containers of Green functions."""
from gfcommon_loader import *
import pickle
from triqs.gf import map_block, fix_gf_struct_type
from triqs.gf.block2_gf import Block2Gf

RULE = "generated block structures, data, operands and operation histories; oracle: dictionary of plain numpy arrays"

NAMES = ["up", "dn", "a_0", "a", "0", "eg", "t2g", "x-y", "9", "10", "2", "up_10", "up_2", "é"]
@st.composite
def structure(draw, square=True, minb=1):
    n = draw(st.one_of(st.integers(minb, 4), st.integers(minb, 4), st.integers(minb, 4), st.integers(9, len(NAMES)))); names = draw(st.permutations(NAMES))[:n]
    rank = draw(st.sampled_from([2, 2, 2, 0]))
    sizes = [draw(st.integers(1, 3)) for _ in range(n)]
    return (tuple(names), tuple(sizes), rank, draw(st.sampled_from(KINDS)))

def build(stc, s, name="G"):
    names, sizes, rank, kind = stc
    r = rng(s); mesh = mk_mesh(kind, 2)
    G = BlockGf(name_list=list(names), block_list=[mk_gf(r, mesh.copy(), (n, n) if rank else ()) for n in sizes], name=name)
    return G, {b: g.data.copy() for b, g in G}

def chk(G, D, msg, names=None, tol=1e-11, **kw):
    names = list(D) if names is None else list(names)
    require([b for b, _ in G] == names and list(G.indices) == names and len(G) == len(names) and G.n_blocks == len(names), msg + ": block names and order", got=[b for b, _ in G], want=names)
    for b, g in G:
        close(g.data, D[b], tol, msg, block=b, **kw)
        require(G[b] is g, msg + ": G[name] is the block")

def mm(a, b): return np.einsum("...ij,...jk->...ik", a, b) if a.ndim == 3 and b.ndim == 3 else a * b

def eye(d):
    if d.ndim == 1: return np.ones(())
    return np.eye(d.shape[-1])

def u_ops(case):
    stc, s, op, kind, sc = case
    G, D = build(stc, s); H, E = build(stc, s + 1); r = rng(s + 2)
    names, sizes, rank, mk = stc
    if kind == "perm":   # same blocks, other order: operations go by name
        p = list(r.permutation(len(names)))
        H = BlockGf(name_list=[names[i] for i in p], block_list=[H[names[i]] for i in p])
        kind = "block"
    if kind == "block":
        if op in ("/", "/="): raise Skip()
        X = H; val = E
    elif kind == "scalar": X = sc; val = {b: sc for b in D}
    elif kind == "list":
        if op not in ("+=", "-=", "/=", "+", "-", "/"): raise Skip()
        X = [sc + i for i in range(len(names))]; val = {b: x for b, x in zip(D, X)}
        if op[0] == "/" and 0 in X: raise Skip()
    elif kind == "matrix":
        if rank == 0 or len(set(sizes)) > 1 or op[0] == "/": raise Skip()
        X = rand_c(r, sizes[0], sizes[0]); val = {b: X for b in D}
    if op[0] == "/" and kind == "scalar" and sc == 0: raise Skip()
    def f(b, o, swap=False):
        d, v = D[b], val[b]
        isnum = np.isscalar(v)
        if o == "*":
            if isnum: return d * v
            if kind == "matrix": return np.einsum("ij,wjk->wik", v, d) if swap else np.einsum("wij,jk->wik", d, v)
            return mm(v, d) if swap else mm(d, v)
        if o == "/": return d / v
        v2 = v * eye(d) if isnum else v
        return d + v2 if o == "+" else (v2 - d if swap else d - v2)
    if op in ("r+", "r-", "r*"):
        if kind == "list": raise Skip()
        if kind == "block": raise Skip()
        R = X + G if op == "r+" else X - G if op == "r-" else X * G
        chk(R, {b: f(b, op[1], True) for b in D}, op, case=case)
    elif op in ("+", "-", "*", "/"):
        R = G + X if op == "+" else G - X if op == "-" else G * X if op == "*" else G / X
        chk(R, {b: f(b, op) for b in D}, op, case=case)
        for b, g in R: require(eqm(g.mesh, G[b].mesh) or mk.startswith("imtime"), "mesh of the result")
        for b, g in R: g.data[...] = 99
    else:
        W = {b: f(b, op[0]) for b in D}; K = G; ids = {b: id(g) for b, g in G}
        if op == "+=": K += X
        elif op == "-=": K -= X
        elif op == "*=": K *= X
        elif op == "/=": K /= X
        require(K is G and all(id(g) == ids[b] for b, g in G), "in-place operation keeps container and blocks")
        chk(G, W, op, case=case)
        if kind == "block": chk(H, {b: E[b] for b, _ in H}, "right operand unchanged")
        return
    chk(G, D, "operand unchanged by " + op)
    if kind == "block": chk(H, {b: E[b] for b, _ in H}, "right operand unchanged")

def u_container(case):
    stc, s, k = case
    names, sizes, rank, kind = stc
    G, D = build(stc, s, "nm")
    C = G.copy(); chk(C, D, "copy")
    for b, g in C: g.data[...] = 1
    chk(G, D, "copy is deep")
    r = rng(s); sel = [b for b in names if r.rand() < 0.6] or [names[0]]
    req = list(sel); r.shuffle(req)
    V = G.view_selected_blocks(req); chk(V, {b: D[b] for b in sel}, "view_selected_blocks in the order of self", names=sel)
    W = G.copy_selected_blocks(req); chk(W, {b: D[b] for b in sel}, "copy_selected_blocks in the order of self", names=sel)
    for b, g in W: g.data[...] = 5
    chk(G, D, "copy_selected_blocks copies")
    for b, g in V: g.data[...] = 7; D[b] = np.full_like(D[b], 7)
    chk(G, D, "view_selected_blocks is a view")
    raises(AssertionError, lambda: G.view_selected_blocks(["nope"]), "unknown block selected")
    raises(IndexError, lambda: G["nope"], "unknown block accessed")
    def setb(): G["nope"] = 1
    raises(IndexError, setb, "unknown block assigned")
    chk(-G, {b: -D[b] for b in D}, "-G"); chk(G.real, {b: D[b].real for b in D}, "real"); chk(G.imag, {b: D[b].imag for b in D}, "imag")
    chk(G.conjugate(), {b: D[b].conj() for b in D}, "conjugate")
    if rank: chk(G.transpose(), {b: np.swapaxes(D[b], 1, 2) for b in D}, "transpose")
    G, D = build(stc, s, "nm")
    Inv = {b: (np.linalg.inv(d) if rank else 1 / d) for b, d in D.items()}
    cond = max([np.linalg.cond(d).max() if rank else np.abs(1 / d).max() for d in D.values()])
    chk(G.inverse(), Inv, "inverse", tol=1e-10 * cond); chk(G, D, "inverse is a copy")
    K = G.copy(); K.invert(); chk(K, Inv, "invert", tol=1e-10 * cond)
    K.zero(); chk(K, {b: 0 * d for b, d in D.items()}, "zero")
    K.copy_from(G); chk(K, D, "copy_from"); K.zero(); chk(G, D, "copy_from is deep")
    K << G; chk(K, D, "<<"); K.zero(); chk(G, D, "<< copies")
    K[:] = G; chk(K, D, "G[:] = H")
    pm = [int(i) for i in r.permutation(len(names))]; P = BlockGf(name_list=[names[i] for i in pm], block_list=[G[names[i]].copy() for i in pm])
    if len(set(sizes)) == 1: K.zero(); K << P; chk(K, D, "<< from a function with its blocks in another order goes by name"); chk(P, {names[i]: D[names[i]] for i in pm}, "right operand of <<")
    p = pickle.loads(pickle.dumps(G)); chk(p, D, "pickle"); require(p.name == "nm", "name survives pickling")
    q = BlockGf.__factory_from_dict__("zz", dict(G.__reduce_to_dict__())); chk(q, D, "reload from the archive layout"); require(q.name == "zz", "name of the reloaded object")
    d0 = dict(G.__reduce_to_dict__()); d0["indices"] = repr(d0.pop("block_names")); chk(BlockGf.__factory_from_dict__("zz", d0), D, "reload from the old archive layout")
    d0 = dict(G.__reduce_to_dict__()); d0.pop(names[-1]); raises(AssertionError, lambda: BlockGf.__factory_from_dict__("zz", d0), "reload with a missing block accepted")
    dens = G.density(); require(set(dens) == set(names), "density per block")
    for b in names: close(dens[b], G[b].density(), 1e-13, "density of the block")
    if rank:
        close(G.total_density(), sum(np.trace(G[b].density()) for b in names), 1e-11, "total density")
        E2 = BlockGf(name_list=list(names), block_list=[G[names[0]].copy() for b in names]); close(E2.total_density(), len(names) * np.trace(G[names[0]].density()), 1e-11, "total density of equal blocks", names=names)
    if rank: require(list(G.all_indices) == [(b, i, j) for b, n in zip(names, sizes) for i in range(n) for j in range(n)], "all_indices")
    # bad copy_from
    if rank:
        bad, _ = build((names, tuple(n + 1 for n in sizes), rank, kind), s)
        raises(RuntimeError, lambda: K.copy_from(bad), "copy_from with other block sizes accepted"); chk(K, D, "rejected copy_from leaves the target unchanged")
    for b, g in map_block(lambda g: 2 * g, G): close(g.data, 2 * D[b], 1e-13, "map_block")
    require([b for b, _ in map_block(lambda g: 2 * g, G)] == list(names), "map_block names")
    l = map_block(lambda g: complex(g.data.sum()), G); require(isinstance(l, list), "map_block to values gives a list")
    for x, b in zip(l, names): close(x, D[b].sum(), 1e-12, "map_block values")
    raises(Exception, lambda: map_block(lambda g: g, G[names[0]]), "map_block of a single Gf accepted")

def u_ctor(case):
    stc, s, what = case
    names, sizes, rank, kind = stc
    mesh = mk_mesh(kind, 2); r = rng(s)
    bl = [mk_gf(r, mesh, (n, n)) for n in sizes]; D = {b: g.data.copy() for b, g in zip(names, bl)}
    if what == 0:
        G = BlockGf(name_list=list(names), block_list=bl); chk(G, D, "from lists")
        require(all(G[b] is g for b, g in zip(names, bl)), "blocks are not copied")
        G = BlockGf(name_list=list(names), block_list=bl, make_copies=True); chk(G, D, "make_copies")
        for b, g in G: g.data[...] = 0
        for b, g in zip(names, bl): close(g.data, D[b], 0, "make_copies copies")
        G = BlockGf(block_list=bl); chk(G, {str(i): g.data for i, g in enumerate(bl)}, "default names")
    elif what == 1:
        G = BlockGf(name_block_generator=((b, g) for b, g in zip(names, bl)), name="A"); chk(G, D, "from generator")
        require(G.name == "A" and all(g.name == "A_%s" % b for b, g in G), "names")
        G = BlockGf(name_block_generator=list(zip(names, bl)), make_copies=True)
        for b, g in G: g.data[...] = 0
        for b, g in zip(names, bl): close(g.data, D[b], 0, "make_copies copies")
    elif what == 2:
        for tr in (0, 1, 2, 3):
            G = BlockGf(mesh=mesh, gf_struct=list(zip(names, sizes)), target_rank=tr)
            chk(G, {b: np.zeros((len(mesh),) + (n,) * tr) for b, n in zip(names, sizes)}, "gf_struct")
        G = BlockGf(mesh=mesh, gf_struct=list(zip(names, sizes))); chk(G, {b: np.zeros((len(mesh), n, n)) for b, n in zip(names, sizes)}, "gf_struct default rank")
        gs = list(zip(names, sizes))
        for (b, g) in G: g.data[...] = 3; break
        require(all(np.all(g.data == (3 if i == 0 else 0)) for i, (b, g) in enumerate(G)), "blocks are independent")
    elif what == 3: raises(AssertionError, lambda: BlockGf(name_list=list(names) + [names[0]], block_list=bl + [bl[0]]), "duplicate names accepted")
    elif what == 4: raises(AssertionError, lambda: BlockGf(name_list=list(names) + ["zzz"], block_list=bl), "wrong number of names accepted")
    elif what == 5: raises(AssertionError, lambda: BlockGf(name_list=["__x"] + list(names[1:]), block_list=bl), "name with leading underscores accepted")
    elif what == 6: raises(AssertionError, lambda: BlockGf(name_list=["block_names"] + list(names[1:]), block_list=bl), "reserved name accepted")
    elif what == 7: raises(RuntimeError, lambda: BlockGf(mesh=mesh), "incomplete arguments accepted")
    elif what == 8: raises(AssertionError, lambda: BlockGf(name_list=[1] + list(names[1:]), block_list=bl), "non-string name accepted")
    elif what == 9:
        raises(RuntimeError, lambda: BlockGf(name_list=list(names) + ["q"], block_list=bl + [BlockGf(block_list=bl)]), "blocks of different types accepted")
    elif what == 10:
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            want = [(b, n) for b, n in zip(names, sizes)]
            require([tuple(x) for x in fix_gf_struct_type(list(want))] == want, "new gf_struct unchanged")
            require([tuple(x) for x in fix_gf_struct_type(dict(want))] == want, "dict gf_struct")
            require([tuple(x) for x in fix_gf_struct_type([(b, list(range(n))) for b, n in want])] == want, "old gf_struct")
            require([tuple(x) for x in fix_gf_struct_type([(b, ["o%d" % i for i in range(n)]) for b, n in want])] == want, "old gf_struct with names")

@st.composite
def struct2(draw):
    n1, n2 = draw(st.one_of(st.integers(1, 3), st.integers(1, 11))), draw(st.one_of(st.integers(1, 3), st.integers(1, 4)))
    a = draw(st.permutations(NAMES))[:n1]; b = draw(st.permutations(NAMES))[:n2]
    return (tuple(a), tuple(b), draw(st.integers(1, 3)), draw(st.sampled_from([2, 2, 0])), draw(st.sampled_from(KINDS)))
def build2(stc, s, name=""):
    a, b, n, rank, kind = stc; r = rng(s); mesh = mk_mesh(kind, 2)
    blk = {(x, y): mk_gf(r, mesh.copy(), (n, n) if rank else ()) for x in a for y in b}
    G = Block2Gf(list(a), list(b), (lambda x, y: blk[x, y]) if s % 2 else [[blk[x, y] for y in b] for x in a], name=name)
    return G, {k: g.data.copy() for k, g in blk.items()}
def chk2(G, D, msg, tol=1e-11, **kw):
    require([k for k, _ in G] == list(D) and list(G.indices) == list(D) and len(G) == len(D) == G.n_blocks, msg + ": names and order", got=list(G.indices), want=list(D))
    for k, g in G:
        close(g.data, D[k], tol, msg, block=k, **kw); require(G[k] is g and G[k[0], k[1]] is g, msg + ": G[b1,b2] is the block")

def u_block2(case):
    stc, s, op, kind, sc = case
    a, b, n, rank, mk = stc
    G, D = build2(stc, s, "nm"); H, E = build2(stc, s + 1); r = rng(s + 2)
    chk2(G, D, "construction")
    if kind == "block":
        if op[0] == "/" or op[0] == "r": raise Skip()
        X, val = H, E
    elif kind == "scalar":
        if op[0] == "/" and sc == 0: raise Skip()
        X, val = sc, {k: sc for k in D}
    elif kind == "matrix":
        if not rank or op[0] == "/": raise Skip()
        X = rand_c(r, n, n); val = {k: X for k in D}
    elif kind == "list":
        if op[0] == "r" or op in ("*",): raise Skip()
        X = [sc + 0.5 + i for i in range(len(D))]; val = dict(zip(D, X))
        if op[0] == "/" and 0 in X: raise Skip()
    def f(k, o, swap=False):
        d, v = D[k], val[k]; isnum = np.isscalar(v)
        if o == "*":
            if isnum: return d * v
            if kind == "matrix": return np.einsum("ij,wjk->wik", v, d) if swap else np.einsum("wij,jk->wik", d, v)
            return mm(d, v)
        if o == "/": return d / v
        v2 = v * eye(d) if isnum else v
        return d + v2 if o == "+" else (v2 - d if swap else d - v2)
    if op[0] == "r":
        R = X + G if op == "r+" else X - G if op == "r-" else X * G
        chk2(R, {k: f(k, op[1], True) for k in D}, op, case=case); chk2(G, D, "operand unchanged")
    elif len(op) == 1:
        R = G + X if op == "+" else G - X if op == "-" else G * X if op == "*" else G / X
        chk2(R, {k: f(k, op) for k in D}, op, case=case)
        for k, g in R: g.data[...] = 9
        chk2(G, D, "operand unchanged")
    else:
        W = {k: f(k, op[0]) for k in D}; K = G
        if op == "+=": K += X
        elif op == "-=": K -= X
        elif op == "*=": K *= X
        elif op == "/=": K /= X
        require(K is G, "in-place"); chk2(G, W, op, case=case)
        G, D = build2(stc, s, "nm")
    C = G.copy(); chk2(C, D, "copy"); C.zero(); chk2(G, D, "copy is deep"); chk2(C, {k: 0 * d for k, d in D.items()}, "zero")
    C.copy_from(G); chk2(C, D, "copy_from"); C.zero(); C << G; chk2(C, D, "<<"); C.zero(); chk2(G, D, "<< copies")
    chk2(-G, {k: -d for k, d in D.items()}, "-G"); chk2(G.real, {k: d.real for k, d in D.items()}, "real"); chk2(G.imag, {k: d.imag for k, d in D.items()}, "imag")
    p = pickle.loads(pickle.dumps(G)); chk2(p, D, "pickle"); require(p.name == "nm", "name survives pickling")
    amb = len(set("%s_%s" % k for k in D)) < len(D)
    if not amb: chk2(Block2Gf.__factory_from_dict__("q", dict(G.__reduce_to_dict__())), D, "reload from the archive layout")
    s1 = [x for x in a if r.rand() < .6] or [a[-1]]; s2 = [x for x in b if r.rand() < .6] or [b[-1]]
    q1, q2 = list(s1), list(s2); r.shuffle(q1); r.shuffle(q2)
    chk2(G.view_selected_blocks(q1, q2), {(x, y): D[x, y] for x in s1 for y in s2}, "view_selected_blocks in the order of self")
    V = G.view_selected_blocks(q1, q2); k = (s1[-1], s2[0]); V[k].zero(); D0 = dict(D); D0[k] = 0 * D[k]; chk2(G, D0, "view_selected_blocks is a view"); G[k].data[...] = D[k]; chk2(V, {(x, y): D[x, y] for x in s1 for y in s2}, "view_selected_blocks sees what is written in self")
    V = G.copy_selected_blocks(q1, q2); chk2(V, {(x, y): D[x, y] for x in s1 for y in s2}, "copy_selected_blocks in the order of self")
    V.zero(); chk2(G, D, "copy_selected_blocks copies")
    raises(AssertionError, lambda: G.view_selected_blocks(["nope"], s2), "unknown block selected")
    raises(IndexError, lambda: G["nope", b[0]], "unknown block")
    require(list(G.indices1) == list(a) and list(G.indices2) == list(b), "indices1/2")
    require(list(G.all_indices) == [(x, y) + t for x in a for y in b for t in np.ndindex(*((n, n) if rank else ()))], "all_indices")
    M = map_block(lambda g: 2 * g, G); chk2(M, {k: 2 * d for k, d in D.items()}, "map_block")
    l = map_block(lambda g: complex(g.data.sum()), G)
    for i, x in enumerate(a):
        for j, y in enumerate(b): close(l[i][j], D[x, y].sum(), 1e-11, "map_block values")
    k = list(D)[s % len(D)]; G[k] = H[k]; D[k] = E[k]; chk2(G, D, "G[b1,b2] = block")
    if mk in ("imfreq_f", "imfreq_b", "refreq"):
        G << 2.5; chk2(G, {q: 2.5 * (np.eye(n) if rank else 1) * np.ones_like(d) for q, d in D.items()}, "G << scalar")

def u_ctor2(case):
    stc, s, what = case
    a, b, n, rank, kind = stc; G, D = build2(stc, s); bl = [[G[x, y] for y in b] for x in a]
    if what == 0:
        K = Block2Gf(list(a), list(b), bl, make_copies=True); K.zero(); chk2(G, D, "make_copies")
        K = Block2Gf(list(a), list(b), lambda x, y: G[x, y], make_copies=True); K.zero(); chk2(G, D, "make_copies from function")
        K = Block2Gf(list(a), list(b), bl); require(all(K[k] is g for k, g in G), "no copies")
    elif what == 1: raises(AssertionError, lambda: Block2Gf(list(a) + [a[0]], list(b), bl + [bl[0]]), "duplicate first names")
    elif what == 2: raises(AssertionError, lambda: Block2Gf(list(a) + ["zz"], list(b), bl), "wrong outer size")
    elif what == 3: raises(AssertionError, lambda: Block2Gf(list(a), list(b) + ["zz"], bl), "wrong inner size")
    elif what == 4: raises(AssertionError, lambda: Block2Gf([], list(b), []), "empty")
    elif what == 5: raises(AssertionError, lambda: Block2Gf(list(a), ["__b"] + list(b)[1:], bl), "name with leading underscores")

def units():
    ops = ["+", "-", "*", "/", "+=", "-=", "*=", "/=", "r+", "r-", "r*"]
    sc = st.sampled_from([2, -1.5, 0.5 + 1j, 0, 3.0])
    kd = st.sampled_from(["block", "block", "perm", "scalar", "matrix", "list"])
    return [
        Unit("ops", st.tuples(structure(), seeds(), st.sampled_from(ops), kd, sc), u_ops, 2500, 12000, lambda c: len(c[0][0]) > 1, "more than one block"),
        Unit("matrix_ops", st.tuples(structure().map(lambda x: (x[0], (2,) * len(x[1]), 2, x[3])), seeds(), st.sampled_from(ops), st.sampled_from(["matrix", "perm"]), sc), u_ops, 1000, 5000, lambda c: len(c[0][0]) > 1, "more than one block"),
        Unit("container", st.tuples(structure(), seeds(), st.integers(0, 3)), u_container, 400, 2500, lambda c: len(c[0][0]) > 1, "more than one block"),
        Unit("constructor", st.tuples(structure(), seeds(), st.integers(0, 10)), u_ctor, 500, 2500, lambda c: True, "every case"),
        Unit("block2", st.tuples(struct2(), seeds(), st.sampled_from(ops), st.sampled_from(["block", "block", "scalar", "matrix", "list"]), sc), u_block2, 1000, 6000, lambda c: len(c[0][0]) > 1 and len(c[0][1]) > 1, "several blocks in both indices"),
        Unit("constructor2", st.tuples(struct2(), seeds(), st.integers(0, 5)), u_ctor2, 250, 1000, lambda c: True, "every case"),
    ]
