"""The message-passing layer of Python: with and without MPI."""
from common import *
load()
import time, types, threading, queue, os, io, contextlib, tempfile, subprocess, sys, pickle
RULE = "generated rank numbers, array shapes, values and communication histories on simulated ranks (threads) running the real module; oracle: the definition of the collective"
DIR = os.path.join(engine.REPO, "python/triqs/utility")

class Peer(Exception): pass
class _Req:
    def __init__(self, f): self.f = f
    def Test(self): return self.f()
class Intracomm:
    def __init__(self, w, r): self.w, self.r, self.open = w, r, False
    def Get_rank(self): return self.r
    def Get_size(self): return self.w.n
    def _all(self, x):
        self.w.slots[self.r] = pickle.dumps(x); self.w.bar.wait(100); v = [pickle.loads(z) for z in self.w.slots]; self.w.bar.wait(100); return v
    def bcast(self, x, root=0): return self._all(x if self.r == root else None)[root]
    def send(self, v, dest): self.w.q[self.r][dest].put(pickle.dumps(v))
    def recv(self, source=0):
        v = self.w.q[source][self.r].get(timeout=100)
        if v is None: raise Peer("another rank failed")
        return pickle.loads(v)
    def barrier(self): self.w.bar.wait(100)
    def Ibarrier(self):
        with self.w.lock: k = self.w.count[self.r] = self.w.count[self.r] + 1
        lag = [3 + self.r]  # completion may be noticed late
        def test():
            lag[0] -= 1; done = lag[0] <= 0 and all(c >= k for c in self.w.count)
            if done: self.open = False
            return done
        self.open = True
        return _Req(test)
    def allreduce(self, x, op=None):
        op = op or (lambda a, b: a + b)
        v = self._all(x); r = v[0]
        for y in v[1:]: r = op(r, y)
        return r
class World:
    def __init__(self, n):
        self.n = n; self.q = [[queue.Queue() for _ in range(n)] for _ in range(n)]; self.bar = threading.Barrier(n); self.slots = [None] * n; self.lock = threading.Lock(); self.count = [0] * n
SRC = {}
def src(name):
    if name not in SRC: SRC[name] = compile(open(os.path.join(DIR, name)).read(), name, "exec")
    return SRC[name]
def mods(n):
    """one instance of the real module per rank"""
    W = World(n); out = []
    for r in range(n):
        m = types.ModuleType("mpi4py"); M = types.SimpleNamespace(COMM_WORLD=Intracomm(W, r), Intracomm=Intracomm, SUM=lambda a, b: a + b, MAX=lambda a, b: max(a, b))
        m.MPI = M; old = sys.modules.get("mpi4py"); sys.modules["mpi4py"] = m
        try:
            mod = types.ModuleType("mpi_rank"); mod.__package__ = "triqs.utility"
            with contextlib.redirect_stderr(io.StringIO()): exec(src("mpi_mpi4py.py"), mod.__dict__)
        finally:
            if old is None: del sys.modules["mpi4py"]
            else: sys.modules["mpi4py"] = old
        mod._M = M; out.append(mod)
    return out
def spmd(ms, f):
    res, err = [None] * len(ms), []
    def go(i):
        try: res[i] = f(ms[i], i)
        except BaseException as e:
            err.append(e); W = ms[i].MPI.COMM_WORLD.w; W.bar.abort()
            for j in range(W.n): W.q[i][j].put(None)
    th = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(ms))]
    for t in th: t.start()
    for t in th: t.join(120)
    require(not any(t.is_alive() for t in th), "deadlock")
    if err:
        e = [x for x in err if not isinstance(x, (threading.BrokenBarrierError, queue.Empty, Peer))]; raise (e or err)[0]
    return res
NOMPI = []
def nompi():
    m = types.ModuleType("nompi")
    with contextlib.redirect_stderr(io.StringIO()): exec(src("mpi_nompi.py"), m.__dict__)
    return m

def u_slice(case):
    n, size, extra, lo = case
    ms = mods(size); A = rng(n).uniform(-1, 1, (n,) + extra); P = [m.slice_array(A) for m in ms]
    require(all(np.shares_memory(p, A) or p.size == 0 for p in P), "slices are views"); close(np.concatenate(P), A, 0, "slices in rank order make the array again", case=case)
    L = [len(p) for p in P]; require(max(L) - min(L) <= 1, "balanced", L=L); require(L == sorted(L, reverse=True) or max(L) - min(L) <= 1, "balanced")
    I = [(m.slice_inf(lo, lo + n - 1), m.slice_sup(lo, lo + n - 1)) for m in ms]
    require(sum((list(range(a, b + 1)) for a, b in I), []) == list(range(lo, lo + n)), "slice_inf / slice_sup partition the range", I=I, case=case)
    require(nompi().slice_array(A) is A, "without MPI the slice is the array")

def val(kind, s, r):
    g = rng((s * 31 + r) % 2**31)
    return {"int": lambda: int(g.randint(-9, 9)), "float": lambda: float(g.uniform(-1, 1)), "array": lambda: g.uniform(-1, 1, (2, 3)), "list": lambda: [int(g.randint(9)), "a%d" % r], "str": lambda: "s%d" % r, "none": lambda: None}[kind]()
same = lambda a, b: type(a) == type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)
def u_hist(case):
    size, ops, s = case
    ms = mods(size)
    for i, m in enumerate(ms): require(m.rank == i and m.size == size and m.is_master_node() == (i == 0), "rank, size and master")
    arrived = {}
    def prog(m, r):
        out = []
        for k, (op, kind, a, b) in enumerate(ops):
            v = val(kind, s + k, r); root = a % size
            if op == "bcast": out.append(m.bcast(v, root=root))
            elif op == "bcast0": out.append(m.bcast(v))
            elif op == "barrier":
                if r == b % size: time.sleep(.002)   # one process is late
                arrived[k, r] = 1; poll = [0, 1, .01, None, "default"][a % 5]
                out.append(m.barrier() if poll == "default" else m.barrier(poll))
                require(all(arrived.get((k, q)) for q in range(size)) and not m.MPI.COMM_WORLD.open, "a process leaves the barrier before the others arrive", rank=r, poll=poll)
            elif op == "reduce": out.append(m.all_reduce(v))
            elif op == "reduce_old": out.append(m.all_reduce(m.world, v, None))
            elif op == "max": out.append(m.all_reduce(v, op=m._M.MAX))
            elif op == "sendrecv":
                d = b % size
                if d == root: out.append(None); continue
                if r == root: m.send(v, d)
                out.append(m.recv(root) if r == d else None)
        return out
    ops = [(o, k if o in ("bcast", "bcast0", "sendrecv", "barrier") else ("int" if o == "max" or k in ("str", "none") else k), a, b) for o, k, a, b in ops]
    out_ = io.StringIO()
    with contextlib.redirect_stdout(out_): R = spmd(ms, prog)
    for k, (op, kind, a, b) in enumerate(ops):
        V = [val(kind, s + k, r) for r in range(size)]; root = a % size
        for r in range(size):
            g = R[r][k]
            if op.startswith("bcast"): w = V[root if op == "bcast" else 0]
            elif op in ("reduce", "reduce_old"):
                w = V[0]
                for x in V[1:]: w = w + x
            elif op == "max": w = max(V)
            elif op == "sendrecv" and r == b % size and root != r: w = V[root]
            else: w = None
            require(same(g, w), "wrong result of %s" % op, rank=r, got=g, want=w, case=case)
    if size == 1:   # the serial module gives the same history
        m = nompi()
        with contextlib.redirect_stdout(io.StringIO()):
            for k, (op, kind, a, b) in enumerate(ops):
                v = val(kind, s + k, 0)
                if op.startswith("bcast"): g = m.bcast(v, 0)
                elif op == "reduce": g = m.all_reduce(v) if v is not None else None
                elif op == "reduce_old": g = m.all_reduce(None, v, None)
                elif op == "max": g = m.all_reduce(v, op=max)
                else: continue
                require(same(g, R[0][k]), "serial and parallel modules differ", op=op, got=g, want=R[0][k])

def u_nompi(case):
    m = nompi(); require(m.rank == 0 and m.size == 1 and m.is_master_node(), "rank, size, master"); pend = []
    for op, kind, s in case:
        v = val(kind if kind != "none" else "int", s, 0)
        if op == "send": m.send(v, 0); pend = [v]
        elif op == "recv":
            if pend: g = m.recv(0); require(same(g, pend.pop()), "receive the value that was sent", got=g, want=v)
            else: raises(Exception, m.recv, "receive without send")
        elif op == "barrier": m.barrier()
        else: require(same(m.bcast(v), v) and same(m.all_reduce(v), v), "collectives of one rank")

def u_report(case):
    size, msgs, err, lvl, alln = case
    ms = mods(size); d = tempfile.mkdtemp(prefix="verif_rep_"); o, e = io.StringIO(), io.StringIO()
    def fopen(f, mode="r"): return open(os.path.join(d, os.path.basename(f)), mode)
    try:
        for m in ms: m.open = fopen; m.All_Nodes_report = alln
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            for m in ms:
                kw = {} if lvl is None else {"Verbosity_Level": lvl}
                m.report(*msgs, **(dict(stderr=True, **kw) if err else kw))
        want = "".join(str(x) + "\n" for x in msgs) if (lvl or 0) <= 1 else ""
        require((e if err else o).getvalue() == want and (o if err else e).getvalue() == "", "report is printed once, by the master", got=o.getvalue() + "|" + e.getvalue(), want=want)
        F = sorted(os.listdir(d))
        if alln and want: require(F == sorted("report_node%d" % r for r in range(1, size)), "one report file per node", F=F); require(all(open(os.path.join(d, f)).read() == want for f in F), "content of the report files")
        else: require(F == [], "unexpected report files", F=F)
        m = nompi()
        with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()) as e: m.report(*msgs, stderr=err)
        require((e if err else o).getvalue() == "".join(str(x) + "\n" for x in msgs), "report without MPI")
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)

def u_hosts(case):
    import socket
    size, k = case; ms = mods(size); o = io.StringIO()
    with contextlib.redirect_stdout(o): spmd(ms, lambda m, r: [m.master_gets_host_names() for _ in range(k)])
    require(ms[0].HostNames == {r: socket.gethostname() for r in range(size)}, "host names", got=ms[0].HostNames); require(o.getvalue().count("Node ") == size * k, "printed by the master only")

def u_env(case):
    """choice between the serial and the parallel module"""
    env = {k: v for k, v in zip(["OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "TRIQS_FORCE_MPI_INIT", "UNRELATED_RANK"], case) if v is not None}
    s = open(os.path.join(DIR, "mpi.py.in")).read(); m = types.ModuleType("triqs.utility.mpi_check"); m.__package__ = "triqs.utility"
    old = {k: os.environ.pop(k, None) for k in ["OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "TRIQS_FORCE_MPI_INIT", "UNRELATED_RANK"]}
    got = {}
    import builtins
    ri = builtins.__import__
    def imp(name, g=None, l=None, fl=(), level=0):
        if level == 1 and name.startswith("mpi_"): got["which"] = name; return types.ModuleType(name)
        return ri(name, g, l, fl, level)
    try:
        os.environ.update(env); builtins.__import__ = imp
        with contextlib.redirect_stdout(io.StringIO()): exec(compile(s, "mpi.py.in", "exec"), m.__dict__)
    finally:
        builtins.__import__ = ri
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None: os.environ[k] = v
    par = any(env.get(k) for k in ["OMPI_COMM_WORLD_RANK", "PMI_RANK", "CRAY_MPICH_VERSION", "TRIQS_FORCE_MPI_INIT"])
    require(got.get("which") == ("mpi_mpi4py" if par else "mpi_nompi"), "wrong module chosen", env=env, got=got)

def u_dist(case):
    """distribution of a stack of points over the nodes, on one node"""
    pts, nones, s = case
    import triqs.utility.dist_on_nodes as DN
    pts = [float(x) for x in pts]; calls = []
    class D(DN.DistributionOnNodesOneStack):
        def the_function(self, x): calls.append(x); return (x, x * x + 1)
    r = D(list(pts)).run()
    require([x for n, x in r] == [(x, x * x + 1) for x in pts] and all(n == 0 for n, x in r), "results of all the points, in order", got=r); require(calls == pts, "each point is computed once")
    class G(DN.DistributionOnNodes):   # a list that grows while it is treated
        def __init__(self): self.todo = list(pts); self.done = []
        def finished(self): return not self.todo
        def __next__(self):
            x = self.todo.pop(0); return None if (len(self.done) + len(self.todo)) % 3 == 0 and nones else x
        def the_function(self, x): return x + 1
        def treate(self, x, node):
            self.done.append(x)
            if x > 3 and len(self.done) < 20: self.todo.append(x - 3)
    g = G(); g.run(); todo = list(pts); done = []
    while todo:
        x = todo.pop(0)
        if nones and (len(done) + len(todo)) % 3 == 0: continue
        done.append(x + 1)
        if x + 1 > 3 and len(done) < 20: todo.append(x + 1 - 3)
    require(g.done == done, "dynamical list of points", got=g.done, want=done)
def u_dist_many(case):
    """the same on several (simulated) ranks; the master forks a child for its own share of the work"""
    size, pts = case
    ms = mods(size); import triqs.utility.dist_on_nodes as DN
    s = compile(open(os.path.join(DIR, "dist_on_nodes.py")).read(), "dist_on_nodes.py", "exec"); R = []
    for m in ms:
        ns = types.ModuleType("dn"); import builtins
        ri = builtins.__import__; tm = types.ModuleType("triqs.utility.mpi"); tm.__dict__.update(m.__dict__)
        exec(s, ns.__dict__); ns.mpi = tm; R.append(ns)
    def prog(m, r):
        ns = R[r]; ns.DistributionOnNodes.SleepTime = .01
        class D(ns.DistributionOnNodesOneStack):
            def the_function(self, x): return (x, x * x)
        return D(list(pts)).run()
    res = spmd(ms, prog)[0]
    require(sorted(x for n, x in res) == sorted((x, x * x) for x in pts), "results of all the points", got=res)
def known_dist(case, e): return "dist_on_nodes_multirank" if isinstance(e, AttributeError) and "irecv" in str(e) else None

def units():
    k = st.sampled_from(["int", "float", "array", "list", "str", "none"])
    op = st.tuples(st.sampled_from(["bcast", "bcast0", "barrier", "reduce", "reduce_old", "max", "sendrecv"]), k, st.integers(0, 5), st.integers(0, 5))
    ev = st.sampled_from([None, None, None, "", "0", "3", "8.1"])
    return [
        Unit("slices", st.tuples(st.one_of(st.integers(0, 40), st.integers(41, 3000)), st.one_of(st.integers(1, 9), st.integers(10, 70)), st.sampled_from([(), (2,), (2, 3)]), st.integers(-5, 5)), u_slice, 800, 5000, lambda c: c[1] > 1 and c[0] % c[1] != 0, "length not a multiple of the number of ranks"),
        Unit("history", st.tuples(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 12)), st.lists(op, min_size=1, max_size=10).map(tuple), st.integers(0, 10**6)), u_hist, 400, 3000, lambda c: c[0] > 1 and len(c[1]) > 2, "several ranks and operations"),
        Unit("serial", st.lists(st.tuples(st.sampled_from(["send", "recv", "recv", "barrier", "coll"]), k, st.integers(0, 99)), min_size=1, max_size=10).map(tuple), u_nompi, 300, 2000, lambda c: len(c) > 2, "several operations"),
        Unit("report", st.tuples(st.one_of(st.integers(1, 4), st.integers(5, 12)), st.lists(st.one_of(st.integers(), st.text("abc\n", max_size=4)), max_size=3).map(tuple), st.booleans(), st.sampled_from([None, 0, 1, 2, 5]), st.booleans()), u_report, 300, 1500, lambda c: c[0] > 1 and len(c[1]) > 0, "several ranks"),
        Unit("host_names", st.tuples(st.integers(1, 12), st.integers(1, 2)), u_hosts, 20, 60, lambda c: c[0] > 1, "several ranks"),
        Unit("environment", st.tuples(ev, ev, ev, ev, ev), u_env, 300, 1000, lambda c: any(c), "at least one variable set"),
        Unit("one_node", st.tuples(st.lists(st.integers(-5, 9), max_size=8).map(tuple), st.booleans(), st.just(0)), u_dist, 300, 1500, lambda c: len(c[0]) > 1, "several points"),
        Unit("several_nodes", st.tuples(st.integers(2, 4), st.lists(st.integers(1, 9), min_size=1, max_size=6).map(tuple)), u_dist_many, 12, 30, lambda c: True, "every case", known=known_dist),
    ]
