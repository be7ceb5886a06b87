"""Root finding and fitting helpers."""
from common import *
load()
from triqs.utility.dichotomy import dichotomy
from triqs.utility import bound_and_bisect as BB
from triqs.fit import fit as FT
import io, contextlib
RULE = "generated monotone functions, targets, starting points and steps; oracle: the defining equation and an independent bisection"

class F:
    """strictly increasing function (x -> sgn * (...)) that records its calls"""
    def __init__(self, kind, p, sgn=1):
        self.kind, self.p, self.sgn, self.calls = kind, p, sgn, []
    def val(self, x):
        a, b, c = self.p
        if self.kind == "lin": v = a * x + b
        elif self.kind == "tanh": v = np.tanh(a * (x - b)) + c
        elif self.kind == "fermi": v = 2 / (1 + np.exp(-np.clip(a * 4 * (x - b), -500, 500)))
        elif self.kind == "atan": v = a * np.arctan(x - b) + c * .1 * x * (c > 0)
        elif self.kind == "cubic": v = a * (x - b)**3 + .5 * (x - b)
        elif self.kind == "pw": v = (a if x < b else 3 * a) * (x - b) + c
        elif self.kind == "steps": v = np.floor(a * 3 * x) + b
        return float(self.sgn * v)
    def __call__(self, x):
        self.calls.append(float(x)); return self.val(x)
KINDS = ["lin", "tanh", "fermi", "atan", "cubic", "pw"]
pars = st.tuples(st.integers(16, 192).map(lambda i: i / 64), real(-3, 3), real(-2, 2))

def run(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return dichotomy(f, *a, **k)
def u_dich(case):
    kind, p, x0, xs, prec, dx, verb, names = case
    f = F(kind, p); y = F(kind, p).val(xs)
    x, v = run(f, x0, y, prec, dx, verbosity=verb, **(dict(x_name="x", y_name="y") if names else {}))
    require(len(f.calls) <= 1000 + 4, "more evaluations than the allowed number of loops", n=len(f.calls))
    require(x is not None, "dichotomy failed on a continuous increasing function", case=case, calls=len(f.calls))
    require(isinstance(x, float) or np.isscalar(x), "x is a number"); require(abs(v - y) <= prec and v == f.val(x), "returned y is not f(x) within the precision", x=x, y=v, fx=f.val(x), target=y)
    if kind == "lin": require(abs(x - xs) <= prec / p[0] * 1.001 + 1e-12, "root of a linear function", x=x, want=xs)
    require(f.calls[0] == x0, "the search starts at x_init")
def u_dich_hist(case):
    """the bracket search walks towards the solution by |delta_x| and the refinement never leaves the bracket"""
    kind, p, x0, xs, prec, dx, sg = case
    f = F(kind, p); y = F(kind, p).val(xs); x, v = run(f, x0, y, prec, dx * sg, verbosity=0)
    d = np.sign(y - f.val(x0)); k = 0
    if abs(f.val(x0) - y) <= prec: require(x == x0 and v == f.val(x0), "initial guess is a solution", x=x); return
    c = f.calls; i = 0
    while i + 1 < len(c) and abs(c[i + 1] - (x0 + d * dx * (i + 1))) < 1e-9 * (1 + abs(c[i + 1])): i += 1
    require(i >= 1, "first step", calls=c[:4], d=d, dx=dx)
    hit = [j for j in range(1, i + 1) if (f.val(c[j]) - y) * d >= -prec]
    require(hit, "bracket not found by steps of delta_x", calls=c[:6])
    lo, hi = min(x0, c[hit[0]]), max(x0, c[hit[0]])
    require(all(lo - 1e-9 <= z <= hi + 1e-9 for z in c[hit[0]:]), "refinement left the bracket", calls=c, lo=lo, hi=hi)
def u_dich_fail(case):
    kind, p, x0, off, loops, dx = case
    f = F("tanh", p); y = p[2] + 1.5 + off   # unreachable
    if kind: y = p[2] - 1.5 - off
    x, v = run(f, x0, y, 1e-6, dx, max_loops=loops)
    require(x is None and v is None, "a solution of an equation without solution was returned", x=x, y=v)
    require(len(f.calls) <= loops + 3, "max_loops not respected", n=len(f.calls), loops=loops)
def u_dich_steps(case):
    """discontinuous functions: either a true solution or (None, None)"""
    p, x0, y, prec, dx, loops = case
    f = F("steps", p)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, v = run(f, x0, y, prec, dx, max_loops=loops, verbosity=0)
    require(len(f.calls) <= loops + 4, "max_loops not respected", n=len(f.calls), loops=loops)
    if x is None: require(v is None, "(None, None)"); return
    require(abs(v - y) <= prec and f.val(x) == v, "returned point is not a solution", x=x, y=v, target=y)
def u_bb(case):
    kind, p, x0, xs, xtol, dx, sgn, verb = case
    f = F(kind, p, sgn); y = F(kind, p, sgn).val(xs)
    g = F(kind, p, sgn); G = lambda x: g(x) - y
    if G(x0 + dx) == G(x0): raise Skip()    # flat to machine precision
    if kind in ("tanh", "fermi") and (abs(p[0] * (x0 - p[1])) > 4 or abs(p[0] * (xs - p[1])) > 4): raise Skip()
    a, b = BB.determine_bounds(G, x0, dx, 1000)
    require(G(a) < 0 < G(b), "bounds do not bracket the root from below and above", a=a, b=b, Fa=G(a), Fb=G(b))
    require(abs(a - xs) <= abs(x0 - xs) + 2 * abs(dx) + 1e-9 and abs(b - xs) <= abs(x0 - xs) + 2 * abs(dx) + 1e-9, "bounds are not tight", a=a, b=b)
    with contextlib.redirect_stdout(io.StringIO()) as out: x, fx = BB.bound_and_bisect(f, x0, y, dx, xtol, maxiter=1000, verbosity=verb)
    require(abs(x - xs) <= xtol * 1.01 + 1e-9, "root", x=x, want=xs, xtol=xtol); require(fx == f.val(x), "second value is f(x)")
    require(bool(out.getvalue()) == (verb > 0), "verbosity")
def u_bb_fail(case):
    kind, p, x0, dx, n = case
    f = F("tanh", p); y = p[2] + (2 if kind else -2)
    for h in (lambda: BB.determine_bounds(lambda x: f(x) - y, x0, dx, n), lambda: BB.bound_and_bisect(f, x0, y, dx, maxiter=n, verbosity=0)):
        f.calls.clear(); raises(ValueError, h, "no root, but no error"); require(len(f.calls) <= 3 * n + 12, "maxiter not respected", n=len(f.calls))

def u_fit(case):
    quad, co, n, s, guess, noise = case
    r = rng(s); x = np.sort(r.uniform(-3, 3, n)) + np.arange(n) * .2; k = 3 if quad else 2; co = co[:k]
    fun = FT.quadratic if quad else FT.linear
    y = np.polyval(co, x); nz = r.uniform(-1, 1, n) * noise; y = y + nz
    p0 = None if guess == 0 else tuple(np.array(co) + .5) if guess == 1 else list(np.array(co) + .3) if guess == 2 else np.array(co) - .4
    yc = y.copy(); f = FT.Fit(x, y, fun, p0)
    require(np.array_equal(y, yc), "data unchanged"); require(len(f.param) == k, "number of parameters")
    ref = np.polyfit(x, y, k - 1); res = lambda q: np.sum((np.polyval(q, x) - y)**2)
    require(res(f.param) <= res(ref) * (1 + 1e-6) + 1e-10, "not a least-square minimum", got=res(f.param), best=res(ref), case=case)
    if noise == 0: close(np.array(f.param), np.array(co), 1e-5, "exact data", case=case)
    z = r.uniform(-2, 2, 4); close(f(z), np.polyval(f.param, z), 1e-12, "call"); require(str(f) == repr(f) and "x" in str(f) and "+ -" not in str(f), "printing", text=str(f))
    raises(AssertionError, lambda: FT.Fit(x, y[:-1], fun), "length mismatch accepted"); raises(AssertionError, lambda: FT.Fit(x[:k], y[:k], fun), "underdetermined fit accepted")
    raises(AssertionError, lambda: FT.Fit(x, y, (lambda X, a: a * X, "%f", (1, 1))), "wrong number of parameters accepted")
def u_fit_user(case):
    a, b, n, s = case
    x = np.linspace(0, 2, n); y = a * np.exp(-b * x)
    f = FT.Fit(x, y, (lambda X, p, q: p * np.exp(-q * X), r"%f exp(-%f x)", (a * 1.2, b * .8)))
    close(f(x), y, 1e-5, "user function", case=case)

def units():
    xs = real(-3, 3); dx = st.integers(8, 128).map(lambda i: i / 64); k5 = st.sampled_from(KINDS)
    near = lambda c: abs(c[2] - c[3]) > c[5]
    kc = st.sampled_from(["lin", "fermi", "atan", "pw"])
    return [
        Unit("dichotomy", st.tuples(st.sampled_from(["lin", "atan", "pw", "lin"]), pars, xs, xs, st.sampled_from([1e-2, 1e-4, 1e-6]), dx, st.integers(0, 3), st.booleans()), u_dich, 3000, 20000, near, "solution further than one step"),
        Unit("dichotomy_history", st.tuples(k5, pars, xs, xs, st.sampled_from([1e-2, 1e-4]), dx, st.sampled_from([1, -1])), u_dich_hist, 2000, 15000, near, "solution further than one step"),
        Unit("dichotomy_no_solution", st.tuples(st.booleans(), pars, xs, st.integers(0, 8).map(float), st.integers(0, 60), dx), u_dich_fail, 500, 3000, lambda c: c[4] > 2, "several loops"),
        Unit("dichotomy_steps", st.tuples(pars, xs, st.one_of(real(-4, 4), st.integers(-5, 5).map(float)), st.sampled_from([1e-3, .4, .6, 1.1]), dx, st.sampled_from([20, 200])), u_dich_steps, 2000, 15000, lambda c: True, "every case"),
        Unit("bisect", st.tuples(k5, pars, xs, xs, st.sampled_from([1e-2, 1e-4, 1e-8]), st.tuples(dx, st.sampled_from([1, -1])).map(lambda t: t[0] * t[1]), st.sampled_from([1, -1]), st.integers(0, 1)), u_bb, 3000, 20000, lambda c: abs(c[2] - c[3]) > abs(c[5]), "solution further than one step"),
        Unit("bisect_no_solution", st.tuples(st.booleans(), pars, xs, dx, st.integers(1, 40)), u_bb_fail, 200, 800, lambda c: c[4] > 2, "several loops"),
        Unit("fit", st.tuples(st.booleans(), st.tuples(real(), real(), real()), st.integers(5, 20), seeds(), st.integers(0, 3), st.sampled_from([0, 0, .3])), u_fit, 1200, 6000, lambda c: any(c[1]), "non-zero coefficients"),
        Unit("fit_user", st.tuples(st.integers(16, 128).map(lambda i: i / 32), st.integers(16, 64).map(lambda i: i / 32), st.integers(5, 30), seeds()), u_fit_user, 60, 300, lambda c: True, "every case"),
    ]
