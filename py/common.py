import sys, os
import engine
from engine import Unit, require, Violation, Skip, Inconclusive
import hypothesis.strategies as st
import numpy as np
import stubs

def load():
    """import the python layer of the working tree with stand-ins; noise on stdout/stderr silenced"""
    import io, contextlib, warnings
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        stubs.install()

# ---- strategies of plain data
def real(lo=-4.0, hi=4.0, den=64):
    """dyadic-ish floats, shrink to 0/1, plus generic ones"""
    a = st.integers(int(lo * den), int(hi * den)).map(lambda i: i / den)
    b = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)
    return st.one_of(a, b).map(lambda x: 0.0 if abs(x) < 1e-9 else float(x))

def cplx(lo=-4.0, hi=4.0):
    return st.tuples(real(lo, hi), real(lo, hi)).map(lambda t: complex(*t))

def seeds():
    return st.integers(0, 2**31 - 1)

def rng(seed):
    return np.random.RandomState(seed)

def rand_c(r, *shape):
    return r.uniform(-1, 1, shape) + 1j * r.uniform(-1, 1, shape)

def rand_unitary(r, n, cplx=True):
    a = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if cplx else 0)
    q, t = np.linalg.qr(a)
    return q * (np.diag(t) / np.abs(np.diag(t)))

def close(a, b, tol=1e-9, msg="", **kw):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, msg + ": shape mismatch", got=a.shape, want=b.shape, **kw)
    if a.size == 0: return
    scale = max(1.0, float(np.nanmax(np.abs(b))) if b.size else 1.0)
    d = np.abs(a - b)
    ok = bool(np.all(d <= tol * scale)) and not bool(np.any(np.isnan(d)))
    if not ok:
        i = np.unravel_index(int(np.nanargmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
        require(False, msg + ": values differ", at=tuple(int(x) for x in i), got=a[i] if d.ndim else a[()], want=b[i] if d.ndim else b[()], **kw)

def raises(exc, f, msg):
    try:
        f()
    except exc:
        return
    except Exception as e:
        require(False, msg + ": raised %s instead of %s" % (type(e).__name__, exc))
    require(False, msg + ": no exception")
