"""Independent model of many-body operators: normal-ordered monomials with Grassmann sign bookkeeping.
A canonical monomial is a tuple of (dagger, index) sorted as: all creation operators by increasing index, then
annihilation operators by decreasing index. The arithmetic is derived from {c_i, c+_j} = delta_ij only."""
import numbers
import numpy as np

__all__ = ["Operator", "c", "c_dag", "n", "dagger"]
EPS = 1e-13


def _key(ix):
    return tuple((0, i, "") if isinstance(i, (int, np.integer)) else (1, 0, str(i)) for i in ix)


def _ord(op):
    dag, ix = op
    return (0, _key(ix)) if dag else (1, tuple(ix))


def _less(a, b):
    """canonical order: creation before annihilation, creation increasing, annihilation decreasing"""
    if a[0] != b[0]:
        return a[0]
    ka, kb = _key(a[1]), _key(b[1])
    return ka < kb if a[0] else ka > kb


_cache = {}


def normal(mono):
    """normal order a tuple of (dag, idx): returns dict canonical -> integer coefficient"""
    r = _cache.get(mono)
    if r is not None:
        return r
    out = {}
    for i in range(len(mono) - 1):
        a, b = mono[i], mono[i + 1]
        if a == b:
            _cache[mono] = out
            return out
        if _less(b, a):
            sw = mono[:i] + (b, a) + mono[i + 2:]
            for k, v in normal(sw).items():
                out[k] = out.get(k, 0) - v
            if a[1] == b[1] and (not a[0]) and b[0]:     # c c+ = 1 - c+ c
                for k, v in normal(mono[:i] + mono[i + 2:]).items():
                    out[k] = out.get(k, 0) + v
            out = {k: v for k, v in out.items() if v != 0}
            if len(_cache) < 300000:
                _cache[mono] = out
            return out
    out[mono] = 1
    if len(_cache) < 300000:
        _cache[mono] = out
    return out


class Operator:
    __array_ufunc__ = None
    __array_priority__ = 100000

    def __init__(self, x=None, **kw):
        self.terms = {}
        if x is None:
            return
        if isinstance(x, Operator):
            self.terms = dict(x.terms)
        elif x != 0:
            self.terms[()] = x

    @staticmethod
    def _mk(terms):
        r = Operator()
        r.terms = {k: v for k, v in terms.items() if abs(v) > EPS}
        return r

    @staticmethod
    def _isnum(x):
        return isinstance(x, (numbers.Number, np.number))

    def _coerce(self, x):
        if isinstance(x, Operator):
            return x
        if self._isnum(x):
            return Operator(x)
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t.get(k, 0) + v
        return Operator._mk(t)
    __radd__ = __add__

    def __neg__(self):
        return Operator._mk({k: -v for k, v in self.terms.items()})

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None: return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if self._isnum(o):
            return Operator._mk({k: v * o for k, v in self.terms.items()})
        if not isinstance(o, Operator): return NotImplemented
        t = {}
        for k1, v1 in self.terms.items():
            for k2, v2 in o.terms.items():
                for k, s in normal(k1 + k2).items():
                    t[k] = t.get(k, 0) + s * v1 * v2
        return Operator._mk(t)

    def __rmul__(self, o):
        if self._isnum(o):
            return self * o
        return NotImplemented

    def __truediv__(self, o):
        return Operator._mk({k: v / o for k, v in self.terms.items()})

    def is_zero(self):
        return not self.terms

    def is_almost_zero(self, precision=1e-10):
        return all(abs(v) < precision for v in self.terms.values())

    def __iter__(self):
        for k in sorted(self.terms, key=lambda m: (len(m), [(not d, _key(i)) for d, i in m])):
            yield [[d, list(i)] for d, i in k], self.terms[k]

    def __len__(self):
        return len(self.terms)

    @property
    def real(self):
        return Operator._mk({k: (v.real if hasattr(v, "real") else v) for k, v in self.terms.items()})

    @property
    def imag(self):
        return Operator._mk({k: (v.imag if hasattr(v, "imag") else 0) for k, v in self.terms.items()})

    def __eq__(self, o):
        o = self._coerce(o)
        return o is not None and (self - o).is_zero()
    __hash__ = None

    def __repr__(self):
        return " + ".join("%s*%s" % (v, "".join(("C+" if d else "C") + str(tuple(i)) for d, i in k)) for k, v in self.terms.items()) or "0"


def c(*ix): return Operator._mk({((False, tuple(ix)),): 1.0})
def c_dag(*ix): return Operator._mk({((True, tuple(ix)),): 1.0})
def n(*ix): return c_dag(*ix) * c(*ix)


def dagger(op):
    t = {}
    for k, v in op.terms.items():
        m = tuple((not d, i) for d, i in reversed(k))
        for kk, s in normal(m).items():
            t[kk] = t.get(kk, 0) + s * (v.conjugate() if hasattr(v, "conjugate") else v)
    return Operator._mk(t)
