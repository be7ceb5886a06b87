"""stand-ins for the compiled meshes (independent, plain python); semantics follow the C++ documentation"""
import math, itertools
import numpy as np


def _MP(index, data_index, h, value=None, weight=None):
    from triqs.gf.mesh_point import MeshPoint
    if weight is None:
        return MeshPoint(index, data_index, h, value)
    return MeshPoint(index, data_index, h, value, weight)


class _Base:
    def _params(self): raise NotImplementedError
    def _idx(self, di): return di
    def _didx(self, i): return i
    def _val(self, i): return i
    def _weight(self): return None
    @property
    def mesh_hash(self): return hash((type(self).__name__,) + self._params()) & 0x7fffffffffffff
    def __eq__(self, o): return type(self) == type(o) and self._params() == o._params()
    def __ne__(self, o): return not self == o
    __hash__ = None
    def copy(self):
        r = type(self).__new__(type(self)); r.__dict__.update(self.__dict__); return r
    def copy_from(self, o): self.__dict__.update(o.__dict__)
    def __len__(self): return self._n
    def to_data_index(self, i):
        d = self._didx(i)
        assert 0 <= d < len(self), "index out of range"
        return d
    def to_index(self, d): return self._idx(d)
    def to_value(self, i): return self._val(i)
    def __getitem__(self, d):
        if not 0 <= d < len(self): raise IndexError(d)
        return _MP(self._idx(d), d, self.mesh_hash, self._val(self._idx(d)), self._weight())
    def __call__(self, i): return self[self.to_data_index(i)]
    def __iter__(self):
        for d in range(len(self)): yield self[d]
    def values(self): return np.array([self._val(self._idx(d)) for d in range(len(self))])
    def __repr__(self): return "%s%r" % (type(self).__name__, self._params())
    def __reduce__(self): return (_rebuild, (type(self), dict(self.__dict__)))


def _rebuild(cls, d):
    r = cls.__new__(cls); r.__dict__.update(d); return r


class MeshImFreq(_Base):
    def __init__(self, beta, statistic=None, n_iw=None, S=None, n_max=None):
        self.beta, self.statistic = float(beta), statistic or S
        self.n_iw = int(n_iw if n_iw is not None else (n_max if n_max is not None else 1025))
        assert self.statistic in ("Fermion", "Boson")
        self._f = 1 if self.statistic == "Fermion" else 0
        self._n = 2 * self.n_iw if self._f else 2 * self.n_iw - 1
        self._tail = None
    def _params(self): return (self.beta, self.statistic, self.n_iw)
    def last_index(self): return self.n_iw - 1
    def first_index(self): return -self.n_iw if self._f else -self.n_iw + 1
    def positive_only(self): return False
    def set_tail_fit_parameters(self, tail_fraction, n_tail_max=30, expansion_order=None): self._tail = (tail_fraction, n_tail_max, expansion_order)
    def _idx(self, d): return d + self.first_index()
    def _didx(self, i): return (i.n if hasattr(i, "n") else i) - self.first_index()
    def _val(self, i):
        from triqs.gf.matsubara_freq import MatsubaraFreq
        return MatsubaraFreq(i, self.beta, self.statistic)
    def values(self): return np.array([1j * math.pi / self.beta * (2 * self._idx(d) + self._f) for d in range(len(self))])


class MeshImTime(_Base):
    def __init__(self, beta, statistic=None, n_tau=None, S=None, n_max=None):
        self.beta, self.statistic = float(beta), statistic or S
        self._n = int(n_tau if n_tau is not None else n_max)
        assert self.statistic in ("Fermion", "Boson")
    def _params(self): return (self.beta, self.statistic, self._n)
    def _val(self, i): return self.beta * i / (self._n - 1)
    def _weight(self): return None


class _Lin(_Base):
    def __init__(self, a=None, b=None, n=None, window=None, **kw):
        if window is not None: a, b = window
        for k in ("w_min", "t_min"): a = kw.pop(k, a)
        for k in ("w_max", "t_max"): b = kw.pop(k, b)
        for k in ("n_w", "n_t", "n_max"): n = kw.pop(k, n)
        assert not kw, kw
        self.lo, self.hi, self._n = float(a), float(b), int(n)
    def _params(self): return (self.lo, self.hi, self._n)
    def _val(self, i):
        if self._n == 1: return self.lo
        return self.lo + (self.hi - self.lo) * i / (self._n - 1)
    @property
    def delta(self): return (self.hi - self.lo) / (self._n - 1)


class MeshReFreq(_Lin):
    w_min = property(lambda s: s.lo); w_max = property(lambda s: s.hi)


class MeshReTime(_Lin):
    t_min = property(lambda s: s.lo); t_max = property(lambda s: s.hi)


class MeshLegendre(_Base):
    def __init__(self, beta, statistic=None, max_n=None, S=None, n_max=None):
        self.beta, self.statistic = float(beta), statistic or S
        self._n = int(max_n if max_n is not None else n_max)
    def _params(self): return (self.beta, self.statistic, self._n)


class _Dlr(_Base):
    def __init__(self, beta, statistic, w_max, eps):
        self.beta, self.statistic, self.w_max, self.eps = float(beta), statistic, float(w_max), float(eps)
        self._n = 6
    def _params(self): return (self.beta, self.statistic, self.w_max, self.eps)


class MeshDLR(_Dlr):
    def _val(self, i): return (i - 2.5) * self.w_max / 3


class MeshDLRImTime(_Dlr):
    def _val(self, i): return self.beta * (i + 0.5) / self._n


class MeshDLRImFreq(_Dlr):
    def _val(self, i):
        from triqs.gf.matsubara_freq import MatsubaraFreq
        return MatsubaraFreq((-20, -3, -1, 0, 2, 19)[i], self.beta, self.statistic)


class _Lat3(_Base):
    def _init(self, dims):
        if isinstance(dims, (int, np.integer)): dims = (dims, dims, dims)
        self._dims = tuple(int(x) for x in dims)
        self._n = int(np.prod(self._dims))
    @property
    def dims(self): return self._dims
    def _idx(self, d):
        a, b, c = self._dims
        return (d // (b * c), (d // c) % b, d % c)
    def _didx(self, i):
        a, b, c = self._dims
        i = i.index if hasattr(i, "index") and not isinstance(i, (tuple, list)) else i
        return (i[0] % a * b + i[1] % b) * c + i[2] % c


class MeshBrZone(_Lat3):
    def __init__(self, bz, n_k=None, dims=None):
        self.bz = bz
        d = dims if dims is not None else n_k
        if isinstance(d, (int, np.integer)):
            nd = bz.ndim
            d = tuple(d if i < nd else 1 for i in range(3))
        self._init(d)
    def _params(self): return self._dims + tuple(np.round(self.bz.units, 12).ravel())
    @property
    def units(self): return self.bz.units / np.array(self._dims)[:, None]
    def _val(self, i): return np.array(i, dtype=float) @ self.units


class MeshCycLat(_Lat3):
    def __init__(self, *a, **kw):
        if len(a) == 3 and not kw:
            from . import lattice_stub
            self.lattice = lattice_stub.BravaisLattice(np.eye(3)); self._init(a); return
        self.lattice = kw.get("lattice", kw.get("bl", a[0] if a else None))
        d = kw.get("dims", kw.get("L", a[1] if len(a) > 1 else None))
        if isinstance(d, (int, np.integer)):
            nd = self.lattice.ndim
            d = tuple(d if i < nd else 1 for i in range(3))
        self._init(d)
    def _params(self): return self._dims + tuple(np.round(self.lattice.units, 12).ravel())
    @property
    def units(self): return self.lattice.units
    def _val(self, i):
        from triqs.lattice.point import LatticePoint
        return LatticePoint(index=list(i), lattice=self.lattice)


def make_adjoint_mesh(m, n=None):
    if isinstance(m, MeshImFreq): return MeshImTime(m.beta, m.statistic, n or 6 * m.n_iw + 1)
    if isinstance(m, MeshImTime): return MeshImFreq(m.beta, m.statistic, n or (len(m) - 1) // 6)
    if isinstance(m, MeshReFreq): return MeshReTime(-math.pi / m.delta, math.pi / m.delta, len(m))
    if isinstance(m, MeshReTime): return MeshReFreq(-math.pi / m.delta, math.pi / m.delta, len(m))
    if isinstance(m, MeshBrZone): return MeshCycLat(m.bz.lattice, m.dims)
    if isinstance(m, MeshCycLat):
        from . import lattice_stub
        return MeshBrZone(lattice_stub.BrillouinZone(m.lattice), m.dims)
    raise TypeError(m)
