"""numpy models of the compiled lattice classes"""
import numpy as np


def _v3(x):
    r = np.zeros(3); x = np.asarray(x, dtype=float).ravel(); r[:len(x)] = x; return r


class BravaisLattice:
    def __init__(self, units=None, orbital_positions=None, atom_orb_name=None, **kw):
        if orbital_positions is None: orbital_positions = kw.get("orbital_positions", [(0, 0, 0)])
        if atom_orb_name is None: atom_orb_name = kw.get("orbital_names")
        if units is None: units = np.eye(2)
        u = np.array(units, dtype=float); assert u.ndim == 2 and u.shape[0] == u.shape[1], "units"
        self.ndim = u.shape[0]
        U = np.zeros((3, 3)); U[:self.ndim, :self.ndim] = u
        for i in range(self.ndim, 3): U[i, i] = 1.0
        self.units = U
        self.orbital_positions = [_v3(p) for p in orbital_positions]
        self.orbital_names = list(atom_orb_name) if atom_orb_name is not None else ["" for _ in self.orbital_positions]
        self.n_orbitals = len(self.orbital_positions)
    def lattice_to_real_coordinates(self, x): return _v3(x) @ self.units
    def __eq__(self, o): return np.allclose(self.units, o.units) and self.n_orbitals == o.n_orbitals and np.allclose(self.orbital_positions, o.orbital_positions) and self.orbital_names == o.orbital_names
    __hash__ = None


class BrillouinZone:
    def __init__(self, bl=None):
        self.lattice = bl if bl is not None else BravaisLattice()
        self.ndim = self.lattice.ndim
        self.units = 2 * np.pi * np.linalg.inv(self.lattice.units).T
    def __eq__(self, o): return self.lattice == o.lattice
    __hash__ = None


class TightBinding:
    def __init__(self, bl, hoppings=None, displ_vec=None, overlap_mat_vec=None):
        self.bl = bl
        if hoppings is not None:
            displ_vec = [tuple(int(x) for x in k) for k in hoppings]
            overlap_mat_vec = [np.array(v, dtype=complex) for v in hoppings.values()]
        for d, m in zip(displ_vec, overlap_mat_vec):
            assert len(d) == bl.ndim, "displacement dimension"
            assert m.shape == (bl.n_orbitals, bl.n_orbitals), "hopping matrix shape"
        self.displ_vec = [np.array(d) for d in displ_vec]
        self.overlap_mat_vec = list(overlap_mat_vec)
    def lattice_to_real_coordinates(self, x): return self.bl.lattice_to_real_coordinates(x)
    def fourier(self, K):
        K = np.asarray(K, dtype=float)
        if K.ndim == 2: return np.array([self.fourier(k) for k in K])
        r = np.zeros((self.bl.n_orbitals,) * 2, dtype=complex)
        for d, m in zip(self.displ_vec, self.overlap_mat_vec):
            r += m * np.exp(2j * np.pi * np.dot(K[:len(d)], d))
        return r
    def dispersion(self, K):
        K = np.asarray(K, dtype=float)
        if K.ndim == 2: return np.array([self.dispersion(k) for k in K])
        return np.linalg.eigvalsh(self.fourier(K))
    def __eq__(self, o):
        return self.bl == o.bl and len(self.displ_vec) == len(o.displ_vec) and all((a == b).all() for a, b in zip(self.displ_vec, o.displ_vec)) and all(np.allclose(a, b) for a, b in zip(self.overlap_mat_vec, o.overlap_mat_vec))
    __hash__ = None


def dos(tb, nkpts, neps):
    nd = tb.bl.ndim
    ks = np.stack(np.meshgrid(*[(np.arange(nkpts) + 0.5) / nkpts - 0.5] * nd, indexing="ij"), -1).reshape(-1, nd)
    e = np.array([tb.dispersion(k) for k in ks])
    lo, hi = e.min(), e.max()
    edges = np.linspace(lo, hi, neps + 1); eps = 0.5 * (edges[1:] + edges[:-1])
    return eps, np.array([np.histogram(e[:, b], bins=edges, density=True)[0] for b in range(e.shape[1])]).T


def dos_patch(tb, triangles, neps, ndiv):
    return np.linspace(-1, 1, neps), np.ones(neps)
