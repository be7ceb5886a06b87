"""stand-ins for the compiled helper functions working on Gf objects (plain numpy, independent)"""
import types
import numpy as np

gf_fnt = types.ModuleType("gf_fnt_model")
wrapped_aux = types.ModuleType("wrapped_aux_model")
gf_factories = types.ModuleType("gf_factories_model")


def _reg(mod):
    def deco(f):
        setattr(mod, f.__name__, f); return f
    return deco


# ---- wrapped_aux
def _addc(x, y, s):
    d = x.data
    if isinstance(y, np.ndarray) and y.ndim == 2:
        assert y.shape == tuple(x.target_shape)
        d += s * y[None, ...]
    else:
        k = min(x.target_shape)
        for i in range(k): d[..., i, i] += s * complex(y)


@_reg(wrapped_aux)
def _iadd_g_matrix_scalar(x, y): _addc(x, y, 1)
@_reg(wrapped_aux)
def _isub_g_matrix_scalar(x, y): _addc(x, y, -1)
@_reg(wrapped_aux)
def _gf_invert_data_in_place(d): d[...] = np.linalg.inv(d)
@_reg(wrapped_aux)
def set_from_gf_data_mul_LR(a, l, b, r): a[...] = np.einsum("ij,wjk,kl->wil", l, b, r)
@_reg(wrapped_aux)
def _make_gf_from_real_gf(g): return g


def _moments(g, order=8):
    """exact least-squares tail on the outermost frequencies"""
    w = g.mesh.values()
    w = w if np.iscomplexobj(w) else w.astype(complex)
    n = len(w); k = max(order + 3, int(0.15 * n)); sel = np.r_[0:k, n - k:n] if 2 * k < n else np.arange(n)
    wm = np.abs(w[sel]).max()
    A = np.array([[(wm / z) ** p for p in range(order)] for z in w[sel]])
    rhs = g.data[sel].reshape(len(sel), -1)
    sol, *_ = np.linalg.lstsq(A, rhs, rcond=None)
    err = np.abs(A @ sol - rhs).max() if rhs.size else 0.
    t = np.array([sol[p] * wm ** p for p in range(order)]).reshape((order,) + tuple(g.target_shape))
    return t, float(err)


@_reg(gf_fnt)
def fit_tail(g, known_moments=None): return _moments(g)
@_reg(gf_fnt)
def fit_hermitian_tail(g, known_moments=None):
    t, e = _moments(g)
    if t.ndim == 3: t = 0.5 * (t + np.conj(np.transpose(t, (0, 2, 1))))
    else: t = t.real + 0j
    return t, e
@_reg(gf_fnt)
def is_gf_hermitian(g, tolerance=1e-12):
    d = g.data
    if type(g.mesh).__name__ == "MeshImFreq": o = np.conj(d[::-1])
    else: o = np.conj(d)
    if d.ndim == 3: o = np.transpose(o, (0, 2, 1))
    return bool(np.abs(d - o).max() < tolerance)
@_reg(gf_fnt)
def is_gf_real_in_tau(g, tolerance=1e-12): return bool(np.abs(g.data - np.conj(g.data[::-1])).max() < tolerance)
@_reg(gf_fnt)
def density(g, *a, **k):
    """sentinel functional: linear in the data, matrix valued"""
    return np.tensordot(np.arange(1, len(g.mesh) + 1), g.data, axes=(0, 0))
@_reg(gf_fnt)
def set_from_fourier(gout, gin, *a, **k):
    v = gin.data.sum(axis=0)
    gout.data[...] = v * 2 + 1
    gout.data[0] = v
@_reg(gf_fnt)
def set_from_legendre(gout, gl): gout.data[...] = gl.data.sum(axis=0) * 3 + 2
@_reg(gf_fnt)
def set_from_imfreq(gl, gw): gl.data[...] = gw.data.sum(axis=0) * 5 + 3
@_reg(gf_fnt)
def set_from_imtime(gl, gt): gl.data[...] = gt.data.sum(axis=0) * 7 + 4


@_reg(gf_factories)
def make_hermitian(g):
    r = g.copy(); d = g.data
    o = np.conj(d[::-1]) if type(g.mesh).__name__ == "MeshImFreq" else np.conj(d)
    if d.ndim == 3: o = np.transpose(o, (0, 2, 1))
    r.data[...] = 0.5 * (d + o)
    return r
@_reg(gf_factories)
def make_real_in_tau(g):
    r = g.copy(); r.data[...] = 0.5 * (g.data + np.conj(g.data[::-1])); return r
