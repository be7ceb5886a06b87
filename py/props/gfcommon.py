from common import *
load()
import itertools
import triqs.gf as TG
from triqs.gf import Gf, Idx, MeshProduct, BlockGf, Block2Gf
from triqs.gf.mesh_point import MeshPoint
from stubs import mesh_stub as MS

KINDS = ["imfreq_f", "imfreq_b", "imtime_f", "imtime_b", "refreq", "retime", "legendre", "brzone", "cyclat", "dlr"]
def mk_mesh(kind, size=2):
    from stubs import lattice_stub as LS
    if kind == "imfreq_f": return MS.MeshImFreq(3.0, "Fermion", size)
    if kind == "imfreq_b": return MS.MeshImFreq(3.0, "Boson", size)
    if kind == "imtime_f": return MS.MeshImTime(3.0, "Fermion", size + 1)
    if kind == "imtime_b": return MS.MeshImTime(3.0, "Boson", size + 1)
    if kind == "refreq": return MS.MeshReFreq(-1.0, 2.0, size + 1)
    if kind == "retime": return MS.MeshReTime(0.0, 2.0, size + 1)
    if kind == "legendre": return MS.MeshLegendre(3.0, "Fermion", size)
    if kind == "brzone": return MS.MeshBrZone(LS.BrillouinZone(LS.BravaisLattice(np.eye(2))), (size, 2, 1))
    if kind == "cyclat": return MS.MeshCycLat(LS.BravaisLattice(np.eye(2)), (2, size, 1))
    if kind == "dlr": return MS.MeshDLR(3.0, "Fermion", 4.0, 1e-6)
    raise KeyError(kind)

def mk_mesh_list(kinds, size):
    ms = [mk_mesh(k, size + i % 2) for i, k in enumerate(kinds)]
    return ms[0] if len(ms) == 1 else MeshProduct(*ms)

TSH = [(), (1, 1), (2, 2), (3, 3), (2, 3), (2,), (2, 2, 2)]
def mesh_shape(mesh):
    return tuple(len(m) for m in (mesh._mlist if isinstance(mesh, MeshProduct) else [mesh]))
def mk_data(r, mesh, tsh, real=False):
    sh = mesh_shape(mesh) + tuple(tsh)
    d = r.uniform(-1, 1, sh)
    return d if real else d + 1j * r.uniform(-1, 1, sh)
def mk_gf(r, mesh, tsh, real=False, name=""):
    return Gf(mesh=mesh, data=mk_data(r, mesh, tsh, real), name=name)
def eqm(a, b): return type(a) == type(b) and a == b
