"""Stand-ins for the compiled / third-party modules that the Python layer of TRIQS imports.

install() puts them in sys.modules and makes /repo/python importable as package `triqs`.
Everything else (all *.py of /repo/python/triqs) is the real code of the working tree.
"""
import sys, types, os, importlib.util, re

REPO = os.environ.get("VERIF_REPO", "/repo")


class Permissive(types.ModuleType):
    """unknown attributes give a callable placeholder, so that a refactored import list does not break loading"""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        def placeholder(*a, **k):
            raise NotImplementedError("stand-in for %s.%s" % (self.__name__, name))
        placeholder.__name__ = name
        return placeholder


def _mod(name, src=None, **attrs):
    m = Permissive(name)
    m.__dict__.update(attrs)
    if src is not None:
        for k, v in src.__dict__.items():
            if not k.startswith("__"):
                m.__dict__[k] = v
    m.__file__ = "<stand-in>"
    m.__path__ = []
    sys.modules[name] = m
    return m


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, "python"))
    from . import h5_stub, ops_stub, mesh_stub, lattice_stub
    h5 = _mod("h5", h5_stub)
    _mod("h5.formats", h5_stub)
    h5.formats = sys.modules["h5.formats"]
    _mod("h5._h5py", h5_stub)
    import triqs
    v = _mod("triqs.version", version="3.3.0", triqs_hash="none")
    triqs.version = v
    _mod("triqs.operators.operators", ops_stub)
    _mod("triqs.operators.util.extractors", extract_h_dict=None, extract_U_dict2=None, extract_U_dict4=None, dict_to_matrix=None)
    _mod("triqs.gf.meshes", mesh_stub)
    for n in ("triqs.lattice.lattice_tools", ):
        _mod(n, lattice_stub)
    _mod("triqs.atom_diag.atom_diag")
    _mod("triqs.random_generator.random_generator")
    _mod("triqs.stat.histograms", h5_stub.histograms())
    # triqs.gf.matsubara_freq is needed by the mesh stand-in: plain real code
    _load_mpi()
    from . import gf_fnt_stub
    _mod("triqs.gf.gf_fnt", gf_fnt_stub.gf_fnt)
    _mod("triqs.gf.wrapped_aux", gf_fnt_stub.wrapped_aux)
    _mod("triqs.gf.gf_factories", gf_fnt_stub.gf_factories)


def _load_mpi():
    """triqs.utility.mpi is generated from mpi.py.in at configure time"""
    src = open(os.path.join(REPO, "python/triqs/utility/mpi.py.in")).read()
    src = re.sub(r"@[A-Za-z0-9_]+@", "0", src)
    m = types.ModuleType("triqs.utility.mpi")
    m.__file__ = "<generated>"
    sys.modules["triqs.utility.mpi"] = m
    try:
        exec(compile(src, "mpi.py.in", "exec"), m.__dict__)
    except BaseException:
        from . import mpi_stub
        m.__dict__.update({k: v for k, v in mpi_stub.__dict__.items() if not k.startswith("__")})
