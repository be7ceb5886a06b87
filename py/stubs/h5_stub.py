"""in-memory stand-in for the h5 python package: only registration of formats"""
import types
_registry = {}
_bckwd = []
def register_class(cls, *a, **k):
    _registry[getattr(cls, "_hdf5_format_", cls.__name__)] = cls
def register_backward_compatibility_method(tag, new, clos=None):
    _bckwd.append((tag, new, clos))
class HDFArchive(dict):
    def __init__(self, *a, **k): dict.__init__(self)
    def __enter__(self): return self
    def __exit__(self, *a): return False
class HDFArchiveGroup(dict):
    pass
def histograms():
    m = types.ModuleType("hist")
    import numpy as np
    class Histogram:
        def __init__(self, a=0, b=1, n=11): self.limits = (a, b); self.data = np.zeros(n)
        def __len__(self): return len(self.data)
    m.Histogram = Histogram
    m.cdf = m.pdf = lambda h: h
    return m
