world = None; rank = 0; size = 1; master = 0
def report(*a, **k): pass
def is_master_node(): return True
def bcast(x, root=0): return x
def barrier(*a): pass
def all_reduce(x, comm=None, op=None): return x
def slice_array(A): return A
