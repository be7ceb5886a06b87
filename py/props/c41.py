"""Closeness assertions on Green functions and families of them."""
RULE = "functions differing in one number by a multiple of the precision, in the mesh, the shape, the names or the number of blocks; oracle: the size of the difference put in"
_g = dict(shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-llapack", "-lblas", "-lfmt", "-lgmp", "-lgtest", "-lpthread"], srcs=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"])
CPP = [dict(name=n, src="u_close.cpp", n=q, rule=r, **_g) for n, q, r in [
    ("functions", (30000, 1000000), "a difference in a function of several numbers"), ("families", (10000, 300000), "several blocks and a difference"), ("families_two_indices", (20000, 500000), "several blocks and a difference"), ("file_round_trip", (600, 10000), "always")]]
