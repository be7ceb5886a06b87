"""Symmetry groups acting on the frequencies and orbitals of a Green function."""
RULE = "random groups of permutations of mesh points and indices with signs and conjugations; oracle: orbits by brute-force closure"
_g = dict(shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-llapack", "-lblas", "-lfmt", "-lgmp"], srcs=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"])
CPP = [dict(name=n, src="u_symgrp.cpp", n=q, rule="several symmetries", part=k, **_g) for n, q, k in [("one_variable", (1500, 60000), 1), ("several_variables", (1500, 60000), 2)]]
