"""Bravais lattices, Brillouin zones, their meshes, tight-binding Hamiltonians and densities of states."""
RULE = "lattices of 1-3 dimensions (cubic, bcc, triangular-matrix, generic units), 1-3 orbitals, generic momenta and hoppings; oracle: row-vector arithmetic in plain arrays, exhaustive search over all images, direct Fourier sums and an own eigenvalue solver"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_lattice.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp", "lattice/tight_binding.cpp"])
CPP = [dict(name=n, n=q, rule=r, **_g) for n, q, r in [
    ("lattices", (2000, 200000), "more than one dimension"), ("zone_mesh", (1500, 100000), "more than one dimension and two points"),
    ("closest_momentum", (1500, 100000), "more than one dimension and two points"), ("lattice_mesh", (2000, 200000), "more than one dimension and two points"),
    ("tight_binding", (2000, 200000), "several lattice vectors and orbitals or dimensions"), ("paths_and_stacks", (1500, 100000), "several points and lattice vectors"), ("density_of_states", (2000, 100000), "more than two bins and three momenta"), ("density_of_patch", (2000, 100000), "several points per direction and bins")]]
