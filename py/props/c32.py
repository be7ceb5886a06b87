"""Meshes: enumeration, indices, values, closest points, interpolation, comparison, files, products."""
RULE = "meshes of every type with random parameters (sizes from 1, both statistics, positive frequencies only, skewed windows), products of two and three of them; oracle: the list of points from the definition, interpolation and series from their formula"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_mesh.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"])
CPP = [dict(name=n, n=q, rule=r, **_g) for n, q, r in [
    ("matsubara_frequencies", (20000, 2000000), "different statistics and a negative frequency"), ("imaginary_frequencies", (5000, 500000), "several frequencies, positive only or bosonic"),
    ("imaginary_times", (5000, 500000), "at least three points and beta != 1"), ("real_frequencies_and_times", (5000, 500000), "at least three points, window not starting at 0"),
    ("legendre_and_discrete", (5000, 500000), "at least three coefficients"), ("dlr_meshes", (800, 20000), "at least six nodes and beta != 1"), ("products", (4000, 300000), "every component has several points")]]
