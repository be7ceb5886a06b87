"""Fourier transforms between times and frequencies, lattices and reciprocal space."""
RULE = "sums of poles and finite Fourier sums on random meshes, all target shapes, products of meshes; oracle: analytic Green functions of poles, direct sums over points, inverse transforms"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_fourier.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["gfs/transform/fourier_common.cpp", "gfs/transform/fourier_matsubara.cpp", "gfs/transform/fourier_real.cpp", "gfs/transform/fourier_lattice.cpp", "lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"])
CPP = [dict(name=n, n=q, rule=r, part=k, **_g) for n, q, r, k in [
    ("matsubara", (1500, 100000), "several poles and components", 1), ("inverses", (1500, 100000), "more than two points and several components", 1), ("incompatible", (1000, 50000), "different temperature or statistic", 2), ("fitted_moments", (500, 30000), "several components", 2), ("coarse_times", (500, 30000), "fewer than eight intervals", 2),
    ("real_axis", (1500, 100000), "more than three points and several components", 3), ("real_axis_tail", (500, 30000), "always", 3), ("lattices", (1500, 100000), "several points", 4), ("several_variables", (800, 50000), "several points", 4)]]
