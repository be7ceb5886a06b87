"""Densities, high-frequency expansions, Legendre / Lehmann / Pade representations, rebinning."""
RULE = "sums of random poles and random coefficient vectors on random meshes of all kinds; oracle: Fermi / Bose functions, exact moments, Legendre series evaluated with the standard library, Gauss quadrature, dense least squares, sums over bins"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_s = ["gfs/functions/density.cpp", "gfs/functions/legendre.cpp", "gfs/functions/imtime.cpp", "gfs/transform/pade.cpp", "gfs/transform/fourier_common.cpp", "gfs/transform/fourier_matsubara.cpp", "utility/legendre.cpp"]
_g = dict(shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=_s)
CPP = [dict(name=n, src="u_gffun.cpp", n=q, rule=r, part=k, **_g) for n, q, r, k in [
    ("density_matsubara", (1000, 100000), "several poles", 1), ("density_real_axis", (1000, 100000), "matrices larger than 1 x 1", 1), ("density_off_the_mesh", (500, 30000), "always", 1), ("tails", (1500, 100000), "several poles", 2), ("tail_windows", (1500, 100000), "several points", 2), ("tails_of_blocks", (800, 50000), "several blocks", 2)]]
CPP += [dict(name=n, src="u_gfrep.cpp", n=q, rule=r, part=k, **_g) for n, q, r, k in [
    ("legendre_transforms", (1000, 100000), "more than two coefficients", 1), ("pade_continuation", (1500, 100000), "several poles", 1), ("rebinning", (2000, 100000), "fewer bins than points", 1), ("lehmann_representation", (1000, 100000), "several poles", 2), ("legendre_coefficients", (300, 20000), "several poles and more than two coefficients", 2)]]
