"""Imaginary-time points: exact cyclic arithmetic."""
RULE = "random histories of sums, differences, negations, random points and conversions on the periodic 64-bit grid; oracle: exact integer arithmetic modulo 2^64 and long double conversion"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
CPP = [dict(name="time_points", n=(60000, 4000000), rule="two distinct points and a wrapped sum or difference", src="u_gen.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["mc_tools/random_generator.cpp", "mc_tools/MersenneRNG.cpp"])]
