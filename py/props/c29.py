"""Histograms."""
RULE = "random histories of samples (edges of bins and of the range, outside, infinite, not a number), sums, files, clearing, and reductions over 1-4 ranks; oracle: counts per bin kept by the check"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
CPP = [dict(name="histograms", n=(30000, 2000000), rule="a sample at the edge of a bin and more than three samples", src="u_stat.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["stat/histograms.cpp"])]
