"""Binning accumulators, averages, standard errors and jackknife."""
RULE = "random histories of data, compressions, copies and files in accumulators of numbers and arrays; series of different lengths on 1-4 ranks; oracle: every datum kept, bins and errors computed from the definition"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_stat.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["stat/histograms.cpp"])
CPP = [dict(name="bins_" + n, n=(5000, 400000), rule="several bins, and a compression or several levels", **_g) for n in ("real", "complex", "vector", "matrix")] + [
    dict(name="ranks_" + n, n=(5000, 400000), rule="at least two ranks and two levels", **_g) for n in ("real", "complex", "array")] + [
    dict(name="jackknife_" + n, n=(5000, 400000), rule="more than three data", **_g) for n in ("real", "complex", "array")] + [dict(name="correlation_time", n=(2000, 20000), rule="always", **_g)]
