"""Determinants updated by rows and columns."""
RULE = "random histories of insertions, removals, replacements, refills, permutations, rejections, copies and file round trips on one or two matrices; oracle: plain argument lists and long-double linear algebra"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_detmanip.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, rule="at least four completed operations of at least three kinds")
CPP = [dict(name="det_real", n=(30000, 1500000), **_g), dict(name="det_complex", n=(30000, 1500000), **_g)]
