"""Algebra of many-body operators."""
RULE = "random histories of sums, products, scalings, adjoints and comparisons of operators on up to four modes with mixed integer and string indices; oracle: dense matrices in Fock space and the canonical form"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_operators.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"])
CPP = [dict(name=n, n=(60000, 1500000), rule="at least two modes and two products", **_g) for n in ("algebra_real", "algebra_complex", "algebra_any")] + [dict(name="canonical", n=(10000, 200000), rule="at least two modes", **_g)]
