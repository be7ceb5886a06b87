"""Exact diagonalisation of finite fermionic systems and atomic Green's functions."""
RULE = "random hermitian operators (pairing, number-conserving, spin-conserving) on 1-5 modes in arbitrary order, all ways to divide the space, particle-number windows, excluded states; oracle: dense matrices on the Fock space and dense spectral sums"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_atomdiag.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["atom_diag/impl/%s.cpp" % x for x in ("atom_diag", "functions", "gf", "worker")] + ["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp", "utility/legendre.cpp"])
CPP = [dict(name=n, n=(6000, 300000), rule="at least two modes, two subspaces and a subspace with two states", **_g) for n in ("real_hamiltonian", "complex_hamiltonian")] + [dict(name=n, n=(8000, 400000), rule="at least two modes and three terms of the spectral sum", **_g) for n in ("lehmann_real", "lehmann_complex")] + [dict(name="many_subspaces", n=(300, 10000), rule="64 subspaces or more", **_g)]
