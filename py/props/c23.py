"""Operators acting on states of a Hilbert space."""
RULE = "random operator sets in arbitrary order, random operators, states and subspaces (up to 62 modes); oracle: creation and annihilation operators applied one by one to Fock states"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_states.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"])
CPP = [dict(name=n, n=(60000, 2000000), rule="at least two modes and one application of an operator", **_g) for n in ("fock_vector_real", "fock_vector_complex", "fock_map_real", "fock_map_complex")] + [dict(name=n, n=(20000, 500000), rule="at least three modes and a non-zero image", **_g) for n in ("subspace_vector_real", "subspace_vector_complex", "subspace_map_real", "subspace_map_complex")]
