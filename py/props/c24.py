"""Partition of a Hilbert space into invariant subspaces."""
RULE = "random sparse hermitian operators, hybridisation and pairs of creation/annihilation-like operators, acting on a minimal state model; oracle: union-find components and a closure written independently"
CPP = [dict(name="space_partition", src="u_partition.cpp", n=(60000, 600000), rule="more than two states and at least one merge")]
