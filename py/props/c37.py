"""Block Green functions in C++: an ordered, named family of Green functions."""
_g = dict(shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"],
          srcs=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp", "gfs/transform/fourier_common.cpp", "gfs/transform/fourier_matsubara.cpp"])
RULE = "random histories over containers of random names and shapes; oracle: an ordered list of named arrays"
CPP = [dict(name=n, src="u_block.cpp", n=q, rule=r, part=k, **_g) for n, q, r, k in [
    ("one_index", (800, 60000), "at least three operations", 1), ("two_indices", (800, 60000), "at least three operations", 2), ("maps", (800, 60000), "several blocks", 3), ("construction", (800, 60000), "several blocks", 3),
    ("refusals", (800, 60000), "always", 3), ("lazy_blocks", (600, 30000), "several blocks", 3), ("legacy_sums", (600, 30000), "several blocks", 3), ("block_files", (400, 10000), "several blocks", 4), ("block_processes", (400, 10000), "several blocks", 5)]]
