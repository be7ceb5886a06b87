"""Green's functions: access, slices, algebra, functions, evaluation, files, processes."""
RULE = "functions on one to three random meshes with scalar, vector, matrix and tensor values, real and complex; histories of assignments of expressions; oracle: lists of numbers in C order with schoolbook matrix products, interpolation formulas, conjugation rules"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_gf.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"])
PART = {'access_one': 1, 'access_products': 2, 'slices': 2, 'algebra_scalar': 3, 'algebra_matrix': 3, 'algebra_tensor': 4, 'mismatch': 4, 'functions': 5, 'hermiticity': 5, 'flattening': 6, 'evaluation': 6, 'beyond_the_mesh': 6, 'lazy_assignment': 6, 'gf_files': 1, 'processes': 2}
CPP = [dict(name=n, n=q, rule=r, part=PART[n], **_g) for n, q, r in [
    ("access_one", (3000, 300000), "several mesh points"), ("access_products", (2000, 200000), "several mesh points"), ("slices", (3000, 300000), "matrices larger than 1 x 1"),
    ("algebra_scalar", (4000, 400000), "at least three statements on several points"), ("algebra_matrix", (4000, 400000), "at least three statements"), ("algebra_tensor", (3000, 300000), "at least three statements"),
    ("mismatch", (2000, 100000), "different statistics"), ("functions", (3000, 300000), "rectangular matrices larger than 1 x 1"), ("hermiticity", (4000, 400000), "several frequencies"), ("flattening", (3000, 300000), "several elements in each group"),
    ("evaluation", (3000, 300000), "off the mesh points"), ("beyond_the_mesh", (1000, 50000), "always"), ("lazy_assignment", (2000, 200000), "several points"), ("gf_files", (1500, 100000), "several points"), ("processes", (1500, 100000), "several processes")]]
