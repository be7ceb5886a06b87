"""Objects cross the boundary between C++ and Python unchanged."""
import sysconfig, numpy
RULE = "the real converters in an embedded interpreter with the real Python layer: objects generated on either side, taken across and back, compared, written on both sides, malformed and refused"
_inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
_lib = ["-lpython" + sysconfig.get_config_var("LDVERSION")]
_s = ["utility/typeid_name.cpp", "lattice/bravais_lattice.cpp", "operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"]
_h = dict(src="u_pyconv.cpp", shim=True, srcs=_s, flags=["-DNDA_ENFORCE_BOUNDCHECK"] + _inc, libs=["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"] + _lib)
CPP = [dict(name=n, n=q, rule=r, part=k, **_h) for n, q, r, k in [
    ("functions_across", (6000, 100000), "several numbers", 1), ("functions_refused", (4000, 60000), "every case", 1), ("blocks_across", (4000, 60000), "several blocks", 2), ("blocks2_across", (4000, 60000), "different numbers of rows and columns", 2),
    ("meshes_and_points", (6000, 100000), "several points", 3), ("frequencies_and_statistics", (6000, 100000), "frequency not zero", 3), ("lattice_points", (4000, 60000), "not the origin", 3),
    ("operators_across", (6000, 100000), "several terms", 4), ("modes_and_numbers", (6000, 100000), "several modes", 4)]]
