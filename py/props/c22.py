"""Coefficients extracted from operators, and operators in files."""
RULE = "random quadratic, quartic, density-density and unrelated terms with mixed integer and string indices, random operator sets and block structures; oracle: the coefficients used to build the operator"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_operators.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp"])
CPP = [dict(name=n, n=(30000, 600000), rule="at least two modes and three coefficients", **_g) for n in ("extract_any", "extract_real", "extract_complex")] + [dict(name="blocks", n=(20000, 400000), rule="quadratic and other terms present", **_g)] + [dict(name=n, n=(8000, 150000), rule="at least two terms", **_g) for n in ("files_any", "files_real", "files_complex")]
