"""Stand-alone C++ utilities."""
RULE = "generated values, histories and types for the real compiled utilities; oracle: definitions, quadrature, exact recurrences, stack and stream models, a replaced clock"
N = ["utility/legendre.cpp", "utility/typeid_name.cpp"]
def g(name, n, rule, src="u_numeric.cpp", srcs=N, **k): return dict(name=name, src=src, srcs=srcs, n=n, rule=rule, **k)
CPP = [
    g("numeric_ops", (40000, 400000), "non-zero values"), g("legendre_matsubara", (6000, 40000), "l > 0 and n != 0"), g("legendre_unitarity", (60, 400), "l != l'"), g("legendre_tail", (4000, 40000), "non-zero coefficient"),
    g("bessel", (10000, 100000), "x > 0"), g("legendre_generator", (10000, 100000), "restarted and beyond the first two polynomials"), g("buffered_function", (20000, 200000), "more than five operations"),
    g("scope_guards", (20000, 200000), "several guards and operations"), g("report_stream", (20000, 100000), "more than two prints"), g("tuples_and_variants", (10000, 60000), "at least two variants"), g("type_names", (2000, 8000), "every case"), g("callables", (4000, 20000), "more than one call"),
]
_h = dict(src="u_generic.cpp", shim=True, srcs=["utility/typeid_name.cpp", "utility/stack_trace.cpp"], libs=["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-llapack", "-lblas", "-lfmt"])
CPP += [dict(name=n, n=q, rule=r, part=k, **_h) for n, q, r, k in [
    ("tuple_tools", (10000, 100000), "different numbers", 1), ("brackets_and_factories", (10000, 100000), "several rows", 1), ("dressed_iterators", (10000, 100000), "several elements and steps", 1),
    ("real_or_complex", (20000, 200000), "more than two operations", 2), ("errors", (10000, 100000), "rethrown at least once", 2), ("durations", (10000, 100000), "a minute or more", 2), ("stack_traces", (4000, 40000), "an exception in the trace", 2), ("dumps", (2000, 20000), "several objects not dismissed", 3)]]
