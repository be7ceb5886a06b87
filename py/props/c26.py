"""The Monte-Carlo loop: accounting, balance, stopping rules and ranks."""
RULE = "random move sets (nested), callbacks, measures, auxiliary measures, stop rules, signals and faults driving the real loop; oracle: an independent model of the documented loop, closed-form detailed balance on small chains"
L = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"]
_g = dict(src="u_mc.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=L, srcs=["mc_tools/random_generator.cpp", "mc_tools/MersenneRNG.cpp"])
CPP = [dict(name=n, n=k, rule=r, **_g) for n, k, r in (
    ("loop_real", (12000, 400000), "at least one accepted and one rejected move"),
    ("loop_complex", (12000, 400000), "at least one accepted and one rejected move"),
    ("warmup_and_accumulate", (12000, 400000), "the accumulation was reached"),
    ("bad_ratio", (3000, 60000), "the bad ratio was proposed after ordinary steps"),
    ("frequencies", (6000, 100000), "several moves with different weights"),
    ("rare_moves", (120, 3000), "at least one accepted move"),
    ("stationary", (4000, 80000), "a chain of at least three states"),
    ("ranks", (4000, 80000), "at least two ranks"))]
