"""Random number generators."""
RULE = "generated seeds, interleaved draws, reseeding, copies and assignments of several generators; oracle: std::mt19937 started from the documented seeding"
R = ["mc_tools/MersenneRNG.cpp"]
CPP = [
    dict(name="mersenne_twister", src="u_rng.cpp", srcs=R, n=(20000, 200000), rule="the state vector was regenerated at least once"),
    dict(name="copies", src="u_rng.cpp", srcs=R, n=(8000, 80000), rule="copied after at least one draw"),
    dict(name="named_generators", src="u_gen.cpp", shim=True, flags=["-DNDA_ENFORCE_BOUNDCHECK"], libs=["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lfftw3", "-llapack", "-lblas", "-lfmt", "-lgmp"], srcs=["mc_tools/random_generator.cpp"] + R, n=(30000, 1000000), rule="draws across a buffer refill from several generators"),
]
