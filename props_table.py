PROPS = []
def P(id, title, statement, over, quant, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note))
NOT_APPLICABLE = []

STUB_NOTE = ("Bounded random search with shrinking; the Python sources of the working tree run against independent pure-Python stand-ins "
             "for the compiled modules (operators, meshes, lattice, Fourier), which are trusted.")

P("C01", "Coulomb interaction tensors equal their angular-momentum definition",
  "For every orbital quantum number, every set of Slater integrals or (U,J) pair and every supported orbital basis, the four-index, reduced and "
  "Kanamori interaction matrices, the parameter conversions between (U,J), U', Slater and radial integrals, and the underlying 3j, Clebsch-Gordan "
  "and angular matrix elements equal their mathematical definition (spherical-harmonic integrals contracted with the basis change). "
  "A basis transformation acts as (conj T)(conj T) U T T, transformations and their inverses compose to the identity, and the tensor keeps its permutation and hermiticity symmetries. "
  "Conversions are mutual inverses wherever both directions exist.",
  ["inputs"], "all l in 0..3 (and beyond for the symbols), all real Slater integrals, all unitary basis changes, all spin/orbital index subsets",
  "The existing tests evaluate a few fixed (l,U,J) against stored matrices; the statement is about every value, every basis and every rotation.",
  ["python/triqs/operators/util/U_matrix.py"],
  [("Slater tensor assembly", "U_matrix_slater"), ("basis change", "transform_U_matrix"), ("Racah formula", "three_j_symbol")],
  "property-based testing (hypothesis) against spherical-harmonic quadrature and sympy",
  STUB_NOTE + " Oracle: quadrature of spherical harmonics, sympy 3j/CG, explicit contraction.")

P("C02", "Standard Hamiltonians and observables equal their second-quantised definition",
  "For every set of spin and orbital labels, naming convention and interaction tensor, the Slater, Kanamori, density-density and quadratic Hamiltonian builders return exactly the operator given by their documented sum over creation and annihilation operators. "
  "Density, spin, orbital angular-momentum and pair observables equal theirs, in any orbital basis, satisfy their commutation relations and commute with rotation-invariant interactions. "
  "Helpers that sort labels into blocks, drop small imaginary parts, extract diagonal parts or print the terms to a file lose and invent no term.",
  ["inputs"], "all spin/orbital counts, tensors, label maps, unitary bases and operators",
  "Stored Hamiltonians of a handful of sizes cannot show that every index combination, label map and tensor entry lands in the right monomial.",
  ["python/triqs/operators/util/hamiltonians.py", "python/triqs/operators/util/observables.py", "python/triqs/operators/util/op_struct.py"],
  [("sum over index tuples", "h_int_slater, h_int_kanamori, h_int_density, quadratic_terms"), ("observables", "S_op, S2_op, L_op, L2_op, LS_op, N_op")],
  "property-based testing (hypothesis) against an independent second-quantised operator algebra", STUB_NOTE)

P("C03", "Green-function containers act pointwise and slices are views",
  "For every mesh (single or product), target shape and data, arithmetic, conjugation, transposition, inversion, evaluation, mesh and target slicing, assignment, copying, pickling and archive round trips of a Green function in Python equal the corresponding pointwise array operation. "
  "Slices alias the parent's data, copies never do, and any history of such operations leaves the object equal to a plain-array model. "
  "Operations between functions on different meshes, or with incompatible shapes, statistics or arguments, are rejected and leave every operand unchanged.",
  ["inputs", "histories"], "all meshes, target shapes, data, scalar and matrix operands, slices, and sequences of operations",
  "Aliasing, broadcasting and rejection must hold for every mesh/target/slice combination and in every order of operations.",
  ["python/triqs/gf/gf.py", "python/triqs/gf/mesh_product.py", "python/triqs/gf/mesh_point.py", "python/triqs/gf/meshes_desc.py"],
  [("arithmetic", "gf.py __iadd__ .. __truediv__"), ("slicing", "gf.py __getitem__"), ("product mesh indexing", "mesh_product.py")],
  "stateful property-based testing (hypothesis) against a plain numpy model", STUB_NOTE)

P("C04", "Block Green functions behave as dictionaries of independent blocks",
  "For every block structure (one or two block labels, any names, order and sizes), arithmetic, assignment, iteration, selection, copying, reordering, pickling and archive round trips of block Green functions in Python act block by block and keep the names, order, index pairs and aliasing of the blocks. "
  "Scalars, matrices, lists and other block functions are accepted on either side exactly where the corresponding block operation is defined. "
  "Any history of operations leaves the container equal to a dictionary of arrays, and mismatched structures are rejected.",
  ["inputs", "histories"], "all block structures, operands and operation sequences",
  "Tests use one or two fixed structures; the guarantee is about every structure, name order and operand kind.",
  ["python/triqs/gf/block_gf.py", "python/triqs/gf/block2_gf.py", "python/triqs/gf/map_block.py"],
  [("block arithmetic", "block_gf.py, block2_gf.py in-place and binary operators"), ("construction and selection", "block_gf.py __init__, __getitem__")],
  "stateful property-based testing (hypothesis) against a dictionary-of-arrays model", STUB_NOTE)

P("C05", "Lazy initialisers, descriptors and Green-function tools equal their formula",
  "For every mesh, target and parameter, initialising a Green function from an expression of descriptors (semicircular, flat, frequency, constant, user function, Fourier or Legendre transforms) and other Green functions gives the pointwise value of that expression, and leaves the operands unchanged. "
  "Expressions print, copy, transform and re-evaluate consistently. "
  "The Dyson, hybridisation, bath construction and discretisation, text input/output, tail and Legendre-fit tools satisfy their defining equations, and reject meshes they do not support.",
  ["inputs"], "all meshes, targets, expression trees and parameters",
  "An expression grammar has unboundedly many trees and each formula must hold for all parameters, including band edges and complex or empty baths.",
  ["python/triqs/gf/descriptors.py", "python/triqs/gf/descriptor_base.py", "python/triqs/gf/lazy_expressions.py", "python/triqs/gf/tools.py"],
  [("descriptor formulas", "descriptors.py"), ("expression evaluation", "lazy_expressions.py"), ("tools", "tools.py")],
  "property-based testing (hypothesis) over expression trees and parameters against numpy formulas and quadrature", STUB_NOTE)

P("C06", "Lattice models, superlattices and Brillouin-zone tools keep the physics",
  "For every lattice, hopping table, cell, k-point and symbolic or imported model, building a tight-binding Hamiltonian gives the Fourier sum of its hoppings, hermitian when the hoppings are; a superlattice describes the same crystal (same spectrum after folding, same hoppings after unfolding, inverse changes of coordinates). "
  "Paths and patches in reciprocal space contain the requested points with weights that integrate to one, and imported or symbolic models reproduce the source model. "
  "Inconsistent input is rejected.",
  ["inputs"], "all lattices, cells, hopping tables, paths, patches and models",
  "Any cell matrix, site ordering and hopping range must work; tests use one or two square lattices.",
  ["python/triqs/lattice/super_lattice.py", "python/triqs/lattice/tight_binding.py", "python/triqs/lattice/utils.py", "python/triqs/lattice/bz_patch.py", "python/triqs/lattice/point.py"],
  [("cluster construction and (un)folding", "super_lattice.py"), ("Bloch sum", "tight_binding.py"), ("imports", "utils.py")],
  "property-based testing (hypothesis) against direct Bloch sums and independent folding", STUB_NOTE)

P("C07", "Root search, bisection and fits reach what they promise",
  "For every monotone or sign-changing function, target, step and tolerance, the dichotomy and the bound-and-bisect searches return a point whose value meets the tolerance, bracket it by points of opposite sign, and report failure only when the function does not cross the target within the allowed steps. "
  "A fit recovers the parameters that generated noiseless data of an identifiable model, on any window, and prints and evaluates consistently.",
  ["inputs"], "all functions of the generated families, targets, steps and tolerances",
  "Termination and bracketing are statements about all functions and starting points.",
  ["python/triqs/utility/dichotomy.py", "python/triqs/utility/bound_and_bisect.py", "python/triqs/fit/fit.py"],
  [("bracketing and bisection", "dichotomy.py, bound_and_bisect.py"), ("least squares", "fit.py")],
  "property-based testing (hypothesis) over function families with known roots", STUB_NOTE)

P("C08", "Densities of states, Hilbert transforms and k-sums equal their integral",
  "For every density of states, lattice, self-energy (constant, energy- or momentum-dependent), field, chemical potential and number of processes, the tabulated density, the Hilbert transform and the sum over k of the lattice Green function equal the defining sum or integral, whatever the way the work is split or the function is given. "
  "Copies, pickles and archives of these objects give the same result, files round-trip, and inconsistent input is rejected.",
  ["inputs", "schedules"], "all densities, lattices, self-energies, fields, ranks",
  "The result must not depend on the form of the self-energy, the splitting over processes or the storage; each combination is a separate code path.",
  ["python/triqs/dos/dos.py", "python/triqs/dos/hilbert_transform.py", "python/triqs/sumk/sumk_discrete.py", "python/triqs/sumk/sumk_discrete_from_lattice.py"],
  [("quadrature", "hilbert_transform.py"), ("sum over k", "sumk_discrete.py")],
  "property-based testing (hypothesis) against closed forms, quadrature and explicit sums", STUB_NOTE)

P("C09", "Message passing from Python follows the collective semantics on any ranks",
  "For every number of processes, history of collective and point-to-point calls and kind of value, broadcasts, reductions, barriers, sends and receives give each process the value defined by the operation, and a slice of an array or range gives each process a contiguous, balanced, disjoint and complete share. "
  "The serial replacement behaves as one process does, the choice between the two depends only on the launch environment, and reports are printed once. "
  "Work distributed over the nodes is treated exactly once, in order.",
  ["schedules", "histories"], "all rank counts, lengths, histories and environments",
  "The tests run one process; the guarantees are about every rank number and interleaving.",
  ["python/triqs/utility/mpi_mpi4py.py", "python/triqs/utility/mpi_nompi.py", "python/triqs/utility/mpi.py.in", "python/triqs/utility/dist_on_nodes.py"],
  [("collectives", "mpi_mpi4py.py"), ("slices", "slice_array, slice_inf, slice_sup"), ("environment", "mpi.py.in")],
  "model-based testing (hypothesis) on simulated ranks (threads) running the real module", STUB_NOTE + " MPI itself is replaced by an in-memory communicator.")

P("C10", "Matsubara frequencies and mesh points compute as the numbers they denote",
  "For every index, temperature and statistic, sums, differences and opposites of Matsubara frequencies are the frequency of the right index and statistic, and any arithmetic expression of frequencies, mesh points, numbers and arrays, in any order, equals the same expression of the complex numbers they denote. "
  "Frequencies of different temperatures do not mix. "
  "A mesh enumerates each of its points once, in the order of the data, and looks any of them up by index.",
  ["inputs"], "all indices, statistics, temperatures, operands and expression trees",
  "The closure of an arithmetic is a statement about all expressions.",
  ["python/triqs/gf/matsubara_freq.py", "python/triqs/gf/mesh_point.py", "python/triqs/gf/mesh_product.py"],
  [("frequency arithmetic", "matsubara_freq.py"), ("point arithmetic", "mesh_point.py")],
  "property-based testing (hypothesis) over expression trees against complex arithmetic", STUB_NOTE)

P("C11", "What is plotted, compared, captured or built the old way is the data",
  "For every Green function, histogram, function or list of points, window, mode and option, the curves handed to the plotting library are exactly the requested components on the requested window with every option passed on. "
  "Comparing two archives or objects reports a difference if and only if one exceeds the requested precision, whatever was compared before. "
  "Captured or redirected output is complete and the output is restored afterwards, and older constructors build the same object as the current ones.",
  ["inputs", "histories"], "all objects, windows, options, archives, perturbations",
  "No test covers the plotting layer, and the comparison tool is what other tests rely on.",
  ["python/triqs/plot/protocol.py", "python/triqs/plot/mpl_interface.py", "python/triqs/gf/plot/plot_base.py", "python/triqs/gf/plot/one_var.py", "python/triqs/stat/histogram.py", "python/triqs/utility/h5diff.py", "python/triqs/utility/comparison_tests.py", "python/triqs/utility/redirect.py", "python/triqs/utility/capture_stdout.py", "python/triqs/gf/backwd_compat/gf_imfreq.py", "python/triqs/gf/backwd_compat/gf_imtime.py", "python/triqs/gf/backwd_compat/gf_refreq.py", "python/triqs/gf/backwd_compat/gf_retime.py", "python/triqs/gf/backwd_compat/gf_legendre.py"],
  [("plot protocol", "protocol.py, plot_base.py"), ("archive comparison", "h5diff.py")],
  "property-based testing (hypothesis) against the data array, a recursive comparison and recorded calls", STUB_NOTE + " matplotlib is replaced by a recorder.")

P("C12", "Porting a project renames the old interface and nothing else",
  "For every source tree, running the porting script from its top replaces every renamed or moved name of the earlier interface by its current one in each source, documentation, notebook and build file, wherever the file lies and whatever it is called. "
  "Nothing else changes: other text on the same and on other lines, line ends, encoding, files of other kinds, version-control data and anything outside the tree stay as they were. "
  "Running it again changes nothing.",
  ["inputs", "histories"], "all source trees, names, lines, line ends, encodings, second runs",
  "A user runs it once on a whole project in place; a wrong replacement corrupts code silently, and nothing tests it.",
  ["porting_tools/port_to_triqs3"],
  [("replacement table", "repl_dict"), ("which files", "os.walk loop, ignore_lst, file_endings")],
  "property-based testing (hypothesis) of the script run as an unprivileged user on generated source trees, against an independent table of old and new lines", "The lines are drawn from a table of uses of each renamed name, near-misses and unrelated text.")

SHIM_NOTE = "itertools, mpi, h5, nda and cppdlr are absent from this environment and are replaced by stand-ins (shim/) that pass the repository's own C++ tests."

P("C20", "A determinant updated row by row is the determinant of its arguments",
  "For every history of insertions, removals and replacements of one or several rows and columns, refills, exchanges, rolls, rejections, copies, moves, swaps and file round trips, the ordered arguments are those the history implies, and the determinant, the matrix and its inverse are those of the function on these arguments, in the user's order. "
  "Every attempt returns the exact ratio of the new to the old determinant and changes nothing until it is completed; a rejected or refused one leaves no trace. "
  "Requests outside the matrix are refused.",
  ["histories", "inputs"], "all operation histories, sizes, argument values, real and complex functions",
  "Permutations, signs and reserved storage interact over long histories which no fixed sequence covers.",
  ["c++/triqs/det_manip/det_manip.hpp"],
  [("updates", "det_manip::try_*, complete_*"), ("permutations", "row_num, col_num, sign"), ("storage", "reserve, swap_but_f, h5_read")],
  "stateful model-based testing of the compiled class (choice-sequence generator with shrinking, sanitizers) against argument lists and long-double linear algebra", SHIM_NOTE)

P("C21", "Operators of second quantisation obey their algebra",
  "For every sequence of sums, products, scalings, adjoints, real and imaginary parts and conversions of creation and annihilation operators with any indices, the result acts on Fock space as the expression does, anticommutation relations included. "
  "Its terms are unique, normally ordered and non-zero, so that two operators compare equal, and one is reported hermitian, exactly when their actions are. "
  "Operators print as the sum of their terms.",
  ["inputs", "histories"], "all expressions, indices (integers, strings, mixed) and real, complex or mixed coefficients",
  "Sign errors appear only for particular orders of particular operators; the algebra is a statement about all expressions.",
  ["c++/triqs/operators/many_body_operator.hpp", "c++/triqs/operators/many_body_operator.cpp", "c++/triqs/utility/real_or_complex.hpp"],
  [("normal order", "many_body_operator_generic::normalize_and_insert"), ("algebra", "operator+=, *=, dagger"), ("coefficients", "real_or_complex")],
  "stateful property-based testing of the compiled class (choice-sequence generator with shrinking, sanitizers) against dense Fock-space matrices", SHIM_NOTE)

P("C22", "Coefficients are extracted from, and operators stored to files, exactly",
  "For every operator, the one-body matrix, two-body tensor, density-density matrix and block matrices extracted are the coefficients of its terms, laid out in the order of the operator set or block structure, and rebuild the operator. "
  "Terms of any other form are ignored on request and refused otherwise, as are indices outside the set. "
  "An operator written to a file is read back identical, together with its operator set, whatever the target contained.",
  ["inputs", "histories"], "all operators, operator sets, block structures, indices",
  "Antisymmetry, ordering and mixed terms make the layout depend on the operator in ways a few examples do not show.",
  ["c++/triqs/operators/util/extractors.hpp", "c++/triqs/operators/many_body_operator.cpp", "c++/triqs/hilbert_space/fundamental_operator_set.hpp", "c++/triqs/hilbert_space/fundamental_operator_set.cpp"],
  [("extraction", "extract_h_dict, extract_U_dict2, extract_U_dict4, dict_to_matrix, block_matrix_from_op"), ("files", "h5_write, h5_read of many_body_operator"), ("operator sets", "fundamental_operator_set")],
  "property-based testing of the compiled functions (choice-sequence generator with shrinking, sanitizers) against the generating coefficients", SHIM_NOTE)

P("C23", "Operators act on states as creation and annihilation operators do",
  "For every operator set in any order, every operator and every state of the full space or of a subspace, stored densely or sparsely, the image is the sum of the terms applied operator by operator to the Fock states, with the fermionic signs of the set's order, for any number of modes up to the limit of the representation. "
  "Sums, multiples, scalar products, projections and copies of states are those of the amplitudes. "
  "Spaces and subspaces enumerate their Fock states consistently, also after a round trip through a file.",
  ["inputs", "histories"], "all operator sets, operators, states, subspaces up to 62 modes",
  "Signs depend on occupations and order; the existing test has a few modes in one order.",
  ["c++/triqs/hilbert_space/imperative_operator.hpp", "c++/triqs/hilbert_space/state.hpp", "c++/triqs/hilbert_space/hilbert_space.hpp", "c++/triqs/hilbert_space/fundamental_operator_set.hpp"],
  [("action", "imperative_operator"), ("states", "state, project, dot_product"), ("spaces", "hilbert_space, sub_hilbert_space")],
  "property-based testing of the compiled classes (choice-sequence generator with shrinking, sanitizers) against step-by-step Fock-space arithmetic", SHIM_NOTE)

P("C25", "Exact diagonalisation reproduces the spectrum, operators and spectral functions",
  "For every Hermitian operator on a finite set of fermionic modes and every way to divide the space (automatic, with a hybridisation, by particle number, by conserved quantities), the subspaces partition the selected Fock states and are invariant, their eigenstates are orthonormal, ascending and shifted to a lowest energy of zero, and the vacuum, conserved quantities, operator matrices and their connections are those of the same operators on the whole space. "
  "Partition function, thermal state, averages, images of states and conserved quantities agree with dense matrix algebra, requests which break the division are refused, and files give back an equal object. "
  "The atomic Green's functions on every mesh are the spectral sum over the eigenstates that are not excluded, for every temperature.",
  ["inputs"], "1-5 modes in any order, real and complex Hamiltonians, beta 0.1-400",
  "Correctness depends on signs, ordering of subspaces and degeneracies; the existing tests compare a few models with stored files.",
  ["c++/triqs/atom_diag/atom_diag.hpp", "c++/triqs/atom_diag/impl/atom_diag.cpp", "c++/triqs/atom_diag/impl/worker.cpp", "c++/triqs/atom_diag/impl/functions.cpp", "c++/triqs/atom_diag/impl/gf.cpp", "c++/triqs/atom_diag/impl/worker.hpp"],
  [("division and diagonalisation", "atom_diag_worker"), ("averages", "trace_rho_op, act, quantum_number_eigenvalues"), ("spectral functions", "atomic_g_lehmann, atomic_g_tau, atomic_g_iw, atomic_g_l, atomic_g_w")],
  "property-based testing of the compiled classes (choice-sequence generator with shrinking, sanitizers) against dense matrices on the Fock space", SHIM_NOTE)

P("C24", "The Hilbert space is split into the finest invariant subspaces",
  "For every Hamiltonian and every sequence of creation/annihilation pairs, the automatic partition puts two basis states in one subspace exactly when the Hamiltonian (or the hybridisation) connects them directly or through other states, or when the merging rule of the second phase requires it, so that each operator maps a subspace to at most one subspace. "
  "Subspaces are numbered without gaps, every state belongs to one, and the matrix elements and connections reported are those of the operators.",
  ["inputs", "histories"], "all operators, state-space sizes, merge sequences",
  "A block structure that is too fine silently drops matrix elements; only an independent closure on arbitrary operators can tell.",
  ["c++/triqs/hilbert_space/space_partition.hpp"],
  [("partition", "space_partition constructor"), ("phase two", "space_partition::merge_subspaces"), ("connections", "find_mappings, get_matrix_elements")],
  "property-based testing of the compiled class (choice-sequence generator with shrinking, sanitizers) against an independent closure", "The operator and state types are minimal models supplied by the check.")

P("C26", "The Monte Carlo loop accepts, measures, stops and reports exactly as specified",
  "For every set of (nested) moves, callbacks, measurements, auxiliary measurements and stop conditions, the loop attempts moves with the stated frequencies, accepts each with the Metropolis probability of its ratio, follows every attempt by exactly one of acceptance or rejection, tracks the sign, and measures once per cycle only while measuring. "
  "It stops at the first of: number of cycles, stop condition, signal, a fault, or a ratio which is not a number, reports which one it was, and counts steps, cycles, acceptance rates and fractions done exactly, on one rank or on many. "
  "A fault on one rank stops and is reported on all of them, and the chain visits the states with their stationary probability.",
  ["histories", "inputs", "faults"], "nested move sets, real and complex ratios, 1-4 ranks, consecutive runs of one simulation",
  "Accounting errors show only after particular histories (rejections after a sign change, a signal in the last cycle, resumed runs), and wrong balance only in distributions.",
  ["c++/triqs/mc_tools/mc_generic.hpp", "c++/triqs/mc_tools/mc_move_set.hpp", "c++/triqs/mc_tools/mc_measure_set.hpp", "c++/triqs/mc_tools/mc_measure_aux_set.hpp", "c++/triqs/utility/signal_handler.hpp"],
  [("loop", "mc_generic::run, warmup, accumulate, collect_results"), ("moves", "move_set::attempt, accept, reject, collect_statistics"), ("measurements", "measure_set, measure_aux")],
  "model-based testing of the compiled loop over generated histories, faults and stop conditions, with shrinking, against an independent model of the documented loop", SHIM_NOTE + " Signals are delivered by a stand-in at a chosen check; the real handler is the subject of C39.")

P("C27", "Random number generators give the documented, independent streams",
  "For every seed and every interleaving of draws, reseedings and copies of several generators, each generator delivers exactly the integer stream of the documented twister started from its seed, uniform numbers are that stream mapped to the unit interval and the call operator never returns 0 or 1. "
  "A copied or assigned generator starts the stream of its seed and shares nothing with its source.",
  ["histories", "inputs"], "all seeds, draw/copy/reseed histories",
  "Wrong state handling shows only at the 624-word reload, or after a copy, which a short test never reaches.",
  ["c++/triqs/mc_tools/MersenneRNG.hpp", "c++/triqs/mc_tools/MersenneRNG.cpp", "c++/triqs/mc_tools/random_generator.hpp", "c++/triqs/mc_tools/random_generator.cpp", "c++/triqs/utility/buffered_function.hpp"],
  [("twister", "RandMT::reloadMT, seedMT"), ("uniform numbers", "RandMT::operator(), eval")],
  "model-based testing of the compiled class (choice-sequence generator with shrinking, sanitizers) against std::mt19937", "")

P("C28", "Binned statistics and jackknife errors equal their definition for every history",
  "For every history of data, compressions, copies and storage in files, an accumulator of numbers or arrays has counted every datum, its linear bins are the averages of consecutive data, of the stated capacity and never more than allowed, and the error of each logarithmic level is the standard error of the averages of consecutive full groups of 2^n data. "
  "Averages, standard errors, the errors of all ranks together, and the jackknife average, error and bias correction of a function of one or several series equal their definition over all data, on every rank, however the data are distributed; series of different or zero length are refused.",
  ["histories", "inputs"], "histories up to some hundred data, 1-4 ranks with different numbers of data, real, complex, vectors, matrices",
  "Off-by-one errors occur only when bins fill, merge or appear at powers of two, or when ranks hold different numbers of data.",
  ["c++/triqs/stat/accumulator.hpp", "c++/triqs/stat/jackknife.hpp", "c++/triqs/stat/mean_error.hpp", "c++/triqs/stat/make_real.hpp"],
  [("linear bins", "lin_binning::operator<<, compress"), ("levels", "log_binning::operator<<, accumulator::log_bin_errors, log_bin_errors_all_reduce"), ("errors", "mean_and_err, mean_and_err_mpi, jackknife, jackknife_mpi")],
  "model-based testing of the compiled classes (choice-sequence generator with shrinking, sanitizers) against the definitions applied to all data", SHIM_NOTE)

P("C29", "Histograms count every sample in the bin it belongs to, or as lost",
  "For every range, number of bins and history of samples, sums, copies, clearing and storage in files, each sample inside the range is counted in the bin whose centre is nearest, each one outside (or not a number) is counted as lost, and nothing is ever counted twice or written outside the data. "
  "Normalised and cumulated histograms, the printed table, equality, and histograms summed over or broadcast to all ranks are those of the counts.",
  ["histories", "inputs"], "integer and real ranges, up to 40 bins, samples at all edges, 1-4 ranks",
  "Edges of bins and of the range, and combinations of operations, are not sampled by tests.",
  ["c++/triqs/stat/histograms.hpp", "c++/triqs/stat/histograms.cpp"],
  [("binning", "histogram::operator<<"), ("derived histograms", "pdf, cdf, operator+, operator=="), ("ranks", "mpi_reduce, mpi_broadcast")],
  "model-based testing of the compiled class (choice-sequence generator with shrinking, sanitizers) against counts per bin", SHIM_NOTE)

P("C30", "Points of the imaginary-time circle obey exact cyclic arithmetic",
  "For every history of sums, differences, opposites, divisions and multiplications by integers, the points of the segment [0, beta] are exact modulo the number of points of its fine grid, their order is that of their grid numbers, and the value of a point is its grid number in units of beta, for every beta. "
  "The ends and the smallest step of a segment, the point nearest to a number, random points (never above their upper bound, nor below their lower one) and points read back from a file are those of the same grid.",
  ["inputs", "histories"], "all pairs of points, beta over many orders of magnitude",
  "Wrap-around and rounding errors occur at isolated points of a grid with 2^64 points.",
  ["c++/triqs/utility/time_pt.hpp"],
  [("arithmetic", "time_pt operator+, operator-"), ("conversion", "time_pt::operator double, make_time_pt"), ("random points", "get_random_pt")],
  "property-based testing of the compiled class (choice-sequence generator with shrinking, sanitizers) against integer arithmetic modulo 2^64", SHIM_NOTE)

P("C31", "Lattices, Brillouin zones and tight-binding Hamiltonians obey their geometry",
  "For every lattice of one to three dimensions, its completed units are independent, the units of its Brillouin zone are dual to them, coordinates round-trip, and the meshes of both enumerate their points exactly once with the right positions, fold every index periodically, add and subtract their points modulo the zone and differ when their dimensions or units differ. "
  "The mesh point closest to a momentum is the closest one among all points and all their periodic images, and interpolation in a zone is multilinear and periodic. "
  "The Hamiltonian, energies and eigenvectors at a momentum are those of the Fourier sum of the hoppings, and densities of states are the normalised counts of the energies.",
  ["inputs"], "all lattices (skewed ones too), dimensions, momenta, hoppings",
  "Tests use the square and cubic lattices; the errors are in skewed cells, lower dimensions and flat bands.",
  ["c++/triqs/lattice", "c++/triqs/mesh/brzone.hpp", "c++/triqs/mesh/cyclat.hpp"],
  [("units", "bravais_lattice, brillouin_zone constructors"), ("mesh", "mesh::brzone, mesh::cyclat, closest_index, evaluate"), ("Hamiltonian", "tight_binding::fourier, dispersion, dos, dos_patch")],
  "property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against plain vector arithmetic and exhaustive search", SHIM_NOTE)

P("C32", "Meshes enumerate, locate and interpolate consistently",
  "For every kind of mesh and all its parameters, iteration visits the points exactly once in the order of their data indices, indices, data indices and values convert into one another, values are those of the definition with exact ends, indices out of range are invalid, and the mesh point closest to a value is a closest one. "
  "Evaluation is exact on mesh points and linear in between, a series for Legendre and DLR coefficients, and acts on each variable of a product independently; meshes are equal exactly when their parameters are, and survive copies and files. "
  "Products enumerate all the combinations, last component fastest, and Matsubara frequencies and mesh points obey the arithmetic of the numbers they stand for.",
  ["inputs"], "all mesh types and parameters, products of up to three",
  "Off-by-one errors show for one statistic, one sign or one-point meshes only.",
  ["c++/triqs/mesh"],
  [("points", "mesh::imfreq, imtime, refreq, retime, legendre, discrete, dlr, dlr_imtime, dlr_imfreq"), ("products", "mesh::prod"), ("frequencies", "mesh::matsubara_freq"), ("interpolation", "mesh evaluate")],
  "property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against the definition of each mesh", SHIM_NOTE)

P("C33", "Green functions store, slice, combine and evaluate values point by point",
  "For every mesh, product of meshes and target, the value at a mesh point is the same memory however it is reached (point, index, components, closest point, view, slice of variables or target), writing it changes nothing else, copies are independent and views share the data. "
  "Every expression of sums, differences, products, quotients and numbers equals the pointwise algebra of the values, compound assignments included, operands on different meshes or of different shapes are refused, and products in imaginary time multiply the statistics. "
  "Real and imaginary parts, conjugates, transposes, inverses, matrix products, hermitian and real-in-time parts, positive-frequency views, flattening, lazy assignment, interpolation, files, broadcasts and sums over processes all act as their pointwise definition.",
  ["inputs", "histories"], "mesh and target types, shapes, values, histories of statements, process counts",
  "The combinations of meshes, targets, views and aliases are too many for examples.",
  ["c++/triqs/gfs"],
  [("access", "gf, gf_view, gf_const_view operator[] and operator()"), ("algebra", "gf_expr"), ("functions", "functions2.hpp, functions/imfreq.hpp"), ("flattening", "gf/flatten.hpp"), ("evaluation", "gf_evaluator, mesh evaluate"), ("files", "gf_h5_rw")],
  "stateful property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against a pointwise reference model", SHIM_NOTE)

P("C34", "Fourier transforms agree with their definition and invert each other",
  "A Fourier transform from Matsubara frequencies to imaginary time, from real frequency to real time or from reciprocal space to a lattice, and back, returns the transform of the function the points stand for: exact direct sums where the function is finite, the analytic result for sums of poles where the high-frequency moments are given or fitted, in every component and for one variable of a product at a time. "
  "A transform followed by its inverse gives the function back, the transform is linear, and it leaves its argument as it was. "
  "Meshes that do not belong together, too few points and functions without a decaying tail are refused.",
  ["inputs", "configurations"], "poles, moments, statistics, temperatures, mesh sizes and windows, lattice periods, target shapes, position of the variable in a product",
  "Errors of sign, of tail correction or of grid convention show for particular statistics, parities of the number of points, or matrix components.",
  ["c++/triqs/gfs/transform", "c++/triqs/mesh/adjoint.hpp"],
  [("matsubara", "fourier_matsubara.cpp"), ("real_axis", "fourier_real.cpp"), ("lattices", "fourier_lattice.cpp"), ("several_variables", "fourier.hpp: make_gf_from_fourier<N>, make_gf_from_fourier on products"), ("common", "fourier_common.cpp: batched plans")],
  "property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against analytic transforms of poles and direct sums", SHIM_NOTE)
P("C35", "Densities, tails and compact representations describe the same function",
  "The density of a Green function equals the occupation of its poles, in every representation, element by element of the matrix. "
  "The high-frequency expansion fitted to a function reproduces known moments exactly and is the least-squares solution on the window of frequencies asked for, and replacing the tail changes only what lies beyond it. "
  "Legendre coefficients, discrete Lehmann coefficients, Pade continuations and rebinned functions evaluate to the function they were made from at every time and frequency, to the precision promised, and refuse meshes or counts they cannot serve.",
  ["inputs", "configurations"], "poles, statistics, temperatures, windows of the fit, numbers of coefficients and points, target shapes",
  "Accuracy over the whole range of temperature, statistics and matrix shapes cannot be sampled by a handful of reference values.",
  ["c++/triqs/gfs/functions", "c++/triqs/gfs/transform/pade.cpp", "c++/triqs/utility/pade_approximants.hpp", "c++/triqs/gfs/transform/legendre_matsubara.hpp", "c++/triqs/utility/legendre.cpp", "c++/triqs/mesh/tail_fitter.hpp"],
  [("density", "density.hpp / density.cpp"), ("tails", "tail_fitter.hpp, fit_tail, fit_hermitian_tail, replace_by_tail"), ("legendre", "legendre_matsubara.hpp, legendre.cpp"), ("lehmann", "functions/dlr.hpp, mesh/dlr*.hpp"), ("pade", "pade.cpp"), ("rebinning", "imtime.cpp")],
  "property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against analytic Green functions of poles", SHIM_NOTE)
P("C36", "Symmetry classes of a Green function are the orbits of its symmetries",
  "For every set of symmetries relating mesh points and indices with optional sign and conjugation, the classes found are exactly the orbits, every element belongs to one class and carries the operation that relates it to the representative. "
  "A function initialised from its representatives has all the symmetries, the data of the representatives restores it and is restored from it, and symmetrising gives the class averages and reports the largest deviation and its place. "
  "The result does not depend on running in parallel, and symmetries that lead outside the mesh are followed as far as asked.",
  ["inputs", "configurations"], "groups of permutations of mesh points and indices, signs, conjugations, meshes of one and several variables, target shapes",
  "Orbits depend on how symmetries combine; a handful of regular examples does not distinguish wrong paths, signs or representatives.",
  ["c++/triqs/gfs/gf_sym_grp.hpp"],
  [("classes", "sym_grp constructor, iterate"), ("initialisation", "init, get_init_func"), ("symmetrisation", "symmetrize"), ("representatives", "get_representative_data, set_from_representative_data")],
  "property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against a brute-force closure of the group", SHIM_NOTE)
P("C37", "A block Green function in C++ is an ordered, named family of Green functions",
  "Every history of accesses, assignments, arithmetic, loops, views, maps and copies on one- and two-index families acts block by block on the named functions, in the order of the names, and views share the data while copies do not. "
  "Families written to a file, serialised, broadcast or reduced over processes come back with the same names and values. "
  "Families that do not fit together, repeated or missing names and wrong counts are refused and leave the left-hand side as it was.",
  ["histories", "inputs"], "histories of operations, numbers and names of blocks, one and two indices, meshes, target shapes, ranks",
  "Aliasing and ownership errors in families and their views need particular sequences of operations to show.",
  ["c++/triqs/gfs/block"],
  [("containers", "block_gf.hpp, block_gf_view.hpp, block_gf_const_view.hpp"), ("arithmetic", "block/expr.hpp"), ("maps", "block/map.hpp"), ("files", "block_gf.hpp: h5_write, h5_read"), ("ranks", "mpi lazy assignments")],
  "stateful property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against a reference list of named arrays", SHIM_NOTE)
P("C38", "Numerical and generic C++ utilities compute their definition",
  "For all orders, frequencies and arguments, the Legendre transform matrix, its tail coefficients, the polynomial generator and the modified spherical Bessel functions equal their defining integral, series or recurrence, and the transform is unitary. "
  "Zero tests, conjugation, real and imaginary parts agree with the number for every arithmetic type; a buffered function delivers its values in order, without loss, for every history of calls, copies and moves; and scope guards run exactly once unless dismissed. "
  "Report streams print exactly at their verbosity, tuples and variants round-trip through their serialisation and text, tuple algorithms act element by element in order, numbers decided real or complex at run time follow complex arithmetic, and error messages, stack traces, durations and crash dumps carry what they were given.",
  ["inputs", "histories"], "all orders, arguments, types, histories",
  "These helpers are used everywhere; the single existing test compares a few values.",
  ["c++/triqs/utility/legendre.hpp", "c++/triqs/utility/legendre.cpp", "c++/triqs/utility/numeric_ops.hpp", "c++/triqs/utility/buffered_function.hpp", "c++/triqs/utility/scope_guard.hpp", "c++/triqs/utility/report_stream.hpp", "c++/triqs/utility/typeid_name.cpp", "c++/triqs/utility/tuple_serialize.hpp", "c++/triqs/utility/variant_extensions.hpp", "c++/triqs/utility/function_arg_ret_type.hpp", "c++/triqs/utility/tuple_tools.hpp", "c++/triqs/utility/real_or_complex.hpp", "c++/triqs/utility/dressed_iterator.hpp", "c++/triqs/utility/factory.hpp", "c++/triqs/utility/lazy_bracket.hpp", "c++/triqs/utility/exceptions.hpp", "c++/triqs/utility/stack_trace.cpp", "c++/triqs/utility/timestamp.hpp", "c++/triqs/utility/crash_logger.hpp", "c++/triqs/mc_tools/mc_measure_aux_set.hpp"],
  [("Legendre transform", "legendre_T, legendre_t"), ("buffer", "buffered_function"), ("guards", "scope_guard")],
  "property-based testing of the compiled utilities (choice-sequence generator with shrinking, sanitizers) against quadrature, recurrences and models", "")

P("C39", "A run stops at its deadline or on a signal, and no signal is lost",
  "For every deadline, clock and interleaving, the stop condition of a run with a time limit becomes true exactly when the limit has elapsed, never for a run without limit, and copies of it agree; a timer reports exactly the time spent between its starts and stops. "
  "For every history of signals, queries and restarts, each signal received while the handler is active is recorded once, in order, and reported until it is removed.",
  ["histories", "schedules", "faults"], "all deadlines, clock histories, signal histories",
  "Real tests cannot wait hours nor enumerate arrivals of signals; here the clock is generated.",
  ["c++/triqs/utility/callbacks.cpp", "c++/triqs/utility/callbacks.hpp", "c++/triqs/utility/signal_handler.cpp", "c++/triqs/utility/signal_handler.hpp", "c++/triqs/utility/timer.hpp"],
  [("time limit", "clock_callback"), ("signals", "triqs::signal_handler"), ("timer", "utility::timer")],
  "model-based testing with a generated clock and real signals sent to the test process only", "Time comes from a replaced clock_gettime; the signals are sent by the process to itself.")
P("C40", "Objects cross the Python/C++ boundary unchanged",
  "A Green function, a family of them, a mesh or product of meshes, a mesh point, a frequency, a lattice point, an operator, a set of modes or a number taken from C++ to Python and back has the same mesh, names, values and type; a view shares its data with the other side, in both directions, and a function is independent of it. "
  "An object is accepted for conversion to a C++ type exactly if it has that kind, mesh, rank, number type and well-formed parts, and a refusal sets an error exactly when asked to. "
  "A conversion neither leaks nor drops references.",
  ["inputs", "histories"], "kinds of functions, meshes and targets, names, values, writes on both sides, malformed objects",
  "The combinations of types on both sides and the malformed objects a script can pass are too many for examples.",
  ["c++/triqs/cpp2py_converters"],
  [("functions", "cpp2py_converters/gf.hpp: gf, gf_view, gf_const_view"), ("families", "gf.hpp: block_gf_view, block2_gf_view"), ("meshes", "mesh.hpp: prod, mesh points, matsubara_freq, lattice points, statistic_enum, all_t"), ("operators", "operators_real_complex.hpp, fundamental_operator_set.hpp, real_or_complex.hpp")],
  "stateful property-based testing of the compiled converters in an embedded Python interpreter (choice-sequence generator with shrinking, sanitizers) against the object on the other side", "cpp2py and the NumPy converters of nda are not installed: stand-ins written from their documented interface; the wrapped meshes and lattices are stand-ins too, the Python layer and the converters are the real ones.")
P("C41", "Green functions are called close exactly when all their numbers are",
  "For every pair of functions, or families of functions with one or two block indices, and every precision, the closeness check accepts them if and only if the meshes, the target shapes and the names and numbers of blocks are the same and no number differs by more than the precision, whichever of them is a view and in whichever order they are given. "
  "A function holding a number that is not a number is not close to anything. "
  "What the test tools write to a file and read back is what was given.",
  ["inputs", "configurations"], "meshes of one to three variables, target shapes, precisions, differences around the precision, names and numbers of blocks",
  "Every other test relies on this check, and a check that accepts too much never fails by itself.",
  ["c++/triqs/gfs/gf_tests.hpp", "c++/triqs/test_tools/gfs.hpp", "c++/triqs/test_tools/arrays.hpp"],
  [("functions", "assert_gfs_are_close"), ("families", "assert_block_gfs_are_close, assert_block2_gfs_are_close"), ("file", "rw_h5")],
  "property-based testing of the compiled library (choice-sequence generator with shrinking, sanitizers) against the difference put in", SHIM_NOTE)
