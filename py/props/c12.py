"""The porting tool renames the old interface in a source tree and changes nothing else."""
import sys, os, io, shutil, tempfile, warnings
import hypothesis.strategies as st
import engine
from engine import Unit, require, Violation, Skip, Inconclusive
RULE = "generated source trees of old-interface lines among near-misses and unrelated text; oracle: an independent table of the renamed names, line by line, and the bytes of all other files"
TOOL = os.path.join(engine.REPO, "porting_tools/port_to_triqs3")
# old line -> new line; {a} {b} stand for generated identifiers
PY = [("from pytriqs.gf.local import {a}, {b}", "from triqs.gf import {a}, {b}"), ("from pytriqs.gf import {a}", "from triqs.gf import {a}"), ("import pytriqs.utility.mpi as {a}", "import triqs.utility.mpi as {a}"),
      ("from pytriqs.archive import HDFArchive", "from h5 import HDFArchive"), ("from pytriqs.archive.hdf_archive import HDFArchive", "from h5.archive import HDFArchive"), ("import pytriqs.archive.hdf_archive as {a}", "import h5.archive as {a}"),
      ("from pytriqs.archive.hdf_archive_schemes import register_class", "from h5.formats import register_class"), ("{a}.set_from_inverse_fourier({b})", "{a}.set_from_fourier({b})"), ("{a} << InverseFourier({b})", "{a} << Fourier({b})"),
      ("{a} = make_gf_from_inverse_fourier({b})", "{a} = make_gf_from_fourier({b})"), ("from pytriqs.statistics.histograms import Histogram", "from triqs.stat.histograms import Histogram"), ("{a} = MeshBrillouinZone({b}, 4)", "{a} = MeshBrZone({b}, 4)"),
      ("{a} = MeshCyclicLattice({b})", "{a} = MeshCycLat({b})"), ("{a} = {b}.locate_neighbours(k)", "{a} = {b}.closest_index(k)"), ("{a} = {b}.latt_to_real_x(r)", "{a} = {b}.lattice_to_real_coordinates(r)"), ("print({a}.linear_dims)", "print({a}.dims)"),
      ("{a} = {b}.mesh.omega_min() + {b}.mesh.omega_max()", "{a} = {b}.mesh.w_min() + {b}.mesh.w_max()"), ("{a} = {b}.mesh.x_min() + {b}.mesh.x_max()", "{a} = {b}.mesh.t_min() + {b}.mesh.t_max()"), ("{a} = [p.linear_index for p in {b}.mesh]", "{a} = [p.data_index for p in {b}.mesh]")]
CC = [("#include <triqs/h5/serialization.hpp>", "#include <h5/serialization.hpp>"), ("#include <triqs/h5.hpp>", "#include <h5/h5.hpp>"), ("#include <triqs/h5/{a}.hpp>", "#include <h5/h5.hpp>"), ("#include <triqs/utility/variant.hpp>", "#include <variant>"),
      ("#include <cpp2py.hpp>", "#include <cpp2py/cpp2py.hpp>"), ("static std::string hdf5_scheme() {{ return \"{a}\"; }}", "static std::string hdf5_format() {{ return \"{a}\"; }}"), ("auto s = \"TRIQS_HDF5_data_scheme\";", "auto s = \"Format\";"),
      ("triqs::h5::file {a}(\"{b}.h5\", H5F_ACC_TRUNC);", "h5::file {a}(\"{b}.h5\", 'w');"), ("h5::file {a}(\"{b}.h5\", H5F_ACC_RDWR);", "h5::file {a}(\"{b}.h5\", 'a');"), ("h5::file {a}(\"{b}.h5\", H5F_ACC_RDONLY);", "h5::file {a}(\"{b}.h5\", 'r');"),
      ("#include <triqs/gfs/meshes/{a}.hpp>", "#include <triqs/mesh/{a}.hpp>"), ("#include <triqs/gfs/meshes.hpp>", "#include <triqs/mesh.hpp>"), ("using {a} = G::variable_t;", "using {a} = G::mesh_t;"), ("gf<cartesian_product<imfreq, imfreq>> {a};", "gf<prod<imfreq, imfreq>> {a};"),
      ("gf<brillouin_zone, matrix_valued> {a};", "gf<brzone, matrix_valued> {a};"), ("gf<cartesian_product<brillouin_zone, imfreq>> {a};", "gf<prod<brzone, imfreq>> {a};"), ("gf_mesh<brillouin_zone> {a};", "mesh::brzone {a};"), ("gf_mesh<imfreq> {a}(beta, Fermion, 5);", "mesh::imfreq {a}(beta, Fermion, 5);"),
      ("auto {a} = gf_mesh{{m1, m2}};", "auto {a} = mesh::prod{{m1, m2}};"), ("gf<cyclic_lattice> {a};", "gf<cyclat> {a};"), ("{a}[gf_closest_point(k)] = 2;", "{a}[closest_point(k)] = 2;"), ("auto {a} = matsubara_mesh_opt::all_frequencies;", "auto {a} = imfreq::option::all_frequencies;"),
      ("auto {a} = {b}.get_dimensions();", "auto {a} = {b}.dims();"), ("#include <triqs/statistics/histograms.hpp>", "#include <triqs/stat/histograms.hpp>"), ("triqs::statistics::histogram {a};", "triqs::stat::histogram {a};"),
      ("#include <triqs/clef.hpp>", "#include <nda/clef.hpp>"), ("#include <triqs/arrays.hpp>", "#include <nda/nda.hpp>"), ("#include <triqs/arrays/array.hpp>", "#include <nda/nda.hpp>"), ("#include <triqs/arrays/linalg/det_and_inverse.hpp>", "#include <nda/linalg.hpp>"), ("#include <triqs/arrays/{a}.hpp>", "#include <nda/{a}.hpp>"),
      ("#include <triqs/arrays/blas_lapack/dot.hpp>", "#include <nda/blas/dot.hpp>"), ("TRIQS_CLEF_IMPLEMENT_LAZY_METHOD({a}, {b});", "CLEF_IMPLEMENT_LAZY_METHOD({a}, {b});"), ("triqs::clef::placeholder<0> {a};", "nda::clef::placeholder<0> {a};"), ("triqs::utility::mini_vector<long, 3> {a};", "std::array<long, 3> {a};"), ("mini_vector<int, 2> {a};", "std::array<int, 2> {a};"),
      ("long {a} = first_dim({b});", "long {a} = {b}.shape()[0];"), ("long {a} = second_dim({b}());", "long {a} = {b}().shape()[1];"), ("long {a} = first_dim({b}.data());", "long {a} = {b}.data().shape()[0];"), ("double *{a} = {b}.data_start();", "double *{a} = {b}.data();"),
      ("for (int i = 0; i < first_dim({a}); ++i) {b}(f(i));", "for (int i = 0; i < {a}.shape()[0]; ++i) {b}(f(i));"), ("array<double, 2> {a}(first_dim({b}), second_dim({b}));", "array<double, 2> {a}({b}.shape()[0], {b}.shape()[1]);"), ("auto {a} = f(second_dim({b}), g(h(1)));", "auto {a} = f({b}.shape()[1], g(h(1)));"),
      ("auto {a} = make_unit_matrix<double>(3);", "auto {a} = nda::eye<double>(3);"), ("auto {a} = triqs::arrays::dot(x, {b});", "auto {a} = nda::blas::dot(x, {b});"), ("triqs::arrays::matrix<double> {a};", "nda::matrix<double> {a};"), ("auto {a} = conj_r({b});", "auto {a} = conj({b});"), ("template <typename T> REQUIRES(is_{a}<T>)", "template <typename T> requires(is_{a}<T>)"),
      ("auto {a} = {b}(range(), 0);", "auto {a} = {b}(range::all, 0);"), ("auto {a} = {b}(0, range{{}});", "auto {a} = {b}(0, range::all);"), ("auto {a} = x.linear_index();", "auto {a} = x.data_index();"), ("static_assert(is_product_v<{a}>);", "static_assert(is_product<{a}>);"),
      ("for (auto const &{a} : {b}.mesh()) f({a});", "for (auto {a} : {b}.mesh()) f({a});"), ("for (auto &{a} : mesh) f({a});", "for (auto {a} : mesh) f({a});"), ("for (auto const & {a} : std::get<0>({b}.mesh())) f({a});", "for (auto {a} : std::get<0>({b}.mesh())) f({a});"),
      ("h5_try_read(g, \"{a}\", {b});", "h5::try_read(g, \"{a}\", {b});"), ("double {a} = {b}.mesh().domain().beta;", "double {a} = {b}.mesh().beta();"), ("auto {a} = {b}.mesh().domain().statistic;", "auto {a} = {b}.mesh().statistic();"), ("auto {a} = reshaped_view({b}, make_shape(4));", "auto {a} = reshape({b}, make_shape(4));")]
TXT = [("set(PYTHON_INTERPRETER {a})", "set(PYTHON_EXECUTABLE {a})")]
# lines nothing has to be done about
GFS, MESH = "#include <triqs/gfs.hpp>", "#include <triqs/mesh.hpp>"     # the first now needs the second, once
KEEP = [GFS, "", "import numpy as np", "x = {a}.dims", "for i in range(3): pass", "def {a}({b}): return {b}", "# {a}: caf\u00e9 \u03b2", "from triqs.gf import {a}", "from h5.archive import HDFArchive", "auto {a} = {b}(range::all);", "for (auto &x : {a}) x = f(mesh);",
        "for (auto const &x : {a}) s += x; // all of them", "#include <triqs/mesh.hpp>", "#include <nda/nda.hpp>", "long {a} = {b}.shape()[0];", "{a} = {b} / 2", "int first = 0, second = dim({a});", "  {a}.mesh.beta", "conj({a})", "h5::read(g, \"{a}\", {b});", "\tif ({a}) {{ return f({b}(1), g(2)); }}", "$\\beta$ & {a} \\\\"]
IDS = ["x", "g_iw", "foo", "B1", "data", "tau_max", "k2", "Sigma"]
EXT = [".py", ".py.in", ".ipynb", ".cpp", ".hpp", ".cxx", ".rst", ".txt"]
OTHER = [".dat", ".h5", ".md", ".sh", ".c", ".pyc", ".cpp~", ""]
STEM = ["main", "report", "port", "import", "transport", "CMakeLists", "a.b", "x-y", "test_port", "my.git", "dmft_loop"]
DIRS = ["", "src", "py", "a/b", "lib.port.py", "x.git", ".github", "deep/er/still"]

TAIL = ["", "", "  // see {a}.hpp)", "  # mesh > {b}()", "  /* (x) : y) */"]

def render(lines, new, nl_end):
    old, out = [], []
    for i, a, b in lines:
        t = KEEP[-1 - i] if i < 0 else (PY + CC + TXT)[i]
        old.append((t if i < 0 else t[0]).format(a=IDS[a], b=IDS[b]))
        out.append((t if i < 0 else t[1 if new else 0]).format(a=IDS[a], b=IDS[b]) + (TAIL[(a + 2 * b) % 5].format(a=IDS[a], b=IDS[b]) if i >= 0 else ""))
    if new:
        for k in reversed(range(len(out))):
            if old[k] == GFS and (k + 1 < len(out) or nl_end) and old[k + 1:k + 2] != [MESH]: out.insert(k + 1, MESH)
    return out

def run_tool(top):
    """the tool runs as an unprivileged user, which can write nowhere but in the scratch tree"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); msg = b""
            try:
                os.setgroups([]); os.setgid(65534); os.setuid(65534); os.chdir(top); warnings.simplefilter("ignore"); sys.argv[:] = [TOOL]
                exec(compile(SRC, TOOL, "exec"), {"__name__": "__main__", "__file__": TOOL})
            except SystemExit as e:
                if e.code: msg = b"exit " + repr(e.code).encode()
            except BaseException as e: msg = (type(e).__name__ + ": " + str(e)).encode()
            os.write(w, msg[:1000])
        finally: os._exit(0)
    os.close(w); out = b""
    while True:
        b = os.read(r, 4096)
        if not b: break
        out += b
    os.close(r); os.waitpid(pid, 0)
    return out.decode(errors="replace")
SRC = open(TOOL).read()

def tree(top):
    return {os.path.relpath(os.path.join(d, f), top): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(top) for f in fs}

def u_tree(case):
    files, where, last = case
    base = tempfile.mkdtemp(prefix="port_"); top = os.path.join(base, where) if where else base
    try:
        os.makedirs(top, exist_ok=True); want = {}; nt = 0
        outside = os.path.join(base, "outside.py") if where else None
        if outside: open(outside, "wb").write(b"import pytriqs\n")
        for d, stem, ext, lines, crlf, enc, nl_end in files:
            name = stem + ext; p = os.path.join(top, d, name); rel = os.path.join(d, name)
            if rel in want: continue
            nl = "\r\n" if crlf else "\n"; ported = ext in EXT and not name == "port.py" and ".git" not in d.split("/")
            def enc_(ls): t = nl.join(ls) + (nl if nl_end else ""); return t.encode("latin-1", "replace") if enc == "latin-1" else t.encode("utf-8")
            os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "wb").write(enc_(render(lines, False, nl_end))); want[rel] = enc_(render(lines, ported, nl_end))
        if last and want: os.makedirs(os.path.join(top, ".git"), exist_ok=True); open(os.path.join(top, ".git", "hook.py"), "wb").write(b"import pytriqs\n"); want[".git/hook.py"] = b"import pytriqs\n"
        for d, ds, fs in os.walk(base):
            for x in [d] + [os.path.join(d, f) for f in fs]: os.chown(x, 65534, 65534)
        for k in range(2):
            e = run_tool(top); got = tree(top)
            require(e == "", "the tool fails", err=e, run=k)
            require(sorted(got) == sorted(want), "files of the tree", got=sorted(got), want=sorted(want))
            for rel in want: require(got[rel] == want[rel], "text of %s after %s" % (rel, ["the first run", "a second run"][k]), got=got[rel], want=want[rel])
            if outside: require(open(outside, "rb").read() == b"import pytriqs\n", "a file outside the tree")
    finally: shutil.rmtree(base, ignore_errors=True)

def u_names(case):
    """every renamed name, alone in a file"""
    i, a, b, ext, crlf = case
    u_tree((((("", "main", EXT[ext], ((i, a, b),), crlf, "utf-8", True)),), "", False))

def units():
    n = len(PY) + len(CC) + len(TXT); ids = st.integers(0, len(IDS) - 1)
    line = st.tuples(st.one_of(st.integers(0, n - 1), st.integers(-len(KEEP), -1), st.sampled_from([-1 - KEEP.index(GFS), -1 - KEEP.index(MESH)])), ids, ids)
    f = st.tuples(st.sampled_from(DIRS), st.sampled_from(STEM), st.sampled_from(EXT * 2 + OTHER), st.lists(line, max_size=8).map(tuple), st.sampled_from([False, False, True]), st.sampled_from(["utf-8", "utf-8", "latin-1"]), st.booleans())
    old = lambda c: any(l[0] >= 0 and x[2] in EXT for x in c[0] for l in x[3])
    return [Unit("trees", st.tuples(st.lists(f, min_size=1, max_size=5).map(tuple), st.sampled_from(["", "", "proj", "proj.git/src", "x.port.py/y"]), st.booleans()), u_tree, 600, 6000, old, "some file has a line of the old interface"),
            Unit("names", st.tuples(st.integers(0, n - 1), ids, ids, st.integers(0, len(EXT) - 1), st.booleans()), u_names, 600, 6000, lambda c: True, "always")]
