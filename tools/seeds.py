#!/usr/bin/python3
"""Writes /verif/seeded/<id>/ from the table below: seeds.py [ID...].  Patches are made against HEAD of /repo."""
import os, sys, json, shutil, subprocess, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"; BASE = "bbed3d0"
SEEDS = {}
def S(id, prop, file, edits, needs, breaks, py=None, cpp=None, stubs=False, srcs=(), flags="", shim=False):
    SEEDS[id] = dict(prop=prop, file=file, edits=edits if isinstance(edits, list) else [edits], needs=needs, breaks=breaks, py=py, cpp=cpp, stubs=stubs, srcs=srcs, flags=flags, shim=shim)
exec(open(os.path.join(V, "tools", "seed_table.py")).read())

def git(*a): return subprocess.run(["git", "-C", R] + list(a), stdout=subprocess.PIPE, check=True).stdout.decode()
def make(id):
    s = SEEDS[id]; d = os.path.join(V, "seeded", id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    files = {}
    for e in s["edits"]:
        f, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
        cur = files.setdefault(f, [git("show", "HEAD:" + f)] * 2)
        assert cur[1].count(old) == 1, (id, f, "found %d times" % cur[1].count(old), old)
        base = git("show", BASE + ":" + f)
        files[f] = [cur[0], cur[1].replace(old, new)]
        bl = set(base.splitlines())
        for l in difflib.ndiff(cur[0].splitlines(), files[f][1].splitlines()):
            if l.startswith("- ") and l[2:].strip(): assert l[2:] in bl, (id, "not an original line: " + l)
    diff = ""
    for f, (a, b) in files.items():
        diff += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh = '#!/bin/bash\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"\n'
    if s["cpp"]:
        open(os.path.join(d, "demo.cpp"), "w").write(s["cpp"].strip() + "\n")
        inc = lib = ""
        if s["shim"]: # stand-ins of the missing libraries, beside the demonstration
            shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"), ignore=shutil.ignore_patterns("cpp2py", "nda_py")); inc = '-I"$D/shim" -isystem /usr/include/hdf5/serial'; lib = "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lfftw3 -llapack -lblas -lfmt -lgmp -lpthread"
        sh += 'T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -std=c++%s -O%d -w %s %s -I"$PWD/c++" "$D/demo.cpp" %s -o "$T/demo" %s\nOMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 "$T/demo"\n' % ("23" if inc else "20", 0 if inc else 1, s["flags"], inc, " ".join('"$PWD/c++/triqs/%s"' % x for x in s["srcs"]), lib)
    else:
        open(os.path.join(d, "demo.py"), "w").write(s["py"].strip() + "\n")
        if s["stubs"]: shutil.copytree(os.path.join(V, "py", "stubs"), os.path.join(d, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
        sh += 'export PYTHONDONTWRITEBYTECODE=1 VERIF_REPO="$PWD" OMP_NUM_THREADS=1\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT; R="$PWD"; cd "$T"\n/usr/bin/python3 "$D/demo.py" "$R"\n'
    p = os.path.join(d, "demo.sh"); open(p, "w").write(sh); os.chmod(p, 0o755)

def check(id, run=True):
    """unchanged: demo 0; patched: build, demo nonzero, check exit 1"""
    d = os.path.join(V, "seeded", id); w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True, check=True)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.run(["git", "init", "-q", w]); subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = "%s demo: clean %d patched %d" % (id, r0.returncode, r1.returncode)
        if r0.returncode: out += "\n" + r0.stdout.decode()[-600:]
        if run:
            e = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"); prop = SEEDS[id]["prop"]
            r = subprocess.run(["python3", V + "/py/vrun.py", prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
            t = r.stdout.decode(); out += "  %s exit %d %s" % (prop, r.returncode, [l.split()[0] for l in t.splitlines() if " FAIL " in l])
        print(out, flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; run = "--nocheck" not in a; ids = [x for x in a if not x.startswith("-")] or sorted(SEEDS)
    for i in ids: make(i)
    if "--only" not in a:
        for i in ids: check(i, run)
