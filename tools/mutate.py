#!/usr/bin/python3
"""mutate.py OUT PROP... [--n K] [--seed S] [--workers W] : random single-line changes of the files a property is anchored in.
Each is applied in a scratch copy of /repo's sources, the check is run on it; survivors are listed for reading. A development tool, no check uses it."""
import warnings; warnings.simplefilter("ignore")
import sys, os, re, random, json, subprocess, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
import threading
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("props", nargs="+"); ap.add_argument("--n", type=int, default=15); ap.add_argument("--seed", type=int, default=0); ap.add_argument("--workers", type=int, default=3); ap.add_argument("--files", default="")
A = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
sys.path.insert(0, V)
def files_of(p):
    if A.files: return A.files.split(",")
    import props_table
    fs = [t for t in props_table.PROPS if t["id"] == p][0]["files"]
    out = []
    for f in fs:
        q = "/repo/" + f
        if os.path.isdir(q):
            for r, _, x in os.walk(q): out += [os.path.relpath(os.path.join(r, y), "/repo") for y in x if re.search(r"\.(hpp|cpp|hxx|py)$", y) and not y.endswith("_desc.py")]
        elif os.path.exists(q): out.append(f)
    return sorted(set(out))
R = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="),
     (r" && ", " || "), (r" \|\| ", " && "), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"!(?=[a-zA-Z(])", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"),
     (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\bconj\(", "("), (r"\breal\(", "imag("), (r"\bimag\(", "real("), (r"\bfloor\b", "ceil"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\babs\(", "("), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\[i\]", "[0]"), (r"\+\+(?=[a-z])", "--"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\bFermion\b", "Boson"), (r"-1\b", "1"), (r"(?<=[=(,] )-(?=[a-z(])", "")]
def mutants(f):
    L = open("/repo/" + f, errors="replace").read().split("\n"); out = []; com = False; doc = False; py = f.endswith(".py")
    for k, l in enumerate(L):
        s = l.strip()
        if py:
            n = s.count('"""') + s.count("'''")
            if n % 2: doc = not doc; continue
            if doc or n or s.startswith(("#", "import", "from", "@", "print", "raise", "warn", "def ", "class ")) or not s: continue
        else:
            if s.startswith("/*"): com = True
            if com:
                if "*/" in s: com = False
                continue
            if not s or s.startswith(("//", "*", "#", "using", "template", "static_assert", "requires", "namespace", "struct", "class", "friend", "throw")) or "TRIQS_RUNTIME_ERROR" in s and not s.startswith("if") or "static_assert" in s: continue
        code = re.split(r"#" if py else r"//", l)[0]
        code_ns = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group()), code)
        for a, b in R:
            for m in re.finditer(a, code_ns): out.append((k, l[:m.start()] + b + l[m.end():]))
        if s.endswith(";") and not s.startswith(("return", "auto", "const", "}", "int ", "long ", "double ", "bool ", "typename", "std::", "static", "mutable", "public")) and code.count("(") == code.count(")"): out.append((k, re.match(r"\s*", l).group() + ";"))
        if py and re.match(r"[\w.\[\]]+(\(.*\)| [+\-*]?= .*)$", s) and s.count("(") == s.count(")"): out.append((k, re.match(r"\s*", l).group() + "pass"))
        m = re.match(r"(\s*(?:else )?if \()(.*)(\)\s*\{?.*)$", l)
        if m and not py and "constexpr" not in l and code.count("(") == code.count(")"): out.append((k, re.sub(r"if \(", "if (true or ", l, count=1))); out.append((k, re.sub(r"if \(", "if (false and ", l, count=1)))
    if py:
        def ok(k, x):
            try: compile("\n".join(L[:k] + [x] + L[k + 1:]), f, "exec"); return True
            except SyntaxError: return False
        out = random.Random(0).sample(out, min(len(out), 400)); out = [(k, x) for k, x in out if ok(k, x)]
    return [(f, k, L[k], x) for k, x in out]
import props_table
all_props = [t["id"] for t in props_table.PROPS]; all_files = {p: files_of(p) for p in all_props}
lock = threading.Lock(); os.makedirs(os.path.dirname(A.out) or ".", exist_ok=True)
def work(w, jobs):
    d = tempfile.mkdtemp(prefix="mutw_"); v = d + "/verif"; r = d + "/repo"
    subprocess.check_call(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", V + "/", v]) if shutil.which("rsync") else shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded"))
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    try:
        while True:
            with lock:
                if not jobs: return
                p, (f, k, old, new) = jobs.pop()
            t = open(r + "/" + f, errors="surrogateescape").read(); L = t.split("\n"); L[k] = new; open(r + "/" + f, "w", errors="surrogateescape").write("\n".join(L))
            others = [o for o in all_props if o != p and f in all_files[o]]; by = p
            for p1 in [p] + others:
              by = p1
              try:
                q = subprocess.run(["bash", "-c", "ulimit -v unlimited; exec python3 py/vrun.py " + p1], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                o = q.stdout.decode(errors="replace"); st = "caught" if q.returncode == 1 else ("survived" if q.returncode == 0 else "rc%d" % q.returncode)
                if st == "survived":
                    e = json.load(open(v + "/evidence/%s.json" % p1)); inc = re.findall(r"does not compile[^\"]*|cannot load[^\"]*|Error[^\"]*", json.dumps(e))
                    if "does not compile" in json.dumps(e) or "cannot load" in json.dumps(e) : st = "nocompile"
                    elif "inconclusive" in json.dumps(e) and re.search(r'"inconclusive": "', json.dumps(e)): st = "inconclusive"
              except subprocess.TimeoutExpired: st = "timeout"; o = ""
              if st in ("caught", "nocompile"): break
            open(r + "/" + f, "w", errors="surrogateescape").write(t)
            with lock: open(A.out, "a").write(json.dumps(dict(p=p, by=by, st=st, f=f, line=k + 1, old=old.strip(), new=new.strip())) + "\n")
    finally: shutil.rmtree(d, ignore_errors=True)
rnd = random.Random(A.seed); jobs = []
for p in A.props:
    c = [m for f in files_of(p) for m in mutants(f)]; rnd.shuffle(c); seen = set(); n = 0
    for m in c:
        if (m[0], m[1]) in seen: continue
        seen.add((m[0], m[1])); jobs.append((p, m)); n += 1
        if n >= A.n: break
    print(p, len(c), "candidates")
rnd.shuffle(jobs)
with ThreadPoolExecutor(A.workers) as ex: list(ex.map(lambda w: work(w, jobs), range(A.workers)))
