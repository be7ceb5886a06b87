#!/usr/bin/python3
"""recheck.py IN OUT PROP... : apply the surviving changes of a mutate.py file again (matched by text and line) and run the given properties, or all that list the file, on them."""
import sys, json, os, subprocess, tempfile, shutil
sys.argv, V = sys.argv, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); import props_table
def files_of(p):
    out = []
    for f in [t for t in props_table.PROPS if t["id"] == p][0]["files"]:
        q = "/repo/" + f
        out += [os.path.relpath(os.path.join(r, y), "/repo") for r, _, x in os.walk(q) for y in x] if os.path.isdir(q) else [f]
    return out
allf = {t["id"]: files_of(t["id"]) for t in props_table.PROPS}
done = set(open(sys.argv[2]).read().split("\n")) if os.path.exists(sys.argv[2]) else set()
done = {(json.loads(l)["f"], json.loads(l)["new"]) for l in done if l}
d = tempfile.mkdtemp(prefix="mutw_"); r, v = d + "/repo", d + "/verif"
subprocess.check_call(["git", "clone", "-q", "/repo", r]); shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded"))
try:
    for l in open(sys.argv[1]):
        m = json.loads(l)
        if m["st"] != "survived" or (m["f"], m["new"]) in done: continue
        t = open(r + "/" + m["f"]).read(); L = t.split("\n")
        c = [i for i, x in enumerate(L) if x.strip() == m["old"]]
        if not c: print("gone", m["f"], m["old"]); continue
        i = min(c, key=lambda i: abs(i + 1 - m["line"])); L[i] = L[i][:len(L[i]) - len(L[i].lstrip())] + m["new"]
        open(r + "/" + m["f"], "w").write("\n".join(L)); st = "survived"
        for p in (sys.argv[3:] or [m["p"]] + [p for p in allf if m["f"] in allf[p] and p != m["p"]]):
            q = subprocess.run(["python3", "py/vrun.py", p], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode == 1: st = "caught by " + p; break
        open(r + "/" + m["f"], "w").write(t)
        open(sys.argv[2], "a").write(json.dumps(dict(m, st=st)) + "\n"); print(st, m["f"], m["line"], m["new"][:100], flush=True)
finally: shutil.rmtree(d, ignore_errors=True)
