"""Compiles the C++ properties of a check against the working tree and runs them (see cpp/vp.hpp).

A unit group: dict(name=<test>, src=<file in cpp/>, n=(quick, thorough), rule=..., srcs=[repo .cpp], shim=bool, libs=[], flags=[])
Groups sharing a source file are compiled once. A source that does not compile gives no verdict (inconclusive)."""
import os, sys, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-std=c++23", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]

def _dead(name, why, rule=""):
    return {"unit": name, "failed": False, "evals": 0, "skipped": 0, "distinct": 0, "samples": [], "rule": rule, "known": {}, "wall": 0, "inconclusive": why}

def _flags(u):
    inc = ["-I" + os.path.join(VERIF, "cpp")]
    if u.get("shim"): inc += ["-I" + os.path.join(VERIF, "shim"), "-isystem", "/usr/include/hdf5/serial"]
    inc += ["-I" + os.path.join(REPO, "c++"), "-I" + os.path.join(VERIF, "cpp", "gen")]
    f = BASE + u.get("flags", [])
    for r in u.get("drop", []): f = [x for x in f if x != r]
    return f + inc

def _key(u):  # a source may be compiled in parts (VP_PART) so that they compile in parallel
    return u["src"] + (":%d" % u["part"] if "part" in u else "")

def _compile(args):
    cmd, out = args
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return out, p.returncode, p.stdout.decode(errors="replace")[:200000], time.time() - t0
    except subprocess.TimeoutExpired:
        return out, -1, "compiler timeout", time.time() - t0

def build(groups, d):
    """{src: (binary or None, message)}; every object is compiled in parallel"""
    jobs, need = {}, {}
    for u in groups:
        key = _key(u)
        if key in need: continue
        fl = _flags(u); objs = []; part = ["-DVP_PART=%d" % u["part"]] if "part" in u else []
        for s in [os.path.join(VERIF, "cpp", u["src"])] + [s if s.startswith("/") else os.path.join(REPO, "c++/triqs", s) for s in u.get("srcs", [])]:
            f = fl + (part if not objs else [])
            h = hashlib.sha1((s + " ".join(f)).encode()).hexdigest()[:12]; o = os.path.join(d, h + ".o")
            jobs[o] = [CXX] + f + ["-c", s, "-o", o]; objs.append(o)
        need[key] = (objs, u.get("libs", []), [x for x in fl if x.startswith("-fsanitize")])
    with ThreadPoolExecutor(max_workers=7) as ex: done = {o: (rc, msg, t) for o, rc, msg, t in ex.map(_compile, [(c, o) for o, c in jobs.items()])}
    res = {}
    def link(item):
        key, (objs, libs, san) = item
        bad = [done[o] for o in objs if done[o][0] != 0]
        if bad: return key, None, bad[0][1]
        b = os.path.join(d, "bin_" + hashlib.sha1(key.encode()).hexdigest()[:10])
        o, rc, msg, t = _compile(([CXX] + san + objs + ["-o", b] + libs + ["-lpthread"], b))
        return key, (b if rc == 0 else None), msg
    with ThreadPoolExecutor(max_workers=7) as ex:
        for key, b, msg in ex.map(link, need.items()): res[key] = (b, msg)
    return res, {o: done[o][2] for o in done}

def _env(d):
    e = dict(os.environ); e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=d, TMPDIR=d)
    e.pop("ASAN_OPTIONS", None); e.pop("UBSAN_OPTIONS", None)
    return e

def run(prop, groups, seed, tier, known):
    d = tempfile.mkdtemp(prefix="verif_cpp_"); out = []
    try:
        bins, _ = build(groups, d)
        budget = 90 if tier == "quick" else 1200
        told = set()
        for u in groups:
            b, msg = bins[_key(u)]
            if b is None:
                err = [l for l in msg.splitlines() if "error" in l or "undefined" in l]
                out.append(_dead(u["name"], "does not compile with the stand-ins" + (": " + " | ".join(err)[:400] if _key(u) not in told else ""), u.get("rule", "")))
                told.add(_key(u)); continue
            n = u["n"][1 if tier == "thorough" else 0]
            cmd = [b, "--test", u["name"], "--seed", str(seed), "--n", str(n), "--jobs", str(u.get("jobs", 8)), "--budget", str(budget), "--tmp", d, "--known", ",".join(sorted(known))]
            try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=(300 if tier == "quick" else 2400), env=_env(d), cwd=d)
            except subprocess.TimeoutExpired: out.append(_dead(u["name"], "time limit of the runner", u.get("rule", ""))); continue
            try: r = json.loads(p.stdout.decode())
            except Exception: out.append(_dead(u["name"], "runner: " + (p.stdout + p.stderr).decode(errors="replace")[-800:], u.get("rule", ""))); continue
            r["rule"] = u.get("rule", "")
            if r["failed"]: r["tb"] = r.pop("text"); r["err"] = r["err"] + " || " + r["tb"][:600]
            else: r.pop("text", None)
            if not r["labels"]: r.pop("labels")
            out.append(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

def replay(prop, groups, r):
    d = tempfile.mkdtemp(prefix="verif_cpp_")
    try:
        u = [u for u in groups if u["name"] == r["unit"]][0]
        bins, _ = build([u], d); b, msg = bins[_key(u)]
        if b is None: print("does not compile: " + msg[:3000]); return 0
        p = subprocess.run([b, "--test", u["name"], "--replay", r["case"], "--tmp", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(d), cwd=d)
        print(p.stdout.decode(errors="replace"))
        if p.returncode == 1: print("VIOLATION property=%s unit=%s (replayed)" % (prop, u["name"])); return 1
        print("replay passed"); return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
