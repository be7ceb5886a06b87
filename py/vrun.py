#!/usr/bin/python3
"""verif runner:  vrun.py <PROPERTY> [--replay FILE]    (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, HERE)
import engine
VERIF = os.path.dirname(HERE)


def load_known(prop):
    """known_findings.jsonl: {"property","id","kind":"finding"|"fixed", "what"}; a fixed entry suppresses nothing"""
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == prop and d.get("kind", "finding") == "finding":
                out[d["id"]] = d["what"]
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module("props." + prop.lower())
    known = load_known(prop)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(mod, prop, sys.argv[3])
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--unit" else None
    results = []
    try: scale = json.load(open(os.path.join(HERE, "scale.json")))  # how many times more cases the quick tier can afford, per unit (tools/scale.py)
    except OSError: scale = {}
    def more(name, n): return int(n * scale.get(prop + ":" + name, 1))
    if hasattr(mod, "CPP"):
        import cppengine
        cpp = [dict(u, n=(more(u["name"], u["n"][0]), max(u["n"][1], more(u["name"], u["n"][0])))) for u in mod.CPP if only is None or u["name"] == only]
        if cpp:
            results += cppengine.run(prop, cpp, seed, tier, set(known))
    if hasattr(mod, "units"):
        try:
            units = [u for u in mod.units() if only is None or u.name == only]
            for u in units: u.n_quick = more(u.name, u.n_quick); u.n_thorough = max(u.n_thorough, u.n_quick)
        except BaseException:
            units = []
            results.append({"unit": "load", "failed": False, "evals": 0, "skipped": 0, "distinct": 0, "samples": [], "rule": "",
                            "known": {}, "wall": 0, "inconclusive": "cannot load: " + traceback.format_exc()[-1500:]})
        results += engine.run_units(units, seed, tier, set(known))
    failed = [r for r in results if r["failed"]]
    ev = os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    lines = []
    for r in failed:
        p = os.path.join(ev, "replays", "%s-%s.json" % (prop, r["unit"].replace("/", "_")))
        with open(p, "w") as f:
            json.dump({"property": prop, "unit": r["unit"], "seed": seed, "case": r.get("case"), "error": r.get("err"), "trace": r.get("tb")}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, VERIF)))
    seen_known = {}
    for r in results:
        for k, v in r.get("known", {}).items():
            seen_known[k] = seen_known.get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append({"unit": r["unit"], "case": s})
    cov = {"evaluations": sum(r["evals"] for r in results), "distinct_nontrivial": sum(r["distinct"] for r in results),
           "rule": getattr(mod, "RULE", "") + " || per unit: " + "; ".join("%s: %s" % (r["unit"], r["rule"]) for r in results if r["rule"]),
           "samples": samples or ["none"],
           "units": [{k: r.get(k) for k in ("unit", "evals", "skipped", "distinct", "wall", "inconclusive", "failed", "known", "labels") if r.get(k) not in (None, {}, [])} for r in results],
           "known_findings_hit": seen_known}
    evid = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(failed)}
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, default=str)
    for k, what in known.items():
        print("KNOWN-FINDING: property=%s %s: %s (met %d times in this run)" % (prop, k, what, seen_known.get(k, 0)))
    for r in results:
        flag = "FAIL" if r["failed"] else ("INCONCLUSIVE" if r.get("inconclusive") else "ok")
        print("  %-32s %-12s evals=%d nontrivial=%d skipped=%d %.1fs" % (r["unit"], flag, r["evals"], r["distinct"], r["skipped"], r["wall"]))
        if r.get("inconclusive"):
            print("      inconclusive: " + r["inconclusive"].strip().replace("\n", "\n      ")[-1500:])
        if r["failed"]:
            print("      case: %s\n      error: %s" % ((r.get("case") or "")[:1500], (r.get("err") or "")[:1500]))
    for l in lines:
        print(l)
    print("%s: %d cases, %d non-trivial, %d violations, %.1fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], len(failed), time.time() - t0))
    sys.stdout.flush()
    return 1 if failed else 0


def replay(mod, prop, path):
    d = json.load(open(path))
    if hasattr(mod, "CPP") and d["unit"].split(":")[0] in [u["name"] for u in mod.CPP]:
        import cppengine
        return cppengine.replay(prop, mod.CPP, d)
    for u in mod.units():
        if u.name == d["unit"]:
            try:
                engine.replay_unit(u, d["case"])
            except engine.Skip:
                print("skipped"); return 0
            except BaseException:
                traceback.print_exc(); print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
            print("replay passed"); return 0
    print("no such unit"); return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc(); rc = 0
        # an error of the harness is never reported as a violation; evidence says so
        try:
            prop = sys.argv[1]
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
                           "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "harness error", "samples": [traceback.format_exc()[-800:]]},
                           "wall_s": 0, "violations": 0}, f)
        except Exception:
            pass
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
