#!/usr/bin/python3
"""Sets py/scale.json from the evidence of a quick run: units that take little time get more cases (C++ to about 4 s on all cores, Python to about 15 s on one)."""
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/py/scale.json"
old = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    d = json.load(open(f))
    if d["tier"] != "quick": continue
    P = d["property"]; us = d["coverage"]["units"]; cpp = P >= "C20" and P <= "C39"
    if len(sys.argv) > 1 and P not in sys.argv[1:]: continue
    tot = sum(u.get("wall", 0) for u in us) + 1e-9
    room = max(4.0, 40. / len(us)) if cpp else 6.
    if cpp: room = min(room, 4.)
    for u in us:
        k = P + ":" + u["unit"]; w = u.get("wall", 0) / old.get(k, 1); f = min(20 if cpp else 6, room / max(w, 0.05))
        if cpp and f * w > 40. / len(us): f = max(1, 40. / len(us) / max(w, 0.05)) if w > 0.05 else f
        if f >= 1.5: old[k] = float("%.2g" % f)
        else: old.pop(k, None)
json.dump(old, open(p, "w"), indent=0, sort_keys=True)
print(len(old))
