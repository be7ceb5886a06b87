"""Writes DESIGN.md from the text below, props_table.py, known_findings.jsonl and seeded/*/meta.json"""
import json, os, glob, re, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE)
HEAD = open("design_head.md").read()
TAIL = open("design_tail.md").read()
D = {}
for blk in re.split(r"^## ", open("design_props.md").read(), flags=re.M)[1:]:
    i, t = blk.split("\n", 1); D[i.strip()] = t.strip()
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
out = [HEAD.rstrip(), "", "## 4. Property by property", ""]
for p in props:
    out += ["### %s %s" % (p["id"], p["title"]), "", D.get(p["id"], "(to be written)"), ""]
miss = [p["id"] for p in props if p["id"] not in D]
out += ["## 5. Planted bugs and what catches them", "",
        "Each lies in `seeded/<id>/` (patch.diff, demo.sh with its files, meta.json); `tools/seeds.py` regenerates the patches from `tools/seed_table.py` and confirms that each applies, builds, passes the stable tests, fails its demonstration and is reported by the check of its property.", "",
        "| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); out.append("| %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
out += ["", open("design_seeds.md").read().strip(), "", "## 6. Defects found in TRIQS and repaired", ""]
out.append("All are recorded in `known_findings.jsonl`. Every repair is one `fix:` commit in /repo; the check named in front reports the defect again if it returns.\n")
for l in open("known_findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l); out.append("* %s (%s): %s" % m.groups())
out += ["", "Recorded as known findings, not repaired:", ""]
for l in open("known_findings.jsonl"):
    if l.startswith("{"):
        d = json.loads(l)
        if d.get("kind") == "finding": out.append("* %s `%s`: %s" % (d["property"], d["id"], d["what"]))
out += ["", TAIL.rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
print("DESIGN.md:", len(props), "properties;", "missing " + " ".join(miss) if miss else "all described")
