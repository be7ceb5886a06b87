"""parts.py FILE test=k ... : wraps each test of a C++ source in the guard of its part"""
import sys, re
p = sys.argv[1]; part = dict(a.split("=") for a in sys.argv[2:])
L = [l for l in open(p).read().split("\n") if not l.startswith("#if !defined(VP_PART)") and not l.startswith("#endif // part")]
out, inside = [], False
top = re.compile(r"VP_TEST\(|template|static|struct|//|using|namespace|#")
for l in L:
    if inside and (top.match(l) or l == ""):
        out.append("#endif // part"); inside = False
    m = re.match(r"VP_TEST\((\w+)\)", l)
    if m and m.group(1) in part: out.append("#if !defined(VP_PART) || VP_PART == %s" % part[m.group(1)]); inside = True
    out.append(l)
if inside: out.append("#endif // part")
open(p, "w").write("\n".join(out))
