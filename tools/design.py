"""Writes the table part of DESIGN.md from props.py, gen.py, the seeded
results (tools/catches.json) and tools/design_head.md, design_tail.md."""
import json, os, sys, glob
H = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS
from gen import CHECKS
out = [open(H + "/design_head.md").read()]
for p in PROPS:
    c = CHECKS[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    doc = __import__("re").findall
    out.append("* Decided by: %s." % c["technique"])
    out.append("* Explored and compared: %s." % c["rule"])
    out.append("* Bounds: quick: %s. Thorough: %s." % (c["quick"], c["thorough"]))
    out.append("* Strength: %s" % c["note"])
    src = open(ROOT + "/mc/checks/%s.py" % p["id"].lower()).read()
    import ast
    tree = ast.parse(src)
    docs = {f.name: ast.get_docstring(f) for f in tree.body if isinstance(f, ast.FunctionDef)}
    sec = [x for x in tree.body if isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "") == "SECTIONS"]
    for t in sec[-1].value.elts:
        name, fn, modes = t.elts[0].value, t.elts[1].id, [m.value for m in t.elts[2].elts]
        d = " ".join((docs.get(fn) or "").split())
        out.append("  - section `%s` (%s)%s" % (name, ", ".join(modes), ": " + d if d else ""))
    e = ROOT + "/tools/costs.json"
    if os.path.exists(e):
        k = json.load(open(e)).get(p["id"])
        if k:
            out.append("* Cost of quick on 8 cores: about %d s, %s executions, %s transitions, %s states." % (
                round(k["wall"]), format(k["executions"], ","), format(k["transitions"], ","), format(k["states"], ",")))
    out.append("")
out.append(open(H + "/design_tail.md").read())
cat = json.load(open(H + "/catches.json")) if os.path.exists(H + "/catches.json") else {}
out.append("## 6. Planted bugs and what catches them\n")
out.append("Each lies in seeded/<id>/ and was written from the property text and the code. 'caught' is the outcome of the property's own quick check.\n")
out.append("| bug | property | needs | outcome |\n|---|---|---|---|")
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), cat.get(i, "not yet run")))
out.append("")
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
