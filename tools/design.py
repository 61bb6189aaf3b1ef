"""Rewrites the part of DESIGN.md after '<!-- generated -->' from properties.jsonl, the harnesses, known_findings.jsonl and seeded/."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
mods = json.load(open("vf/modules.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
na = {n["property"]: n["reason"] for n in json.load(open("MANIFEST.json"))["not_applicable"]}
har = {}
for f in sorted(glob.glob("harness/*.py")):
    for n in ast.parse(open(f).read()).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                b = [k.value for k in d.keywords if k.arg == "bounds"]
                b = ast.literal_eval(b[0]) if b and isinstance(b[0], ast.Constant) else ""
                har.setdefault(d.args[0].value, []).append((f, n.name, " ".join((ast.get_docstring(n) or "").split()), b))
seeds = []
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append((os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
find = [json.loads(l) for l in open("known_findings.jsonl")]
out = ["## Properties\n\nDecided each by the harnesses listed (all technique: symbolic execution of the source, z3; the oracle is the code of the harness, written from the documentation). `tools/design.py` writes this part.\n"]
for p in props:
    i = p["id"]
    if i in na:
        continue
    out.append("### %s %s (%s)\n" % (i, p["title"], ", ".join("`harness/%s.py`" % x for x in mods[i].split())))
    for f, n, d, b in har.get(i, []):
        out.append("* `%s`: %s%s" % (n, d, " Bounds: %s." % b if b else ""))
    s = [x[0] for x in seeds if x[1] == i]
    out.append("\nPlanted bugs caught: %s\n" % (", ".join(s) if s else "none planted at present"))
out.append("## Not applicable\n")
for p in props:
    if p["id"] in na:
        out.append("* %s %s: %s" % (p["id"], p["title"], na[p["id"]]))
out.append("\n## Known findings\n")
for f in find:
    if f["status"] == "known":
        out.append("* `%s` (%s): %s" % (f["id"], f["property"], f["what"]))
out.append("\n## Repaired defects\n\nEach was found by a check and reproduced on the real code; one `fix:` commit each.\n")
for f in find:
    if f["status"] == "fixed":
        out.append("* " + f["what"])
out.append("\n## Planted bugs\n\n| bug | property | needs | breaks |\n|---|---|---|---|")
for s in seeds:
    out.append("| " + " | ".join(x.replace("|", "\\|").replace("\n", " ") for x in s) + " |")
t = open("DESIGN.md").read()
head = t.split("<!-- generated -->")[0]
with open("DESIGN.md", "w") as f:
    f.write(head + "<!-- generated -->\n\n" + "\n".join(out) + "\n")
