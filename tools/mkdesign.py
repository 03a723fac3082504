#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.py, the facets, known_findings.json and the planted bugs."""
import importlib, io, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.path[:0] = [os.path.join(H, "harness"), os.path.join(H, "tools")]
import design_text as D
out = [D.HEAD]
for l in io.open(os.path.join(H, "properties.jsonl"), encoding="utf8"):
    p = json.loads(l)
    m = importlib.import_module("props." + p["id"].lower())
    out.append(u"### %s %s\n" % (p["id"], p["title"]))
    out.append(D.WHY[p["id"]] + "\n")
    out.append(u"| facet | quick | thorough | non-trivial when |\n|---|---|---|---|")
    for f in m.FACETS:
        out.append(u"| %s | %d | %d | %s |" % (f.name, f.quick, f.thorough, f.rule))
    out.append(u"")
out.append(D.TAIL)
k = json.load(open(os.path.join(H, "known_findings.json")))
out += [u"* " + x.replace("fixed: property=", "") for x in k["fixed"]]
out.append(D.SEEDS)
res = json.load(open(os.path.join(H, "tools", "seeds.json")))
out.append(u"| planted bug | property | needs | result |\n|---|---|---|---|")
sd = os.path.join(H, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append(u"| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), res.get(s, "?")))
out.append(D.MUT)
io.open(os.path.join(H, "DESIGN.md"), "w", encoding="utf8").write(u"\n".join(out) + u"\n")
