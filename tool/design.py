#!/usr/bin/env python3
"""Puts DESIGN.md together: tool/design_head.md, one section per property (from tool/properties.py and the rules in props/), tool/design_tail.md,
the defects of known-findings.txt and the table of planted bugs."""
import ast, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: open(os.path.join(HERE, *p)).read()
P = []
ns = {"prop": lambda id, title, statement, over, text, why, files, mech, state=(), technique=None, level="other", note=None, na=None:
      P.append(dict(id=id, title=title, text=text, why=why, technique=technique, note=note, na=na, files=files)),
      "TESTS": "", "__file__": __file__}
exec(R("tool", "properties.py"), ns)
how = {}
cur = None
for l in R("tool", "design_how.md").split("\n"):
    m = re.match(r"^### (C\d+|N\d+)", l)
    if m:
        cur = m.group(1)
        how[cur] = []
    elif cur:
        how[cur].append(l)
out = [R("tool", "design_head.md").rstrip(), "", "## The properties, one by one", ""]
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]:
        continue
    rule = ""
    for n in ast.parse(R("props", p["id"].lower() + ".py")).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE":
            rule = ast.literal_eval(n.value)
    out += ["### %s %s" % (p["id"], p["title"]), "", "*Technique:* %s. *Quantified over:* %s." % (p["technique"], p["text"]), "",
            "*Decided as:* " + rule + ".", ""]
    if p["id"] in how:
        out += ["\n".join(how[p["id"]]).strip(), ""]
    out += ["*Bounds and trust:* " + p["note"].replace(ns["BASE"], "").strip() or "none beyond the common ones", ""]
out += ["## Not applicable", ""]
for p in P:
    if p["na"]:
        out += ["* **%s %s** - %s" % (p["id"], p["title"], p["na"])]
out += ["", R("tool", "design_tail.md").rstrip(), "", "## Defects that were repaired", ""]
for l in R("known-findings.txt").split("\n"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out += ["* %s `%s` %s" % m.groups()]
out += ["", "## Planted bugs and the checks that catch them", "", "| planted change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.loads(R("seeded", d, "meta.json"))
    out += ["| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m.get("caught", m["property"]))]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
