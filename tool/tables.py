#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), technique=None, level="other", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  technique=technique, level=level, note=note, na=na))


TESTS = ("The suite runs a handful of client programs against one server process over local sockets, with the message sizes, peers and "
         "timing of one machine; ")
exec(open(os.path.join(HERE, "tool", "properties.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "state": [{"name": n, "meaning": w} for n, w in p["state"]],
                                        "hook_needed": False}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"from gv import build; build.tool()\"", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "technique": p["technique"],
                            "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
