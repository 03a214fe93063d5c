#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
import props
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for i in sorted(PROPS):
        p = PROPS[i]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}) + "\n")
checks = []
for i in sorted(PROPS):
    p = PROPS[i]
    if p.get("na"):
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the compiled LLVM IR of the real code, branches and assertions decided by Z3",
        "level": "model_checking",
        "level_note": "Every value within the bounds: %s. Outside: %s. %s Trusted: rustc/LLVM, the executor (self-test, and "
                      "native replay of sampled paths), Z3." % (
                          p["bounds"][0], p["outside"], " ".join(a + "." for a in p.get("assumptions", []))),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": PROPS[i]["na"]} for i in sorted(PROPS) if PROPS[i].get("na")],
     "notes": "No hooks: every check drives the public API. Fixes in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: the section on properties
from how import HOW
d = os.path.join(here, "DESIGN.md")
t = open(d).read()
a, rest = t.split("<!-- properties -->\n", 1)
b = rest.split("<!-- end -->\n", 1)[1]
out = ""
for i in sorted(PROPS):
    p = PROPS[i]
    es = sorted({e for g in p["groups"] for e in g["entries"]})
    out += "### %s %s\n\n%s\n\nBounds: %s. Thorough: %s. Outside: %s.\nEntries: %s.\n\n" % (
        i, p["title"], HOW[i], p["bounds"][0], p["bounds"][1], p["outside"], ", ".join(es))
if os.path.isdir(os.path.join(here, "seeded")):
    x, y = b.split("<!-- seeds -->\n", 1)
    y = y.split("<!-- endseeds -->\n", 1)[1]
    rows = "| planted bug | caught by | needs |\n|---|---|---|\n"
    for n in sorted(os.listdir(os.path.join(here, "seeded"))):
        m = json.load(open(os.path.join(here, "seeded", n, "meta.json")))
        rows += "| %s | %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "\\|"))
    b = x + "<!-- seeds -->\n" + rows + "<!-- endseeds -->\n" + y
open(d, "w").write(a + "<!-- properties -->\n" + out + "<!-- end -->\n" + b)
