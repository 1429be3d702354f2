#!/usr/bin/env python3
"""design.py: DESIGN.md from tools/DESIGN.in.md and the tables."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plans import PLANS  # noqa: E402
from props import PROPS  # noqa: E402

props = []
for p in PROPS:
    props.append("### %s %s\n\n%s\n" % (p["pid"], p["title"], PLANS[p["pid"]].strip()))
k = json.load(open(ROOT + "/KNOWN_FINDINGS.json"))
fixed = "\n".join("* " + x[len("fixed: property="):] for x in k["fixed"])
known = "\n".join("* %s (%s): %s" % (x["property"], x["id"], x["what"]) for x in k["known"]) or "none"
caught = json.load(open(ROOT + "/tools/caught.json")) if os.path.exists(ROOT + "/tools/caught.json") else {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, "not run")))
t = open(ROOT + "/tools/DESIGN.in.md").read()
for tag, text in (("PROPS", "\n".join(props)), ("FIXED", fixed), ("KNOWN", known), ("SEEDED", "\n".join(rows))):
    t = t.replace("@@%s@@" % tag, text)
open(ROOT + "/DESIGN.md", "w").write(t)
