#!/usr/bin/env python3
"""fixed.py: refresh the "fixed" list of KNOWN_FINDINGS.json from /repo's fix: commits.

The property a commit belongs to is in this table, by (the start of) its subject.
"""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = [l.rstrip("\n").split("\t") for l in open(os.path.join(ROOT, "tools", "fixed.tsv")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], stdout=subprocess.PIPE, check=True).stdout.decode()
out = []
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if not s.startswith("fix: "):
        continue
    pid = [p for p, t in TABLE if s[5:].startswith(t)] or [p for p, t in TABLE if t in s]
    if len(set(pid)) != 1:
        raise SystemExit("no property for: " + s)
    out.append("fixed: property=%s %s %s" % (pid[0], h, s[5:]))
p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
k = json.load(open(p))
k["fixed"] = out
with open(p, "w") as f:
    json.dump(k, f, indent=1)
    f.write("\n")
