#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the public API exposes what the specifications talk about", "source_commits": []},
    "checks": [{
        "property": p["pid"], "quick_cmd": "bash check.sh %s quick" % p["pid"],
        "thorough_cmd": "bash check.sh %s thorough" % p["pid"],
        "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in PROPS],
    "not_applicable": [],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
