#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property modules."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from fuelpbt import runner  # noqa: E402
from fuelpbt.common import MODEL_NOTE  # noqa: E402

ids = sorted(n[:-3].upper() for n in os.listdir(os.path.join(VERIF, "fuelpbt", "props")) if re.match(r"c\d\d\.py$", n))
props, checks = [], []
for pid in ids:
    m = runner.load(pid)
    bad = []
    if len(m.TITLE) > 80:
        bad.append("title %d" % len(m.TITLE))
    n = len(re.findall(r"[.!?](?=\s+[A-Za-z(]|$)", m.STATEMENT.replace("e.g.", "eg").replace("i.e.", "ie")))
    if n > 3:
        bad.append("%d sentences" % n)
    for f in m.FILES:
        if not os.path.exists("/repo/" + f):
            bad.append("no " + f)
    if bad:
        print(pid, bad)
    props.append({"id": pid, "title": m.TITLE, "statement": m.STATEMENT, "quantifier": {"over": m.OVER, "text": m.QUANT},
                  "why_tests_cant": m.WHY,
                  "anchors": {"files": m.FILES, "mechanism": [{"name": a, "where": b} for a, b in m.MECH]}})
    checks.append({"property": pid, "quick_cmd": "VERIF_TIER=quick python3-vt check.py " + pid,
                   "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": m.TECHNIQUE, "level": "exploration", "level_note": getattr(m, "NOTE", MODEL_NOTE)})
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt -m fuelpbt.build", "checks": checks, "not_applicable": [],
               "notes": "Every check compiles the interpreter sources of /repo's working tree (address and undefined-behaviour sanitizers) and caches the build by source hash under /verif/build."}, f, indent=1)
    f.write("\n")
print(len(ids), "properties")
