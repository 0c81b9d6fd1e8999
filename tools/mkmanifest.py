#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in lib/props.py."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        t, n = props.NOTES[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harnesses bind to the public headers from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
