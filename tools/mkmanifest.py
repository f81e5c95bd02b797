#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
BASE = "Trusts TLC, the Go toolchain and the in-memory network of the harness; "
T = {}  # property -> (technique, level_note)
exec(open(os.path.join(os.path.dirname(__file__), "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the machinery for it is still being built")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Language: TLA+ checked with TLC. One entry point: ./check <property> <tier>. No hooks in /repo: harnesses are compiled into the packages by go test -overlay.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
