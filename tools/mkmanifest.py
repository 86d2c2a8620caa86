#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
SEQ = ("bounded exhaustive enumeration of start states, histories and arguments executed on the real library against an exact reference model")
NOTE = ("Every case of the stated finite space is executed on the code built from the working tree (ASan, pattern-initialised locals) and compared "
        "with exact dense arithmetic. Trusts the reference model, gcc and OpenBLAS; says nothing about values outside the alphabet or sizes beyond the bound.")
SPECIAL = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks = []
for p in props:
    if p in CLAIMED:
        s = SPECIAL.get(p, {})
        checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                           technique=s.get("technique", SEQ), level=s.get("level", "model_checking"), level_note=s.get("note", NOTE)))
na = [dict(property=p, reason=NA.get(p, "no check built yet; not claimed")) for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", hooks=dict(guard="none", enable="no hooks: the checks compile the unmodified sources of /repo", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
