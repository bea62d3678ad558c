#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed when harness/checks/<ID>.cpp exists."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("stateless bounded model checking: every occupancy mask of small grids against an exhaustive BFS oracle",
         "All masks/endpoints/operators on all grids within the bounds, executed on the real routing code; exhaustive within bounds."),
}
try:
    T.update(json.load(open(R + "/tools/techniques.json")))
except FileNotFoundError:
    pass
NA = {}
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists("%s/harness/checks/%s.cpp" % (R, p)) and p in T:
        checks.append(dict(property=p, quick_cmd="./run.sh %s quick" % p, thorough_cmd="./run.sh %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking", level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 harness/build.py fast liblsqecc.a && python3 harness/build.py gridsynth liblsqecc.a", checks=checks, not_applicable=na),
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
