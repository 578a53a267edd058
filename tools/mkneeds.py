#!/usr/bin/env python3
"""mkneeds.py: records in needs.json, for every entry run by dev.sh (/tmp/o_*.json), the situations its paths
reached on the unchanged tree (a later run that misses one is vacuous there) and its longest path."""
import glob, json, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "needs.json")
N = json.load(open(P)) if os.path.exists(P) else {}
for f in glob.glob("/tmp/o_h_*.json"):
    d = json.load(open(f))
    e = (d if isinstance(d, list) else d.get("entries", [d]))[0]
    if e["unfinished"] or e["nerr"]:
        continue
    N[e["entry"]] = {"need": sorted(k for k, v in e["witnesses"].items() if v), "steps": e["max_steps"]}
json.dump(N, open(P, "w"), indent=1, sort_keys=True)
print(len(N))
