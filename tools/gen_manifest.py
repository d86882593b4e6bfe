#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the CLAIMS table below."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims = json.load(open(os.path.join(root, "tools", "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims["claimed"]:
        c = claims["claimed"][i]
        checks.append(dict(property=i, quick_cmd=f"bash /verif/run.sh {i}",
            thorough_cmd=f"VERIF_TIER=thorough bash /verif/run.sh {i}",
            technique=c[1], level=c[0], level_note=c[2]))
    else:
        na.append(dict(property=i, reason=claims["not_applicable"].get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash /verif/build.sh",
    hooks=claims["hooks"], checks=checks, not_applicable=na, notes=claims["notes"])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
