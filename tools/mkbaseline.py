#!/usr/bin/env python3
"""Writes baseline.json: for each contract, the digest of the source it depends on and the obligations discharged for it.
Run on the unchanged tree after changing contracts, the engine or /repo."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
import engine_main
out = {}
old = engine_main.baseline()
props = sys.argv[1:] or [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
if sys.argv[1:]: out.update(old)
engine_main.baseline = lambda: {}
for p in props:
    r = engine_main.run(p, "quick")
    by = {}
    for o in r["obligations"]:
        if o["kind"] == "ensures" and o["status"] == "discharged": by.setdefault(o["contract"], {})[o["name"]] = round(o["time"], 1)
    for c, fp in r["fingerprints"].items(): out[c] = {"fingerprint": fp, "ensures": by.get(c, {})}
    nd = [o["name"] for o in r["obligations"] if o["status"] != "discharged"]
    print(p, len(r["obligations"]), "obligations", r["seconds"], "s", "NOT DISCHARGED: %s" % nd if nd else "")
json.dump(out, open(os.path.join(HERE, "baseline.json"), "w"), indent=0, sort_keys=True)
