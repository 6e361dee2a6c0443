import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(H + "/levels.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    m = L.get(p["id"])
    if not m or m.get("not_applicable"):
        na.append({"property": p["id"], "reason": (m or {}).get("not_applicable", "check under construction")}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
