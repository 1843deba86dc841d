"""write MANIFEST.json from the checks present and tools/meta.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(H + "/tools/meta.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/checks/%s.py" % i) and i in meta["checks"]:
        m = meta["checks"][i]
        d = {"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s thorough" % i, "technique": m["technique"],
             "level": "other", "level_note": m["note"]}
        checks.append(d)
    else:
        na.append({"property": i, "reason": meta["na"].get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "notes": meta.get("notes", "")},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
