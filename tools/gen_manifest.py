"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p.lower() + ".py")
    if os.path.exists(f) and p in TECH:
        lvl = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"./run.sh {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH[p][0], "level": lvl, "level_note": TECH[p][1]})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the real code is driven through its public API, randomness is controlled by a PRNG implementation registered through jax's own extension point."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "n/a")
