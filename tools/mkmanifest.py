"""Writes MANIFEST.json from properties.jsonl and the families in harness/main.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["x"]
src = open(os.path.join(V, "harness", "main.py")).read()
fam = {}
for m, ids in eval(re.search(r"for m, ids in (\{.*?\})\.items", src, re.S).group(1)).items():
    for i in ids.split():
        fam[i] = m
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in fam:
        n = NOTES[fam[i]]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "no check yet (specification under construction)"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; real runs of /repo are recorded by harness/ and validated against them. No hooks are needed: every observable is public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
