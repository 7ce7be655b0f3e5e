"""baseline.json from the evidence of a full run on the accepted tree: which contracts were proved completely"""
import json, glob, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = {}
for f in sorted(glob.glob(HERE + "/evidence/*.json")):
    for n, d in json.load(open(f))["coverage"].get("functions_under_contract", {}).items():
        b[n] = "proved" if d["status"] == "proved" else d["status"]
json.dump(b, open(HERE + "/baseline.json", "w"), indent=1, sort_keys=True)
print(sum(v == "proved" for v in b.values()), "of", len(b))
for k, v in b.items():
    if v != "proved":
        print("  ", k, v[:150])
