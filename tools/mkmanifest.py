"""writes properties.jsonl and MANIFEST.json from props.py and the contract registry"""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
from pyvc import contract as K

K.load_all()
base = json.load(open(HERE + "/baseline.json")) if os.path.exists(HERE + "/baseline.json") else {}
by = {}
for c in K.REGISTRY.values():
    for p in (c.prop if isinstance(c.prop, tuple) else (c.prop,)):
        by.setdefault(p, []).append(c)
claimed = [p for p in props.P if p["id"] in by]
missing = sorted(set(by) - {p["id"] for p in props.P})
if missing:
    print("contracts without a property:", missing)
with open(HERE + "/properties.jsonl", "w") as f:
    for p in props.P + props.NA:
        if p["id"] not in by and p not in props.NA:
            print("no contracts for", p["id"])
            continue
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
checks = []
for p in claimed:
    cs = by[p["id"]]
    pr = [c.name for c in cs if c.level == "proof" and base.get(c.name) == "proved"]
    bd = [c.name for c in cs if c.name not in pr]
    note = f"{len(pr)} of {len(cs)} contracts discharged for all inputs"
    if pr:
        note += " (" + ", ".join(pr) + ")"
    if bd:
        note += "; bounded stand-in: contract executed on the real function for generated inputs (" + "; ".join(f"{c.name}: {c.bound}" if c.bound else c.name for c in cs if c.name in bd) + ")"
    tech = "contract-based deductive verification: verification conditions generated from the function bodies in /repo by symbolic execution with quantifier-free array and sum axioms, discharged by z3/cvc5" if pr else "contracts (pre/postconditions, frame) on the real functions, checked as bounded stand-in by execution because the bodies are outside the verifier's reach"
    if pr and bd:
        tech += "; bounded execution of the contracts for functions outside the verifier's reach"
    level = "proof" if not bd else "other"
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough", technique=tech, level=level, level_note=(p["note"] + "; " if p["note"] else "") + note))
m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="PYFHD_VERIF", enable="no hooks are needed: the checks import the code under /repo as it is"), checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in props.NA])
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", sum(c["level"] == "proof" for c in checks), "proof")
