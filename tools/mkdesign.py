"""writes DESIGN.md from tools/design_head.md, the contract registry, evidence, findings and seeded/"""
import sys, os, json, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
from pyvc import contract as K
K.load_all()
base = json.load(open(HERE + "/baseline.json"))
kf = json.load(open(HERE + "/known_findings.json"))
by = {}
for c in K.REGISTRY.values():
    for p in (c.prop if isinstance(c.prop, tuple) else (c.prop,)):
        by.setdefault(p, []).append(c)
L = []
cell = lambda s: " ".join(str(s).split()).replace("|", "/")
for p in props.P:
    if p["id"] not in by:
        continue
    L.append(f"### {p['id']} {p['title']}\n")
    L.append("| contract | function | decided by | what is specified (clauses) / bound and reason |")
    L.append("|---|---|---|---|")
    ev = {}
    try:
        ev = json.load(open(f"{HERE}/evidence/{p['id']}.json"))["coverage"]
    except Exception:
        pass
    for c in sorted(by[p["id"]], key=lambda c: c.level != "proof"):
        fn = c.target.split(":")[-1]
        if c.level == "proof" and base.get(c.name) == "proved":
            d = ev.get("functions_under_contract", {}).get(c.name, {})
            sm = [s for s in d.get("samples", []) if "in bounds" not in s]
            L.append(f"| {c.name} | `{fn}` | proof, {d.get('obligations', '?')} obligations, {d.get('cases', '?')} cases | {cell('; '.join(sm))} |")
        else:
            L.append(f"| {c.name} | `{fn}` | bounded | {cell(c.bound or 'generated inputs')}. Not proved: {cell(c.why_bounded or '')} |")
    L.append("")
head = open(HERE + "/tools/design_head.md").read()
tail = open(HERE + "/tools/design_tail.md").read()
na = "\n".join(f"* **{p['id']}** {p['title']}: {p['reason']}" for p in props.NA)
fx = "\n".join("* " + x[len("fixed: "):] for x in kf["fixed"])
op = "\n".join(f"* {f['property']} {f['id']}: {f['what']}" for f in kf["findings"]) or "None."
res = {}
if os.path.exists(HERE + "/tools/seed_results.json"):
    res = json.load(open(HERE + "/tools/seed_results.json"))
S = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    S.append(f"| {n}: {cell(d['what_it_breaks'])} | {d['property']} | {cell(d['needs'])} | {cell(res.get(n, '?'))} |")
npf = sum(1 for c in K.REGISTRY.values() if c.level == 'proof' and base.get(c.name) == 'proved')
tot = f"{npf} of {len(K.REGISTRY)} contracts are discharged for all inputs; {len(K.REGISTRY) - npf} are bounded stand-ins.\n\n"
open(HERE + "/DESIGN.md", "w").write(head + tot + "\n".join(L) + tail.replace("@NA@", na).replace("@FIXED@", fx).replace("@OPEN@", op).replace("@SEEDS@", "\n".join(S)))
print("DESIGN.md", npf, "of", len(K.REGISTRY))
