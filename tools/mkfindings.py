"""known_findings.json: findings listed in findings.py plus one 'fixed' line per fix commit of /repo"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import findings
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, m = l.split(" ", 1)
    if not m.startswith("fix: "):
        continue
    p = findings.prop_of(m[5:])
    if p is None:
        print("no property for:", m)
        p = "none"
    fixed.append(f"fixed: property={p} {h} {m[5:]}")
json.dump(dict(findings=findings.FINDINGS, fixed=fixed), open(HERE + "/known_findings.json", "w"), indent=1)
print(len(fixed), "fixed,", len(findings.FINDINGS), "open")
