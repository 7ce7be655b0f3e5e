"""development helper: python3 tools/mkseed.py SPEC.py   (SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)
Applies the edits to /repo, checks that the stable tests pass, that the demonstration passes before and fails after, and
reports what ./check says; always restores /repo."""
import sys, os, subprocess, json, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(HERE, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    ok = True
    r = sh(f"{d}/demo.sh", cwd=REPO)
    if r.returncode != 0:
        print(s["ID"], "DEMO FAILS ON CLEAN", r.stdout[-800:], r.stderr[-1500:])
        return 1
    try:
        for f, a, b in s["EDITS"]:
            t = open(f"{REPO}/{f}").read()
            if t.count(a) != 1:
                print(s["ID"], "edit matches", t.count(a), "times:", a[:80])
                return 1
            open(f"{REPO}/{f}", "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh(f"{d}/demo.sh", cwd=REPO)
        demo = r.returncode
        t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        res = json.load(open("/tmp/seed_t.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))
        names = stable if isinstance(stable, list) else stable.get("stable") or stable.get("passed") or stable.get("tests")
        lost = [n for n in names if n not in res["passed"]]
        c = sh(f"./check {s['PROP']} quick", cwd=HERE)
        print(s["ID"], s["PROP"], "demo rc", demo, "tests lost", lost, "check rc", c.returncode)
        print("   ", "\n    ".join((c.stdout + c.stderr).strip().splitlines()[-3:])[:900])
        if demo == 0:
            print("    DEMO DOES NOT FAIL")
    finally:
        sh("git -C /repo checkout -- .")
    base = sh("git -C /repo blame --porcelain HEAD -- /dev/null")
    return 0


for f in sys.argv[1:]:
    main(f)
