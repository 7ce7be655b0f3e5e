"""runs ./check of its property against every planted bug in a scratch copy of /repo; writes tools/seed_results.json.  python3 tools/seedall.py [pattern]"""
import sys, os, json, glob, subprocess, shutil, tempfile, fnmatch
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = sys.argv[1] if len(sys.argv) > 1 else "*"
rf = HERE + "/tools/seed_results.json"
res = json.load(open(rf)) if os.path.exists(rf) else {}
tmp = tempfile.mkdtemp(prefix="seedall_")
repo = tmp + "/repo"
subprocess.run(["cp", "-a", "/repo", repo], check=True)
ver = tmp + "/verif"
subprocess.run(["cp", "-a", HERE, ver], check=True)
try:
    for d in sorted(glob.glob(HERE + "/seeded/*")):
        n = os.path.basename(d)
        if not fnmatch.fnmatch(n, pat):
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        a = subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            res[n] = "patch does not apply"
            print(n, a.stderr)
            continue
        r = subprocess.run([ver + "/check", prop, "quick"], capture_output=True, text=True, env=dict(os.environ, PYVC_REPO=repo))
        subprocess.run(["git", "-C", repo, "checkout", "--", "."])
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        what = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
        if r.returncode == 1 and v:
            res[n] = "caught" + (" (refuted obligation, no failing input)" if "no-failing" in v[0] else "") + (": " + what[0].split(" fails:")[0][:120] if what else "")
        else:
            res[n] = f"missed (exit {r.returncode})"
        print(n, prop, res[n], flush=True)
finally:
    shutil.rmtree(tmp)
res = {k: v for k, v in res.items() if os.path.isdir(HERE + "/seeded/" + k)}
json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
