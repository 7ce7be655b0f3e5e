"""development helper: python3 tools/trybugs.py LIST.py [pattern] -- LIST defines BUGS=[(name, prop, file, old, new[, old, new ...])];
each is applied to a scratch copy of /repo, and ./check of its property run against it (in parallel).  Restores nothing in /repo: it never touches it."""
import sys, os, subprocess, json, runpy, tempfile, shutil, fnmatch
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = runpy.run_path(sys.argv[1])["BUGS"]
if len(sys.argv) > 2: bugs = [b for b in bugs if any(fnmatch.fnmatch(b[0], p) for p in sys.argv[2].split(","))]
tmp = tempfile.mkdtemp(prefix="try_")
N = min(4, len(bugs))
q = queue.Queue()
for i in range(N):
    os.makedirs(f"{tmp}/w{i}")
    subprocess.run(f"mkdir {tmp}/w{i}/repo {tmp}/w{i}/verif; cd /repo && tar cf - --exclude=.git . | tar xf - -C {tmp}/w{i}/repo; cd {HERE} && tar cf - --exclude=.git --exclude=seeded . | tar xf - -C {tmp}/w{i}/verif", shell=True)
    q.put(f"{tmp}/w{i}")
def one(b):
    name, prop, f, *ed = b
    w = q.get()
    try:
        p = f"{w}/repo/{f}"
        t0 = t = open(p).read()
        for a, c in zip(ed[::2], ed[1::2]):
            if t.count(a) != 1: return name, f"EDIT MATCHES {t.count(a)}: {a[:60]!r}"
            t = t.replace(a, c)
        open(p, "w").write(t)
        try:
            out = []
            for pr in prop.split(","):
                r = subprocess.run([w + "/verif/check", pr, "quick"], capture_output=True, text=True, env=dict(os.environ, PYVC_REPO=w + "/repo", PYVC_NCPU="2"))
                what = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
                nf = "no-failing" in r.stdout
                out.append(f"{pr} rc={r.returncode} {'NFI ' if nf else ''}{what[0][:150] if what and r.returncode else r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.stderr[-200:]}")
            return name, " ; ".join(out)
        finally: open(p, "w").write(t0)
    finally: q.put(w)
try:
    with ThreadPoolExecutor(N) as ex:
        res = list(ex.map(one, bugs))
    for n, r in res: print("MISSED " if "rc=1" not in r else "caught ", n, "|", r)
finally: shutil.rmtree(tmp)
