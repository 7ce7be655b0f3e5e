"""usage: python3 tools/mutate.py FUNCTION_PATTERN[,..] [N] [SEED]  -- development helper, never registered as a check.
Single-point mutants of the functions under contract, each in a scratch copy of /repo; prints those that no check of the
function's properties notices.  N: at most that many mutants per function (random sample)."""
import sys, os, ast, json, random, shutil, subprocess, tempfile, fnmatch, time
from multiprocessing import Pool, current_process
import warnings; warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
NAME = {"conj": None, "conjugate": None, "abs": None, "floor": "ceil", "ceil": "floor", "min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin", "minimum": "maximum", "maximum": "minimum", "real": "imag", "imag": "real", "zeros": "ones", "ones": "zeros", "sin": "cos", "cos": "sin", "argmax": "argmin", "argmin": "argmax", "any": "all", "all": "any", "sum": "mean", "mean": "sum", "nanmean": "mean", "nansum": "sum", "intersect1d": "union1d", "rint": "floor", "round": None, "copy": None, "deepcopy": None, "sqrt": None, "flip": None, "transpose": None, "degrees": "radians", "radians": "degrees", "deg2rad": "rad2deg", "rad2deg": "deg2rad", "fft2": "ifft2", "fftshift": "ifftshift", "ifftshift": "fftshift", "append": None, "unique": None, "angle": "abs", "arctan2": "hypot", "median": "mean", "nanmedian": "median", "std": "var", "logical_and": "logical_or", "logical_or": "logical_and"}


def muts(src, fn):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, s, e, new, f"{what}: {b[s:e].decode()[:60]!r} -> {new[:60]!r}"))

    f = next(n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == fn)
    skip = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "warnings", "plt") or isinstance(n, (ast.JoinedStr, ast.Raise)):
            for m in ast.walk(n): skip.add(id(m))
    for a in [f.args]:
        for m in ast.walk(a):
            if not isinstance(m, ast.Constant): skip.add(id(m))
    if f.returns:
        for m in ast.walk(f.returns): skip.add(id(m))
    for n in ast.walk(f):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in SWAP.get(type(n.ops[0]), []): rep(n, f"{txt(n.left)} {o} {txt(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []): rep(n, f"({txt(n.left)} {o} {txt(n.right)})", "op")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            rep(n, f"{txt(n.target)} {BIN[type(n.op)][0]}= {txt(n.value)}", "aug")
            rep(n, "pass", "delete")
        elif isinstance(n, ast.BoolOp):
            rep(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(" + txt(v) + ")" for v in n.values), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)) and not isinstance(n.operand, ast.Constant):
            rep(n, txt(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False: rep(n, str(not n.value), "const")
            elif isinstance(n.value, int): rep(n, str(n.value + 1), "const"); n.value and rep(n, str(n.value - 1), "const")
            elif isinstance(n.value, float): rep(n, repr(n.value * 1.5 + (n.value == 0)), "const")
            elif isinstance(n.value, complex): rep(n, repr(-n.value), "const")
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if nm in NAME and n.args:
                if NAME[nm] is None: rep(n, f"({txt(n.args[0])})", "unwrap")
                elif isinstance(n.func, ast.Attribute): rep(n.func, f"{txt(n.func.value)}.{NAME[nm]}", "call")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                t0, t1 = n.args[0], n.args[1]
                if type(t0) == type(t1) and not isinstance(t0, ast.Constant):
                    s, _ = pos(t0); _, e = pos(t1)
                    out.append((n.lineno, s, e, f"{txt(t1)}, {txt(t0)}", f"swap args: {txt(n)[:80]!r}"))
            for k in n.keywords:
                if k.arg and k.arg not in ("dtype",):
                    s, e = pos(n)
                    ks, ke = pos(k)
                    new = b[s:ks].decode() + b[ke:e].decode().lstrip(" ,") if b[ke:e].decode().lstrip()[0] == "," else b[s:ks].decode().rstrip().rstrip(",") + b[ke:e].decode()
                    out.append((n.lineno, s, e, new, f"drop keyword {k.arg}: {txt(n)[:70]!r}"))
        elif isinstance(n, ast.Attribute) and n.attr in ("real", "imag") and isinstance(n.ctx, ast.Load):
            rep(n, txt(n.value) + (".imag" if n.attr == "real" else ".real"), "attr")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            rep(n, f"{txt(n.value)}[{txt(n.slice.elts[1])}, {txt(n.slice.elts[0])}]", "swap index")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "cond"); rep(n.test, "False", "cond")
        elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Subscript,)) for t in n.targets):
            rep(n, "pass", "delete")
        elif isinstance(n, ast.Break): rep(n, "pass", "delete")
        elif isinstance(n, ast.Continue): rep(n, "pass", "delete")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): rep(n, "pass", "delete")
    good = []
    for m in out:
        new = b[:m[1]] + m[3].encode() + b[m[2]:]
        try: ast.parse(new)
        except SyntaxError: continue
        good.append((m[0], new, m[4]))
    return good


def work(job):
    mod, fn, line, new, what, props = job
    w = W["dir"]
    f = f"{w}/repo/{mod}"
    old = open(f, "rb").read()
    open(f, "wb").write(new)
    t0 = time.time()
    try:
        out = []
        jf = w + "/job.json"
        json.dump(dict(contracts=W["cons"][fn], seconds=60, seed=1, tier="quick"), open(jf, "w"))
        if os.path.exists(w + "/o.json"): os.unlink(w + "/o.json")
        subprocess.run(["timeout", "300", "/opt/venv/bin/python", "-m", "pyvc.concrete", jf, w + "/o.json"], capture_output=True, cwd=w, env=dict(os.environ, PYVC_REPO=w + "/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=w + "/repo:" + w + "/verif", PYTHONWARNINGS="ignore"))
        try: cc = json.load(open(w + "/o.json"))["contracts"]
        except Exception: cc = {}
        if any(d["fails"] for d in cc.values()): return fn, line, what, [1], time.time() - t0
        for p in props:
            try: r = subprocess.run(["timeout", "400", w + "/verif/check", p, "quick"], capture_output=True, text=True, env=dict(os.environ, PYVC_REPO=w + "/repo", PYVC_NCPU="1"))
            except Exception as e: out.append("error"); continue
            out.append(r.returncode)
            if r.returncode == 1: break
        return fn, line, what, out, time.time() - t0
    finally:
        open(f, "wb").write(old)


W = {}


def init(root, q, cons):
    W['cons'] = cons
    i = q.get()
    W["dir"] = f"{root}/w{i}"
    os.makedirs(W["dir"])
    subprocess.run(["rsync", "-a", "--exclude", ".git", "/repo", W["dir"]]) if shutil.which("rsync") else subprocess.run(f"mkdir {W['dir']}/repo && cd /repo && tar cf - --exclude=.git . | tar xf - -C {W['dir']}/repo", shell=True)
    subprocess.run(f"mkdir {W['dir']}/verif && cd {HERE} && tar cf - --exclude=.git --exclude=seeded . | tar xf - -C {W['dir']}/verif", shell=True)


if __name__ == "__main__":
    pats = sys.argv[1].split(",")
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    code = "import json\nfrom pyvc import contract as K;K.load_all();print(json.dumps([(c.target,c.prop,c.name) for c in K.REGISTRY.values()]))"
    reg = json.loads(subprocess.run(["python3-vt", "-c", code], capture_output=True, text=True, cwd=HERE, check=True).stdout.splitlines()[-1])
    fns = {}
    cons = {}
    for t, p, nm in reg: fns.setdefault(t, set()).add(p); cons.setdefault(t.split(":")[1], []).append(nm)
    jobs = []
    for t, ps in sorted(fns.items()):
        mod, fn = t.split(":")
        if not any(fnmatch.fnmatch(fn, p) for p in pats) or mod.startswith("verif"): continue
        path = mod.replace(".", "/") + ".py"
        ms = muts(open("/repo/" + path).read(), fn)
        random.Random(seed).shuffle(ms)
        print(t, sorted(ps), len(ms), "mutants")
        jobs += [(path, fn, l, new, what, sorted(ps)) for l, new, what in ms[:n]]
    import multiprocessing as mp
    root = tempfile.mkdtemp(prefix="mut_")
    q = mp.Queue()
    for i in range(8): q.put(i)
    tot = {}
    surv = []
    slow = (0, '')
    try:
        with Pool(8, init, (root, q, cons)) as p:
            for fn, line, what, out, secs in p.imap_unordered(work, jobs):
                k = "killed" if 1 in out else "survived" if all(x == 0 for x in out) else "noanswer"
                tot.setdefault(fn, {}).setdefault(k, 0)
                tot[fn][k] += 1
                slow = max(slow, (secs, f"{fn}:{line} {what}"))
                if k != "killed": surv.append(f"{fn}:{line} {k} {out} {what} {secs:.0f}s")
    finally: shutil.rmtree(root)
    for s in sorted(surv): print(s)
    for f, d in sorted(tot.items()): print(f, d)
    print('slowest', slow)
