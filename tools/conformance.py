"""usage: python3-vt tools/conformance.py [pattern] [seeds]: compares the verifier's semantics with the installed numpy.
Each program of conform/snippets.py is run under numpy, and under the verifier (a) on constants and (b) on symbolic arrays of
symbolic length, tied to the same values by assumptions. `agree`: equality proved; `open`: not decided; `WRONG`: refuted."""
import sys, os, inspect, random, warnings, time
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["PYVC_REPO"] = os.path.join(HERE, "conform")
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + "/conform")
import numpy as np, z3
import snippets
from pyvc import engine as EN, terms as T, arr as A, instrument as I
from pyvc.symctx import SymCtx, SymBuilder, prove, raw
from pyvc.engine import PathEnd
from pyvc.terms import Unsupported
from fractions import Fraction


def inputs(names, r):
    L = r.choice([2, 3, 4])
    h = lambda: r.choice([-2, -1.5, -1, -0.5, 0, 0, 0.5, 1, 2.5, 3])
    d = {}
    for p in names:
        if p in "xy": d[p] = np.array([h() for _ in range(L)])
        elif p == "m": d[p] = np.array([[h() for _ in range(r.choice([2, 3]) if False else 3)] for _ in range(2)])
        elif p == "k": d[p] = np.array([r.randint(0, 3) for _ in range(L)])
        elif p == "j": d[p] = np.array(sorted(r.sample(range(1, 9), L)))
        elif p == "z": d[p] = np.array([complex(h(), h()) for _ in range(L)])
        elif p == "q": d[p] = np.array([r.random() < 0.5 for _ in range(L)])
        elif p == "w": d[p] = np.array([float("nan") if r.random() < 0.3 else h() for _ in range(L)])
        elif p in "na": d[p] = r.randint(0, 4) if p == "a" else r.randint(1, 4)
        elif p in "ef": d[p] = float(h())
    return d


def lift(v, kind):
    if isinstance(v, (bool, np.bool_)): return T.S("b", z3.BoolVal(bool(v)))
    if kind == "c": return T.S("c", T.real_val(Fraction(v.real)), T.real_val(Fraction(v.imag)))
    if kind == "f":
        if np.isnan(v): return T.S("f", z3.RealVal(0), None, True)
        return T.S("f", T.real_val(Fraction(float(v))))
    return T.S("i", z3.IntVal(int(v)))


def symb(d, E, b, mode):
    out = {}
    for p, v in d.items():
        if isinstance(v, np.ndarray):
            kd = {"f": "f", "i": "i", "c": "c", "b": "b"}[v.dtype.kind]
            if mode == "const":
                def rd(idx, v=v, kd=kd):
                    t = None
                    for at in np.ndindex(v.shape):
                        val = lift(v[at], kd)
                        cond = T.And(*[A._cmp(i, z3.IntVal(x), "==") for i, x in zip(idx, at)])
                        t = val if t is None else T.site(cond, val, t)
                    return t
                out[p] = A.Arr.new(kd, v.shape, rd)
            else:
                names = ["L"] if v.ndim == 1 else ["R", "C"]
                shape = []
                for nm, s in zip(names, v.shape):
                    t = z3.Int("n_" + nm)
                    E.assume(t == s)
                    shape.append(T.mk("i", t))
                ar = b.arr(p, kd, tuple(shape), nan=p == "w")
                for at in np.ndindex(v.shape):
                    x, y = ar.at(*at), lift(v[at], kd)
                    if getattr(y, "nan", False) is True: E.assume(x.nan)
                    else:
                        if kd == "f" and p == "w": E.assume(T.Not(x.nan))
                        E.assume(x.re == y.re)
                        if kd == "c": E.assume(x.im == y.im)
                out[p] = ar
        elif mode == "const": out[p] = v
        else:
            t = (z3.Int if isinstance(v, int) else z3.Real)("s_" + p)
            E.assume(t == (v if isinstance(v, int) else T.real_val(Fraction(v))))
            out[p] = T.S("i" if isinstance(v, int) else "f", t)
    return out


def check(name, seed, mode):
    fn = getattr(snippets, name)
    d = inputs(list(inspect.signature(fn).parameters), random.Random(seed))
    with np.errstate(all="ignore"):
        try: want = fn(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
        except Exception as e: want = e
    E = EN.Engine(prove_ms=4000); E.unroll = int(os.environ.get("UNROLL", 4)); T.ENG = E; E.decls = {}; E.cur_case = 0; E.cur_fn = name
    E.n_vacuous = E.n_clauses = E.n_trivial = 0; E.trivial = []
    prog = I.Program(E); prog.models = {}; E.invariants = lambda *a: None
    c = SymCtx(E)
    res = []

    def feasible():
        """the path can be reached: the concrete indices are instantiated in the closures' axioms"""
        old, E.unroll = E.unroll, 4
        try: return not E.must_strong(z3.BoolVal(False))
        finally: E.unroll = old

    def same(r, w):
        if isinstance(w, (tuple, list)):
            if len(r) != len(w): return res.append(("WRONG", "length"))
            for x, y in zip(r, w): same(x, y)
            return
        w = np.asarray(w)
        if isinstance(r, A.Arr):
            if r.ndim != w.ndim: return res.append(("WRONG", f"ndim {r.ndim} {w.ndim}"))
            kd = {"f": "f", "i": "i", "c": "c", "b": "b"}[w.dtype.kind]
            if r.kind != kd: res.append(("WRONG", f"kind {r.kind} {kd}"))
            for s, t in zip(r.shape, w.shape):
                f = T.zi(s) == t
                if not E.must_strong(f):
                    return res.append(("WRONG" if E.must_strong(z3.Not(f)) and feasible() else "open", f"shape {r.shape} {w.shape}"))
        elif w.ndim: return res.append(("WRONG", "not an array"))
        if not w.size: res.append(("agree", ""))
        for at in np.ndindex(w.shape):
            x = r.at(*at) if isinstance(r, A.Arr) else r
            kd = {"f": "f", "i": "i", "c": "c", "b": "b"}[w.dtype.kind]
            x = T.lift(x, kd) if not isinstance(x, T.S) else x
            v = w[at]
            xn = getattr(x, "nan", False)
            if kd in "fc" and np.isnan(v): f = T.zb(xn)
            elif kd == "b": f = T.zb(T.truth(x)) == bool(v)
            elif kd == "c": f = T.And(T.Not(xn), near(T.cast(x, "c").re, v.real), near(T.cast(x, "c").im, v.imag))
            elif kd == "f": f = T.And(T.Not(xn), near(T.cast(x, "f").re, v))
            else: f = T.zi(x) == int(v)
            f = T.zb(f)
            if E.must_strong(f): res.append(("agree", ""))
            else: res.append(("WRONG" if E.must_strong(z3.Not(f)) and feasible() else "open", f"{at} want {v} got {z3.simplify(x.re)}"[:150]))

    def near(t, v):
        v = T.real_val(Fraction(float(v)))
        e = T.real_val(Fraction(1, 10**9))
        return z3.And(t - v <= e, v - t <= e)

    def run():
        E.write_watch = []; prog.depth = 0
        try: r = prog.run("snippets", name, (), symb(d, E, SymBuilder(E, c), mode))
        except (Unsupported, PathEnd): raise
        except Exception as e:
            if not isinstance(want, Exception): res.append(("WRONG", f"raises {type(e).__name__}: {e}"))
            return
        if E.qs.check() == z3.unsat: return
        if isinstance(want, Exception):
            if not any(o.status == "refuted" for o in E.obls.values()): res.append(("WRONG", f"does not raise {want!r}"))
            return
        same(r, want)

    try: E.explore(run)
    except Unsupported as e: return "unsupported", str(e)[:100]
    bad = [x for x in res if x[0] == "WRONG"]
    if bad: return "WRONG", bad[0][1]
    op = [x for x in res if x[0] == "open"]
    if op: return "open", op[0][1]
    ref = [o.name for o in E.obls.values() if o.status == "refuted"]
    if ref and not isinstance(want, Exception): return "WRONG", f"obligation {ref[0]} refuted"
    return ("agree", len(res)) if res or isinstance(want, Exception) else ("WRONG", "no path")


def one(job):
    try: return job, check(*job)
    except Exception as e:
        import traceback
        return job, ("ERROR", f"{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3]}")


if __name__ == "__main__":
    from multiprocessing import Pool
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    ns = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    names = [n for n in dir(snippets) if n.startswith("s_") and pat in n]
    t0 = time.time()
    tot = {}
    with Pool(8) as p:
        for (n, s, m), (st, info) in p.imap_unordered(one, [(n, s, m) for n in names for s in range(ns) for m in ("const", "sym")], chunksize=4):
            tot[st] = tot.get(st, 0) + 1
            if st != "agree": print(f"{st:12s}{n} seed {s} {m}: {info}")
    print(len(names), "programs", tot, f"{time.time() - t0:.0f}s")
    sys.exit(1 if tot.get("WRONG") or tot.get("ERROR") else 0)
