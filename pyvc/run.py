"""check driver: python3-vt -m pyvc.run <property> [quick|thorough]"""
import sys
import os
import json
import time
import subprocess
import tempfile
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
VENV = os.environ.get("PYVC_PY", "/opt/venv/bin/python")
OUT = os.path.join(HERE, "out")

TRUSTED = [
    "pyvc front end (/verif/pyvc): mechanical extraction of each function's AST from /repo on every run; drops decorators (numba.njit, treated as Python semantics), annotations, docstrings and logging calls; rewrites only for-loops into loop-rule hooks",
    "axiomatisation of the numpy primitives used (/verif/pyvc/npshim.py, arr.py): views/copies, broadcasting, indexing, reductions; cross-checked on every run by executing the same contracts on the real functions under the repository's interpreter",
    "floating point treated as extended reals (NaN and +-inf tracked, rounding dropped); integers unbounded (no overflow)",
    "z3 and cvc5 as decision procedures; ground instances of the definitional axioms of sums, nonzero, reductions, sqrt/sin/cos/arctan2",
    "array arguments of a function do not alias each other unless the contract says so",
]


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=REPO + ":" + HERE, NUMBA_NUM_THREADS="1", NUMBA_BOUNDSCHECK="1", PYTHONWARNINGS="ignore")
    e.setdefault("HOME", "/root")
    return e


def start_concrete(job, tmp, tag):
    j = os.path.join(tmp, f"job{tag}.json")
    o = os.path.join(tmp, f"out{tag}.json")
    json.dump(job, open(j, "w"))
    err = open(os.path.join(tmp, f"err{tag}.txt"), "w")
    p = subprocess.Popen([VENV, "-m", "pyvc.concrete", j, o], cwd=tmp, env=env(), stdout=err, stderr=err)
    return p, o, err.name


def read_out(o):
    for f in (o, o + ".part"):
        try:
            return json.load(open(f))
        except Exception:
            continue
    return None


def sym_worker(q, name, ci, budget, tier):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    from pyvc import contract as K, symctx, engine

    con = K.REGISTRY[name]
    try:
        r = symctx.verify(con, con.cases[ci], ci, tier=tier, deadline=time.time() + budget)
        obl = []
        for o in r.obls:
            d = dict(name=o.name, status=o.status, solver=o.solver, secs=round(o.secs, 3), fn=o.fn, kind=o.kind, case=ci)
            if o.status != "discharged":
                d["goal"] = str(o.goal)[:3000]
                d["model"] = str(o.model)[:3000] if o.model is not None else None
                if o.status == "refuted" and sum(1 for x in obl if x.get("given")) < 4:
                    try:
                        d["given"] = symctx.model_values(r.engine, o)
                    except Exception as e:
                        d["given_error"] = str(e)
            obl.append(d)
        q.put(dict(contract=name, case=ci, obls=obl, unsupported=r.unsupported, trivial=[n for _, n in r.trivial], n_vacuous=r.n_vacuous, n_clauses=r.n_clauses, paths=r.paths,
                   ended={k: r.ended.count(k) for k in set(r.ended)}, used=r.used, models=r.used_models, secs=r.secs, solver_secs=round(r.stats["secs"], 2), queries=r.stats["queries"] + r.stats["quick"], assumptions=sorted(r.engine.assumptions)))
    except BaseException as e:
        import traceback

        q.put(dict(contract=name, case=ci, obls=[], unsupported=f"engine failure {type(e).__name__}: {e}"[:500], trivial=[], n_vacuous=0, n_clauses=0, paths=0, ended={}, used=[], models=[], secs=0, solver_secs=0, queries=0, assumptions=[]))


def run_symbolic(tasks, tier, jobs=7):
    """tasks: (name, case, budget). Each in its own process with a hard limit"""
    ctx = mp.get_context("fork")
    results = []
    pending = list(tasks)
    running = []
    while pending or running:
        while pending and len(running) < jobs:
            name, ci, budget = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=sym_worker, args=(q, name, ci, budget, tier))
            p.start()
            running.append((p, q, name, ci, time.time(), budget))
        for t in list(running):
            p, q, name, ci, t0, budget = t
            try:
                r = q.get(timeout=0.02)
                results.append(r)
                p.join(2)
                if p.is_alive():
                    p.kill()
                running.remove(t)
                continue
            except Exception:
                pass
            if time.time() - t0 > budget + 30 or (not p.is_alive() and q.empty()):
                if p.is_alive():
                    p.kill()
                results.append(dict(contract=name, case=ci, obls=[], unsupported="verifier exceeded its time or memory limit", trivial=[], n_vacuous=0, n_clauses=0, paths=0, ended={}, used=[], models=[], secs=time.time() - t0, solver_secs=0, queries=0, assumptions=[]))
                running.remove(t)
    return results


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import warnings

    warnings.simplefilter("ignore")
    from pyvc import contract as K

    K.load_all()
    cons = [c for c in K.REGISTRY.values() if c.prop == prop or (isinstance(c.prop, tuple) and prop in c.prop)]
    if not cons:
        print(f"no contracts for {prop}")
        return 3
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix="pyvc_")
    try:
        return check(prop, tier, seed, t0, K, cons, known, tmp)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {e["id"]: e for e in json.load(open(p)).get("findings", []) if e["property"] == prop}


def check(prop, tier, seed, t0, K, cons, known, tmp):
    thorough = tier == "thorough"
    # 1. contracts on the real functions (guard for the axiomatisation; stand-in for out-of-reach functions)
    groups = [[] for _ in range(4 if len(cons) > 4 else max(1, min(4, len(cons))))]
    for i, c in enumerate(cons):
        groups[i % len(groups)].append(c.name)
    secs = (600 if thorough else 90) / max(1, max(len(g) for g in groups))
    procs = [start_concrete(dict(contracts=g, seconds=secs, seed=seed, tier=tier), tmp, i) for i, g in enumerate(groups) if g]
    # 2. deductive verification of the real bodies
    tasks = []
    for c in cons:
        if c.level != "proof":
            continue
        for ci in range(len(c.cases)):
            tasks.append((c.name, ci, c.budget_s * (3 if thorough else 1)))
    tasks.sort(key=lambda t: -t[2])
    sym = run_symbolic(tasks, tier)
    # 3. collect
    conc = {}
    problems = []
    violations = []
    stop = time.time() + (7200 if thorough else 480)
    for p, o, err in procs:
        try:
            p.wait(timeout=max(1, stop - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        d = read_out(o)
        if d:
            conc.update(d["contracts"])
        if d is None or p.returncode != 0:
            v = died(p, o, seed, tier, tmp, K)
            if v:
                violations.append(v)
            else:
                problems.append(f"concrete worker ended abnormally ({p.returncode}): " + open(err).read()[-800:])
    # 4. replay the verifier's counterexamples on the real code
    cands = []
    for r in sym:
        for o in r["obls"]:
            for g in o.get("given") or []:
                cands.append(dict(contract=r["contract"], case=r["case"], given=g, obl=o["name"]))
    replays = []
    if cands:
        cands = cands[:40]
        p, o, err = start_concrete(dict(replay=[{k: v for k, v in c.items() if k != "obl"} for c in cands], seconds=60, seed=seed), tmp, "r")
        try:
            p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
        d = read_out(o)
        replays = d["replays"] if d else []
        for c, r in zip(cands, replays):
            r["obl"] = c["obl"]
    known_hits = {}
    for r in replays:
        if r["status"] == "fail":
            k = r["info"].get("known")
            if k and k in known:
                known_hits.setdefault(k, r["info"])
            else:
                violations.append(dict(how="verifier counterexample replayed on the real code", contract=r["contract"], case=r["case"], clause=r["info"]["clause"], obligation=r["obl"], detail=r["info"]["detail"], given=r["given"]))
    for n, d in conc.items():
        for f in d["fails"]:
            violations.append(dict(how="contract clause false on the real code", contract=n, case=f["case"], clause=f["clause"], detail=f["detail"], given=f["given"]))
        for k, v in d["known"].items():
            if k in known:
                known_hits.setdefault(k, v)
            else:
                violations.append(dict(how="contract clause false on the real code (finding not listed)", contract=n, case=None, clause=v["clause"], detail=v["detail"], given=v["given"]))
    refuted = [(r, o) for r in sym for o in r["obls"] if o["status"] == "refuted"]
    undecided = [(r, o) for r in sym for o in r["obls"] if o["status"] == "undecided"]
    unsup = [r for r in sym if r["unsupported"]]
    nfif = None
    if not violations and refuted:
        base = load_baseline()
        fresh = [(r, o) for r, o in refuted if base.get(r["contract"]) == "proved" and o["kind"] != "safety-shim"]
        if fresh:
            # before giving up on an input, search harder around the failing function
            names = sorted({r["contract"] for r, o in fresh})
            p, o_, err = start_concrete(dict(contracts=names, seconds=60, seed=seed + 1000, n=4000), tmp, "n")
            try:
                p.wait(timeout=400)
            except subprocess.TimeoutExpired:
                p.kill()
            d = read_out(o_) or {"contracts": {}}
            for n, q in d["contracts"].items():
                for f in q["fails"]:
                    violations.append(dict(how="contract clause false on the real code", contract=n, case=f["case"], clause=f["clause"], detail=f["detail"], given=f["given"]))
            if not violations:
                nfif = fresh
    # 5. evidence
    ev = evidence(prop, tier, seed, t0, cons, sym, conc, replays, violations, nfif, known_hits, problems, K)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.makedirs(OUT, exist_ok=True)
    for k, v in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[k]['what']}")
    if violations:
        path = os.path.join(OUT, f"replay_{prop}.json")
        json.dump(dict(property=prop, repo=REPO, violations=violations, rerun=f"cd {HERE} && ./check --replay {path}"), open(path, "w"), indent=1, default=str)
        for v in violations[:3]:
            print(f"  {v['contract']}: '{v['clause']}' fails: {v['detail']}"[:600])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if nfif:
        path = os.path.join(OUT, f"replay_{prop}.json")
        json.dump(dict(property=prop, failed_obligations=[dict(contract=r["contract"], case=r["case"], obligation=o["name"], goal=o.get("goal"), solver=o["solver"], solver_output=o.get("model")) for r, o in nfif]), open(path, "w"), indent=1, default=str)
        for r, o in nfif[:3]:
            print(f"  {r['contract']}: obligation '{o['name']}' was discharged on the accepted tree and is now refuted by {o['solver']}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        return 1
    if problems:
        for p in problems:
            print("problem:", p)
    runs = sum(d["runs"] for d in conc.values())
    n = ev["coverage"]
    print(f"{prop}: {n['discharged']}/{n['obligations']} obligations discharged, {runs} contract executions on the real code, {len(unsup)} function cases outside the verifier, {len(undecided)} undecided; {time.time()-t0:.1f}s")
    if n["obligations"] == 0 and runs == 0:
        print("nothing was checked")
        if any(d.get("left_out") for d in conc.values()):
            print("the code reads entries that real observations have and the inputs of the contracts do not: not decided, no violation found")
            return 0
        return 3
    return 0


def died(p, o, seed, tier, tmp, K):
    """the process that runs the real code died: is it an input on which the code itself crashes?"""
    import signal

    crashes = (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL, -signal.SIGABRT)
    try:
        name, i = open(o + ".at").read().split()
    except Exception:
        return None
    if p.returncode not in crashes or name not in K.REGISTRY:
        return None
    log = os.path.join(tmp, "crash.json")
    q, _, _ = start_concrete(dict(crash=dict(name=name, i=int(i), seed=seed, tier=tier, log=log)), tmp, "c")
    try:
        q.wait(timeout=200)
    except subprocess.TimeoutExpired:
        q.kill()
        return None
    if q.returncode not in crashes or not os.path.exists(log):
        return None
    d = json.load(open(log))
    return dict(how="the process running the real code is killed by a signal, twice, on this input", contract=name, case=d["case"], clause="no crash", detail=f"signal {-q.returncode}", given=d["given"])


def load_baseline():
    p = os.path.join(HERE, "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def evidence(prop, tier, seed, t0, cons, sym, conc, replays, violations, nfif, known_hits, problems, K):
    n_obl = n_dis = 0
    by_solver = {}
    fns = {}
    und = []
    for r in sym:
        con = K.REGISTRY[r["contract"]]
        f = fns.setdefault(r["contract"], dict(function=con.target, status="proved", obligations=0, discharged=0, cases=0, bodies_executed=set(), contracts_used_at_calls=set(), paths=0, solver_secs=0.0, samples=[], vacuous_clause_instances=0, exits={}))
        f["cases"] += 1
        f["paths"] += r["paths"]
        f["solver_secs"] = round(f["solver_secs"] + r["solver_secs"], 2)
        f["bodies_executed"] |= set(r["used"])
        f["contracts_used_at_calls"] |= set(r["models"])
        f["vacuous_clause_instances"] += r["n_vacuous"]
        for k, v in r["ended"].items():
            f["exits"][k] = f["exits"].get(k, 0) + v
        k = len(r["trivial"])
        f["obligations"] += k + len(r["obls"])
        f["discharged"] += k
        by_solver["normaliser"] = by_solver.get("normaliser", 0) + k
        for o in r["obls"]:
            if o["status"] == "discharged":
                f["discharged"] += 1
                by_solver[o["solver"]] = by_solver.get(o["solver"], 0) + 1
            else:
                und.append(dict(contract=r["contract"], case=r["case"], obligation=o["name"], status=o["status"]))
                f["status"] = o["status"]
        if r["unsupported"]:
            f["status"] = "bounded (outside the verifier: " + r["unsupported"][:200] + ")"
        elif k + len(r["obls"]) == 0 and r["ended"].get("return", 0) + r["ended"].get("raise", 0) == 0:
            f["status"] = "vacuous"
        f["samples"] = sorted({o["name"] for o in r["obls"]} | set(r["trivial"]))[:12]
    for f in fns.values():
        n_obl += f["obligations"]
        n_dis += f["discharged"]
        f["bodies_executed"] = sorted(f["bodies_executed"])
        f["contracts_used_at_calls"] = sorted(f["contracts_used_at_calls"])
    bounded = {}
    for c in cons:
        d = conc.get(c.name)
        if c.level != "proof" or fns.get(c.name, {}).get("status") != "proved":
            bounded[c.name] = dict(function=c.target, reason=c.why_bounded or fns.get(c.name, {}).get("status", ""), bound=c.bound, runs=d["runs"] if d else 0)
    lvl = level_of(cons)
    cov = dict(
        obligations=n_obl, discharged=n_dis,
        checker_cmd=f"cd /verif && ./check {prop} {tier}",
        trusted_base=TRUSTED,
        functions_under_contract=fns,
        back_ends=by_solver,
        solver_secs=round(sum(r["solver_secs"] for r in sym), 2),
        undischarged=und,
        bounded_stand_ins=bounded,
        contract_executions_on_real_code={n: dict(runs=d["runs"], distinct=d["distinct"], clauses=d["clauses"], rejected_by_precondition=d["skips"], timeouts=d["timeouts"], secs=round(d["secs"], 1)) for n, d in conc.items()},
        evaluations=sum(d["runs"] for d in conc.values()),
        distinct_nontrivial=sum(d["distinct"] for d in conc.values()),
        rule="inputs drawn by the contract's input description, growing in size; counted once per distinct input that satisfies the precondition and on which every clause was evaluated",
        samples=[dict(contract=n, **s) for n, d in conc.items() for s in d["samples"][:1]][:6],
        counterexamples_replayed=len(replays),
        known_findings_seen=sorted(known_hits),
        explanation="contracts on the real functions; the deciding step is the solver accepting every obligation generated from the current source; functions listed under bounded_stand_ins are only executed on inputs up to the stated bound and are not counted as proved",
    )
    if problems:
        cov["problems"] = problems
    ass = sorted({x for r in sym for x in r["assumptions"]})
    return dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=TRUSTED + ass, wall_s=round(time.time() - t0, 2), violations=len(violations) + (1 if nfif else 0))


def level_of(cons):
    return "proof" if all(c.level == "proof" for c in cons) else "other"


def replay(path):
    """re-run every recorded failing input on the real code"""
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="pyvc_")
    try:
        rp = [dict(contract=v["contract"], case=v["case"], given=v["given"]) for v in d.get("violations", []) if v.get("case") is not None]
        if any(v["clause"] == "no crash" for v in d.get("violations", [])):
            rp = rp[:1]
        if not rp:
            print(json.dumps(d, indent=1)[:4000])
            return 0
        p, o, err = start_concrete(dict(replay=rp, seconds=60, seed=1), tmp, "p")
        p.wait()
        out = read_out(o)
        if out is None:
            print("the process ended with", p.returncode)
            return 1 if p.returncode < 0 else 3
        bad = 0
        for r in out["replays"]:
            print(r["contract"], "case", r["case"], r["status"], r["info"])
            bad |= r["status"] == "fail"
        return 1 if bad else 0
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())
