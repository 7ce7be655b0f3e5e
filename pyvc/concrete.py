"""Runs contracts on the real functions in the repository's own interpreter.

python -m pyvc.concrete job.json out.json
job: {"contracts": [...], "seconds": s, "n": n, "seed": k, "replay": [{contract, case, given}], "conform": bool}
Used to (a) replay the verifier's counterexamples, (b) guard the verifier's axiomatisation of numpy against the
running system, (c) stand in, labelled bounded, for functions outside the verifier's reach."""
import sys
import os
import json
import time
import random
import signal
import zlib

sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class RunTimeout(BaseException):
    pass


def _alarm(*a):
    raise RunTimeout()


class CpuTimeout(RunTimeout):
    pass


def _cpu(*a):
    raise CpuTimeout()


_where = []


def mark(name, i):
    """where the search is, for the driver to find the input on which the process died"""
    if _where:
        os.pwrite(_where[0], f"{name} {i:>12d}\n".encode(), 0)


def crash(K, job):
    """run one input of the search again: the driver looks at how this process ends"""
    con = K.REGISTRY[job["name"]]
    rng = random.Random(zlib.crc32(f"{con.name}:{job['seed']}".encode()))
    n = size_of_search(con, job)
    for k in range(job["i"] + 1):
        bits = rng.getrandbits(64)
    case, size = plan(con, job["i"], n)
    b = K.Builder(random.Random(bits), size=size)
    con.inputs(b, con.cases[case])
    with open(job["log"], "w") as f:
        json.dump(dict(case=case, given=b.log), f, default=str)
    safe(K, con, con.cases[case], K.Builder(random.Random(bits), size=size))


def size_of_search(con, job):
    return max(job.get("n") or 0, 0) or (con.n_thorough if job.get("tier") == "thorough" else con.n_quick)


def plan(con, i, n):
    """grow input sizes over the run; every third run uses the small end"""
    return i % len(con.cases), (2 + (i * 7) // max(n, 1) if i % 3 else 1 + (i // 3) % 3)


def main():
    job = json.load(open(sys.argv[1]))
    import resource

    # runaway allocations fail inside this process instead of exhausting the machine
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    out = {"contracts": {}, "replays": []}
    from pyvc import contract as K

    K.load_all()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu)
    if job.get("crash"):
        return crash(K, job["crash"])
    _where.append(os.open(sys.argv[2] + ".at", os.O_CREAT | os.O_RDWR, 0o600))
    for rp in job.get("replay", []):
        con = K.REGISTRY[rp["contract"]]
        b = K.Builder(random.Random(1), given=rp["given"])
        st, info = safe(K, con, con.cases[rp["case"]], b)
        out["replays"].append(dict(status=st, info=info, given=b.log, contract=rp["contract"], case=rp["case"]))
    for name in job.get("contracts", []):
        con = K.REGISTRY[name]
        out["contracts"][name] = search(K, con, job)
        with open(sys.argv[2] + ".part", "w") as f:
            json.dump(out, f, default=str)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, default=str)


def safe(K, con, case, b):
    cpu = int(getattr(con, "run_timeout", 60))
    signal.alarm(4 * cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        return K.run_once(con, case, b)
    except CpuTimeout:
        return "hang", dict(clause="terminates", detail=f"still running after {cpu} s of processor time on an input of this size", known=None)
    except RunTimeout:
        return "timeout", None
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def search(K, con, job):
    rng = random.Random(zlib.crc32(f"{con.name}:{job['seed']}".encode()))
    n = size_of_search(con, job)
    res = dict(runs=0, skips=0, timeouts=0, fails=[], known={}, clauses=0, samples=[], nontrivial=0)
    t0 = time.time()
    i = 0
    distinct = set()
    limit = job["seconds"]
    while i < n and time.time() - t0 < limit:
        case, size = plan(con, i, n)
        bits = rng.getrandbits(64)
        mark(con.name, i)
        b = K.Builder(random.Random(bits), size=size)
        i += 1
        st, info = safe(K, con, con.cases[case], b)
        if st == "hang":
            # once more, to be sure it is the input and not the machine
            st, info = safe(K, con, con.cases[case], K.Builder(random.Random(bits), size=size))
            st = "fail" if st == "hang" else st
        if st == "skip":
            res["skips"] += 1
            res["left_out"] = res.get("left_out", 0) + (info == "input")
            continue
        if st == "timeout":
            res["timeouts"] += 1
            continue
        res["runs"] += 1
        h = zlib.crc32(json.dumps(b.log, default=str, sort_keys=True).encode())
        if h not in distinct:
            distinct.add(h)
        if isinstance(info, int):
            res["clauses"] += info
        if len(res["samples"]) < 2 and st == "ok":
            res["samples"].append(dict(case=case, given=short(b.log)))
        if st == "fail":
            k = info.get("known")
            if k:
                r = res["known"].setdefault(k, dict(count=0, clause=info["clause"], detail=info["detail"], given=short(b.log)))
                r["count"] += 1
            else:
                res["fails"].append(dict(clause=info["clause"], detail=info["detail"], given=b.log, case=case, contract=con.name))
                if len(res["fails"]) >= 3 or info["clause"] == "terminates":
                    break
    res["secs"] = time.time() - t0
    res["distinct"] = len(distinct)
    return res


def short(log):
    s = json.dumps(log, default=str)
    return json.loads(s) if len(s) < 1500 else {k: (v if not isinstance(v, dict) else {"shape": v.get("shape")}) for k, v in json.loads(s).items()}


if __name__ == "__main__":
    main()
