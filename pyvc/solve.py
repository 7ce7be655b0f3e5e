"""Discharging obligations: ground instantiation of definitional axioms, z3 with fallbacks, cvc5."""
import time
import itertools
import z3
from . import terms as T
from .terms import And, Or, Not, Implies


def collect_apps(ts, reg, seen_ids):
    out = []
    stack = list(ts)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen_ids:
            continue
        seen_ids[i] = x
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.decl().name() in reg:
                if not has_var(x):
                    out.append(x)
            stack.extend(x.children())
    return out


_hv = {}


def has_var(t):
    i = t.get_id()
    h = _hv.get(i)
    if h is not None and h[0].eq(t):
        return h[1]
    r = z3.is_var(t) or any(has_var(c) for c in t.children())
    _hv[i] = (t, r)
    return r


def cand_tuples(idx_terms, dims):
    per = []
    for d in dims:
        v = T.num_val(z3.simplify(d)) if isinstance(d, z3.ExprRef) else d
        per.append([z3.IntVal(0)] if v == 1 else idx_terms)
    return itertools.product(*per)


class Axioms:
    """instantiates axioms for occurrences of definitional functions"""

    def __init__(self, eng):
        self.eng = eng
        self.done = set()
        self.sums = {}
        self.nzats = {}
        self.nzcnts = {}
        self.lws = {}
        self.reds = {}
        self.uqs = {}
        self.out = []
        self.keep = []

    def add(self, t):
        if T.is_true(t):
            return
        self.out.append(T.zb(t))

    def visit(self, x):
        E = self.eng
        name = x.decl().name()
        kind, info, f = E.registry[name]
        a = x.children()
        if kind == "sum":
            self.visit_sum(x, info, a)
        elif kind in ("nzcnt", "nzat", "nzrank"):
            self.visit_nz(x, kind, info, a)
        elif kind in ("uqcnt", "uqat", "uqsrc", "uqwho"):
            self.visit_uq(x, kind, info, a)
        elif kind in ("lwhit", "lwwho"):
            self.visit_lw(x, kind, info, a)
        elif kind.startswith("red:"):
            self.visit_red(x, kind[4:], info, a)
        elif kind.startswith("u:"):
            self.visit_u(x, kind[2:], a)
        elif kind == "hook":
            for t in info(E, x, a):
                self.add(t)

    # -- sums
    def visit_sum(self, x, rec, a):
        E = self.eng
        lo, hi, params = a[0], a[1], a[2:]
        zero = z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0)
        self.add(z3.Implies(hi <= lo, x == zero))
        sign = sum_sign(E, rec)
        for h in range(1, getattr(E, "unroll", 0) + 1):
            self.add(z3.Implies(hi - lo == h, x == z3.Sum([E.inst_body(rec, params, [lo + j])[0] for j in range(h)])))
        wname = rec.key + ".w"
        if sign == 1:
            self.add(x >= zero)
            # witness: positive sum has a positive term
            w = z3.Function(wname, *[p.sort() for p in a], z3.IntSort())(*a)
            bw = E.inst_body(rec, params, [w])[0]
            self.add(z3.Implies(x > zero, z3.And(lo <= w, w < hi, bw > zero)))
        if sum_unit(E, rec):
            self.add(z3.Implies(hi >= lo, x <= (z3.ToReal(hi - lo) if zero.is_real() else hi - lo)))
            # full count iff all: witness of a missing term
            w = z3.Function(rec.key + ".m", *[p.sort() for p in a], z3.IntSort())(*a)
            bw = E.inst_body(rec, params, [w])[0]
            n = z3.ToReal(hi - lo) if zero.is_real() else hi - lo
            self.add(z3.Implies(z3.And(hi >= lo, x < n), z3.And(lo <= w, w < hi, bw == zero)))
        self.sums.setdefault(rec.key, []).append((x, lo, hi, params, rec))

    def sum_terms(self, idx_terms, goal_terms):
        """second phase: relate sums to instances and to each other"""
        E = self.eng
        for key, occ in self.sums.items():
            for x, lo, hi, params, rec in occ:
                zero = z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0)
                sign = sum_sign(E, rec)
                if sign == 1:
                    for t in idx_terms:
                        k = ("st", x.get_id(), t.get_id())
                        if k in self.done:
                            continue
                        self.done.add(k)
                        b = E.inst_body(rec, params, [t])[0]
                        self.add(z3.Implies(z3.And(lo <= t, t < hi), x >= b))
            # consecutive upper bounds
            for (x, lo, hi, params, rec), (y, lo2, hi2, params2, _) in itertools.permutations(occ, 2):
                k = ("sc", x.get_id(), y.get_id())
                if k in self.done:
                    continue
                self.done.add(k)
                if not lo.eq(lo2) or any(not p.eq(q) for p, q in zip(params, params2)):
                    continue
                d = T.num_val(z3.simplify(hi2 - hi))
                if d == 1:
                    b = E.inst_body(rec, params, [hi])[0]
                    self.add(z3.Implies(lo <= hi, y == x + b))
            # partial sums of terms that are not negative grow with their upper bound, by at least the next term
            if occ and sum_sign(E, occ[0][4]) == 1:
                left = 60
                for (x, lo, hi, params, rec), (y, lo2, hi2, params2, _) in itertools.permutations(occ, 2):
                    k = ("sm", x.get_id(), y.get_id())
                    if k in self.done or left == 0:
                        continue
                    left -= 1
                    self.done.add(k)
                    if hi.eq(hi2) and lo.eq(lo2):
                        continue
                    same = [lo == lo2] + [p == q for p, q in zip(params, params2) if not p.eq(q)]
                    b = E.inst_body(rec, params, [hi])[0]
                    self.add(z3.Implies(z3.And(*same, hi <= hi2), x <= y))
                    self.add(z3.Implies(z3.And(*same, lo <= hi, hi < hi2), x + b <= y))

    # -- nonzero
    def visit_nz(self, x, kind, info, a):
        E = self.eng
        nd = info["nd"]
        rec = info["rec"]
        if kind == "nzcnt":
            dims, params = a[:nd], a[nd:]
            cnt = x
        elif kind == "nzat":
            dims, params = a[1: 1 + nd], a[1 + nd:]
            cnt = info["cnt"](*dims, *params)
        else:
            dims, params = a[nd: 2 * nd], a[2 * nd:]
            cnt = info["cnt"](*dims, *params)
        dp = list(dims) + list(params)
        at, rank = info["at"], info["rank"]
        base = (rec.key,) + tuple(t.get_id() for t in dp)

        def atv(k):
            return [f(k, *dp) for f in at]

        def member(k):
            v = atv(k)
            m = E.inst_body(rec, params, v)[0]
            rng = [z3.And(p >= 0, p < d) for p, d in zip(v, dims)]
            return z3.And(*rng, m, rank(*v, *dp) == k)

        if ("nzc",) + base not in self.done:
            self.done.add(("nzc",) + base)
            self.keep.append(dp)
            prodd = dims[0]
            for d in dims[1:]:
                prodd = prodd * d
            self.add(cnt >= 0)
            self.add(z3.Implies(z3.And(*[d >= 0 for d in dims]), cnt <= prodd))
            self.add(z3.Implies(cnt > 0, member(z3.IntVal(0))))
            self.nzcnts[base] = (cnt, dims, params, info)
            if nd == 1:
                # a mask that is full: witness of a false position
                w = z3.Function(rec.key + ".miss", *[p.sort() for p in dp], z3.IntSort())(*dp)
                m = E.inst_body(rec, params, [w])[0]
                self.add(z3.Implies(z3.And(dims[0] >= 0, cnt < dims[0]), z3.And(w >= 0, w < dims[0], z3.Not(m))))
        if kind == "nzat":
            k = a[0]
            self.add(z3.Implies(z3.And(k >= 0, k < cnt), member(k)))
            ks = self.nzats.setdefault(base, [])
            if nd == 1:
                for k2 in ks:
                    self.add(z3.Implies(z3.And(0 <= k, k < k2, k2 < cnt), atv(k)[0] < atv(k2)[0]))
                    self.add(z3.Implies(z3.And(0 <= k2, k2 < k, k < cnt), atv(k2)[0] < atv(k)[0]))
                self.add(z3.Implies(z3.And(k >= 0, k < cnt), atv(k)[0] >= k))
            if not any(k.eq(y) for y in ks):
                ks.append(k)
        if kind == "nzrank":
            c = a[:nd]
            m = E.inst_body(rec, params, c)[0]
            inr = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(c, dims)], m)
            r = x
            self.add(z3.Implies(inr, z3.And(r >= 0, r < cnt, *[p == q for p, q in zip(atv(r), c)])))

    def nz_terms(self, idx_terms):
        """completeness: true positions among the index terms are enumerated"""
        E = self.eng
        for base, (cnt, dims, params, info) in list(self.nzcnts.items()):
            nd = info["nd"]
            if nd > 2:
                continue
            rec = info["rec"]
            dp = list(dims) + list(params)
            cands = cand_tuples(idx_terms, dims)
            for c in itertools.islice(cands, 40):
                k = ("nzt",) + base + tuple(t.get_id() for t in c)
                if k in self.done:
                    continue
                self.done.add(k)
                m = E.inst_body(rec, params, list(c))[0]
                inr = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(c, dims)], m)
                r = info["rank"](*c, *dp)
                self.add(z3.Implies(inr, z3.And(r >= 0, r < cnt, *[f(r, *dp) == q for f, q in zip(info["at"], c)])))
        # equal masks over equal ranges count equally
        items = list(self.nzcnts.items())
        for (b1, (c1, d1, p1, i1)), (b2, (c2, d2, p2, i2)) in itertools.combinations(items, 2):
            k = ("nze", b1, b2)
            if k in self.done:
                continue
            self.done.add(k)
            if i1["nd"] != 1 or i2["nd"] != 1:
                continue

    # -- distinct / sorted values
    def visit_uq(self, x, kind, info, a):
        E = self.eng
        rec, tag = info["rec"], info["tag"]
        k, dp = (None, a) if kind == "uqcnt" else (a[0], a[1:])
        n, params = dp[0], dp[1:]
        base = (rec.key,) + tuple(t.get_id() for t in dp)
        cnt = info["cnt"](*dp) if tag == "uq" else n
        at, src, who = ((lambda i, f=info[q]: f(i, *dp)) for q in ("at", "src", "who"))
        if base not in self.uqs:
            self.keep.append(dp)
            self.uqs[base] = dict(n=n, params=params, rec=rec, who=who, at=at, src=src, cnt=cnt, tag=tag, ks=[])
            if tag == "uq":
                self.add(z3.And(cnt >= 0, z3.Implies(n >= 0, cnt <= n), z3.Implies(n > 0, cnt > 0)))
        u = self.uqs[base]
        if kind in ("uqat", "uqsrc"):
            s = src(k)
            b = E.inst_body(rec, params, [s])[0]
            self.add(z3.Implies(z3.And(k >= 0, k < cnt), z3.And(s >= 0, s < n, b == at(k), who(s) == k)))
            if not any(k.eq(y) for y in u["ks"]):
                for y in u["ks"]:
                    for p, q in ((k, y), (y, k)):
                        lt = at(p) < at(q) if tag == "uq" else z3.And(at(p) <= at(q), z3.Implies(at(p) == at(q), src(p) < src(q)))
                        self.add(z3.Implies(z3.And(0 <= p, p < q, q < cnt), lt))
                u["ks"].append(k)
        elif kind == "uqwho":
            self.uq_who(u, k)

    def uq_who(self, u, i):
        E = self.eng
        w = u["who"](i)
        b = E.inst_body(u["rec"], u["params"], [i])[0]
        f = [w >= 0, w < u["cnt"], u["at"](w) == b]
        if u["tag"] == "so":
            f.append(u["src"](w) == i)
        self.add(z3.Implies(z3.And(i >= 0, i < u["n"]), z3.And(*f)))

    def uq_terms(self, idx_terms):
        for base, u in list(self.uqs.items()):
            for t in idx_terms[:8]:
                k = ("uqt",) + base + (t.get_id(),)
                if k not in self.done:
                    self.done.add(k)
                    self.uq_who(u, t)

    # -- last writer
    def visit_lw(self, x, kind, info, a):
        E = self.eng
        rec, nb, nc = info["rec"], info["nb"], info["nc"]
        coords, dims, params = a[:nc], a[nc: nc + nb], a[nc + nb:]
        base = (rec.key,) + tuple(t.get_id() for t in a)
        if base in self.done:
            return
        self.done.add(base)
        hit = info["hit"](*a)
        who = [w(*a) for w in info["who"]]
        body = E.inst_body(rec, params, who)
        self.add(z3.Implies(hit, z3.And(*[z3.And(w >= 0, w < d) for w, d in zip(who, dims)], *[b == c for b, c in zip(body, coords)])))
        self.lws[base] = (hit, who, coords, dims, params, info)

    def lw_terms(self, idx_terms):
        E = self.eng
        for base, (hit, who, coords, dims, params, info) in list(self.lws.items()):
            nb = info["nb"]
            for c in itertools.islice(cand_tuples(idx_terms, dims), 40):
                k = ("lwt",) + base + tuple(t.get_id() for t in c)
                if k in self.done:
                    continue
                self.done.add(k)
                body = E.inst_body(info["rec"], params, list(c))
                inr = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(c, dims)], *[b == q for b, q in zip(body, coords)])
                if nb == 1:
                    self.add(z3.Implies(inr, z3.And(hit, who[0] >= c[0])))
                else:
                    self.add(z3.Implies(inr, hit))

    # -- reductions
    def visit_red(self, x, tag, info, a):
        E = self.eng
        rec, nd, nex = info["rec"], info["nd"], info["nex"]
        dims, ex, params = a[:nd], a[nd: nd + nex], a[nd + nex:]
        base = (x.get_id(),)

        def wit(suffix):
            return [z3.Function(f"{rec.key}.{suffix}{j}", *[t.sort() for t in a], z3.IntSort())(*a) for j in range(nd)]

        nonempty = z3.And(*[d > 0 for d in dims])
        if tag in ("max", "min"):
            w = wit("arg")
            b = E.inst_body(rec, params, w)[0]
            self.add(z3.Implies(nonempty, z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(w, dims)], x == b)))
            self.reds[base] = (tag, x, rec, dims, params)
        elif tag in ("argmax", "argmin"):
            self.add(z3.Implies(nonempty, z3.And(x >= 0, x < dims[0])))
            self.reds[base] = (tag, x, rec, dims, params)
        elif tag in ("any", "all"):
            w = wit("wit")
            b = E.inst_body(rec, params, w)[0]
            rng = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(w, dims)])
            if tag == "any":
                self.add(z3.Implies(x, z3.And(rng, b)))
            else:
                self.add(z3.Implies(z3.Not(x), z3.And(rng, z3.Not(b))))
            self.reds[base] = (tag, x, rec, dims, params)
        elif tag == "median":
            lo, hi = wit("lo"), wit("hi")
            bl, bh = E.inst_body(rec, params, lo)[0], E.inst_body(rec, params, hi)[0]
            rl = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(lo, dims)])
            rh = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(hi, dims)])
            self.add(z3.Implies(nonempty, z3.And(rl, rh, bl <= x, x <= bh)))

    def red_terms(self, idx_terms):
        E = self.eng
        for base, (tag, x, rec, dims, params) in list(self.reds.items()):
            nd = len(dims)
            for c in itertools.islice(itertools.product(idx_terms, repeat=nd), 60):
                k = ("rt",) + base + tuple(t.get_id() for t in c)
                if k in self.done:
                    continue
                self.done.add(k)
                b = E.inst_body(rec, params, list(c))[0]
                inr = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(c, dims)])
                if tag == "max":
                    self.add(z3.Implies(inr, x >= b))
                elif tag == "min":
                    self.add(z3.Implies(inr, x <= b))
                elif tag == "any":
                    self.add(z3.Implies(z3.And(inr, b), x))
                elif tag == "all":
                    self.add(z3.Implies(z3.And(inr, x), b))
                elif tag in ("argmax", "argmin"):
                    b2 = E.inst_body(rec, params, [x])[0]
                    if tag == "argmax":
                        self.add(z3.Implies(inr, z3.And(b2 >= b, z3.Implies(b2 == b, x <= c[0]))))
                    else:
                        self.add(z3.Implies(inr, z3.And(b2 <= b, z3.Implies(b2 == b, x <= c[0]))))

    # -- real functions
    def visit_u(self, x, name, a):
        E = self.eng
        R = z3.RealSort()

        def uf(n):
            return E.def_fn("u_" + n, [R], R, "u:" + n, None)

        if name == "sqrt":
            self.add(z3.Implies(a[0] >= 0, z3.And(x >= 0, x * x == a[0])))
            self.add(z3.Implies(a[0] > 0, x > 0))
        elif name in ("sin", "cos"):
            s, c = uf("sin")(a[0]), uf("cos")(a[0])
            self.add(s * s + c * c == 1)
            self.add(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
            self.add(z3.Implies(a[0] == 0, z3.And(s == 0, c == 1)))
            # parity, evaluated on the negation if it occurs
            neg = z3.simplify(-a[0])
            self.trig = getattr(self, "trig", {})
            self.trig.setdefault(a[0].get_id(), a[0])
            if neg.get_id() in self.trig:
                s2, c2 = uf("sin")(neg), uf("cos")(neg)
                self.add(z3.And(s2 == -s, c2 == c))
        elif name == "exp":
            self.add(x > 0)
            self.add(z3.Implies(a[0] == 0, x == 1))
        elif name == "arctan2":
            self.add(z3.And(x <= E.pi, x >= -E.pi))
            y_, x_ = a
            r = z3.Function("atan2.r", R, R, R)(y_, x_)
            c, s = uf("cos")(x), uf("sin")(x)
            self.add(z3.And(r >= 0, r * r == y_ * y_ + x_ * x_, r * c == x_, r * s == y_))
        elif name == "arccos":
            self.add(z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), z3.And(x >= 0, x <= E.pi, uf("cos")(x) == a[0])))
        elif name == "arcsin":
            self.add(z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), z3.And(2 * x >= -E.pi, 2 * x <= E.pi, uf("sin")(x) == a[0])))
        elif name == "tan":
            self.add(uf("cos")(a[0]) * x == uf("sin")(a[0]))
        elif name == "arctan":
            self.add(z3.And(2 * x > -E.pi, 2 * x < E.pi))
            c, s = uf("cos")(x), uf("sin")(x)
            self.add(z3.And(c > 0, s == a[0] * c))
            if z3.is_app_of(a[0], z3.Z3_OP_DIV):
                p, q = a[0].children()
                self.add(z3.Implies(q != 0, s * q == p * c))
        elif name in ("powi_f", "powi_i"):
            b, e = a
            self.add(z3.Implies(e == 0, x == 1))
            self.add(z3.Implies(e == 1, x == b))
            self.add(z3.Implies(e == 2, x == b * b))


_sign = {}


def sum_sign(E, rec):
    """1 if every term of the sum is provably >= 0"""
    h = _sign.get((id(E), rec.key))
    if h is None:
        b = rec.body[0]
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(b < 0)
        h = 1 if s.check() == z3.unsat else 0
        _sign[(id(E), rec.key)] = h
    return h


_unit = {}


def sum_unit(E, rec):
    h = _unit.get((id(E), rec.key))
    if h is None:
        b = rec.body[0]
        if not z3.is_int(b):
            h = False
        else:
            s = z3.Solver()
            s.set("timeout", 300)
            s.add(z3.Not(z3.Or(b == 0, b == 1)))
            h = s.check() == z3.unsat
        _unit[(id(E), rec.key)] = h
    return h


def index_terms(goal, pc, limit=10):
    """integer terms worth instantiating with: goal constants that look like indices first"""
    from .engine import free_consts

    out = []
    seen = set()

    def push(t):
        if t.get_id() not in seen and len(out) < limit:
            seen.add(t.get_id())
            out.append(t)

    cs = [c for c in free_consts(goal) if z3.is_int(c)]
    for c in cs:
        if not c.decl().name().startswith("n_"):
            push(c)
    for p in reversed(pc[-12:]):
        for c in free_consts(p):
            if z3.is_int(c) and not c.decl().name().startswith("n_") and "!" in c.decl().name():
                push(c)
    # small numerals that occur as index arguments of the goal (or, failing any index, zero)
    stack, vis = [goal], set()
    while stack:
        x = stack.pop()
        if x.get_id() in vis:
            continue
        vis.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            for q in x.children():
                if z3.is_int_value(q) and len(out) < 5 and 0 <= q.as_long() < 4:
                    push(q)
        stack.extend(x.children())
    if not out:
        push(z3.IntVal(0))
    return out


def pinned(goal, pc, ms=300, cap=6):
    """index constants of the goal that the path condition fixes to a single value"""
    from .engine import free_consts

    out = []
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*pc)
    for c in free_consts(goal):
        if not z3.is_int(c) or len(out) >= cap:
            continue
        if c.decl().name().startswith("n_"):
            continue
        for v in (0,):
            s.push()
            s.add(c != v)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                out.append((c, z3.IntVal(v)))
    return out


def ite_conds(goal):
    out, seen, st = [], set(), [goal]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not has_var(x.arg(0)):
            if not any(c.eq(x.arg(0)) for c in out):
                out.append(x.arg(0))
        st.extend(x.children())
    return out


def by_cases(goal, pc, ms, depth=0):
    """substitute fixed indices, split on the conditions of conditional terms, compare normal forms"""
    pins = pinned(goal, pc) if depth == 0 else []
    if pins:
        goal = z3.substitute(goal, *pins)
        pc = [z3.substitute(T.zb(p), *pins) for p in pc]
    g = z3.simplify(goal, som=True)
    if z3.is_true(g):
        return True
    conds = [c for c in ite_conds(goal)]
    conds.sort(key=lambda c: len(str(c)))
    if not conds or depth > 4:
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*pc)
        s.add(z3.Not(g))
        return s.check() == z3.unsat
    c = conds[0]
    for v, lit in ((True, c), (False, z3.Not(c))):
        g2 = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v))))
        if z3.is_true(g2):
            continue
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*pc)
        s.add(lit)
        if s.check() == z3.unsat:
            continue
        if not by_cases(g2, list(pc) + [lit], ms, depth + 1):
            return False
    return True


def linear_int(x):
    """a comparison of sums of integer constants"""
    ok = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)
    if not (z3.is_app(x) and x.decl().kind() in ok and z3.is_int(x.arg(0))):
        return False
    st = list(x.children())
    while st:
        y = st.pop()
        k = y.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            st.extend(y.children())
        elif k == z3.Z3_OP_MUL:
            if sum(not z3.is_int_value(c) for c in y.children()) > 1:
                return False
            st.extend(y.children())
        elif not (z3.is_int_value(y) or (k == z3.Z3_OP_UNINTERPRETED and y.num_args() == 0)):
            return False
    return True


def as_int(x):
    """the integer term equal to the real term x, if x is a sum of integers"""
    k = x.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    if z3.is_rational_value(x):
        return z3.IntVal(x.numerator_as_long()) if x.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_ITE):
        ch = [c if z3.is_bool(c) else as_int(c) for c in x.children()]
        if any(c is None for c in ch):
            return None
        return z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Product(ch) if k == z3.Z3_OP_MUL else z3.If(*ch)
    return None


def settle(eng, goal, pc, rounds=6):
    """the goal with its conditions cleared up, equivalent under pc: `some position is selected` next to `position i is selected`
    is dropped, and comparisons of indices that pc decides are replaced by their truth value"""
    while z3.is_implies(goal):
        pc = list(pc) + [goal.arg(0)]
        goal = goal.arg(1)
    lin = []
    st = [T.zb(p) for p in pc]
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif linear_int(x) or (z3.is_not(x) and linear_int(x.arg(0))):
            lin.append(x)
    s = z3.Solver()
    s.set("timeout", 200)
    s.add(*lin)
    decided = {}

    def decide(a):
        i = a.get_id()
        if i not in decided:
            v = None
            if linear_int(a):
                if s.check(z3.Not(a)) == z3.unsat:
                    v = True
                elif s.check(a) == z3.unsat:
                    v = False
            decided[i] = (a, v)
        return decided[i][1]

    def guard(x):
        """the number counted, if x says that a selection is not empty"""
        y = None
        if z3.is_not(x) and x.arg(0).decl().kind() == z3.Z3_OP_LE and z3.is_int_value(x.arg(0).arg(1)) and x.arg(0).arg(1).as_long() == 0:
            y = x.arg(0).arg(0)
        elif x.decl().kind() in (z3.Z3_OP_GT, z3.Z3_OP_GE) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == (0 if x.decl().kind() == z3.Z3_OP_GT else 1):
            y = x.arg(0)
        if y is None or not z3.is_app(y) or not y.num_args():
            return None
        reg = eng.registry.get(y.decl().name())
        return (y, reg[1]) if reg is not None and reg[0] == "nzcnt" else None

    idx = [t for t in index_terms(goal, pc) if z3.is_app(t) and t.num_args() == 0]
    memo = {}

    def implied(rest, y, info):
        nd, a = info["nd"], y.children()
        dims, params = a[:nd], a[nd:]
        for c in itertools.islice(cand_tuples(idx, dims), 40):
            m = eng.inst_body(info["rec"], params, list(c))[0]
            f = z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(c, dims)], m)
            f = clear(z3.simplify(f))
            if z3.is_true(f):
                return True
            r = [clear(z3.simplify(x)) for x in rest]
            q = z3.Solver()
            q.set("timeout", 300)
            q.add(*lin, *r, z3.Not(f))
            if q.check() == z3.unsat:
                return True
        return False

    def clear(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if z3.is_app(x) and x.num_args() and not has_var(x):
            if z3.is_bool(x) and decide(x) is not None:
                r = z3.BoolVal(decide(x))
            else:
                ch = list(x.children())
                if z3.is_and(x):
                    flat = []
                    for y in ch:
                        flat.extend(y.children() if z3.is_and(y) else [y])
                    ch = flat
                    for y in list(ch):
                        g = guard(y)
                        if g is not None and len(ch) > 1:
                            rest = [u for u in ch if not u.eq(y)]
                            if implied(rest, *g):
                                ch = rest
                ch = [clear(y) for y in ch]
                if z3.is_and(x):
                    r = z3.And(*ch)
                elif z3.is_or(x):
                    r = z3.Or(*ch)
                elif x.decl().kind() == z3.Z3_OP_ITE:
                    r = ch[1] if z3.is_true(ch[0]) else ch[2] if z3.is_false(ch[0]) else z3.If(*ch)
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.Sum(ch) if x.decl().kind() == z3.Z3_OP_ADD else z3.Product(ch))
        if z3.is_app(r) and r.num_args() and not has_var(r):
            k = r.decl().kind()
            if k == z3.Z3_OP_TO_INT:
                y = as_int(r.arg(0))
                r = r if y is None else y
            elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(r.arg(0)):
                y = as_int(r.arg(0)), as_int(r.arg(1))
                if None not in y:
                    r = {z3.Z3_OP_LE: y[0] <= y[1], z3.Z3_OP_LT: y[0] < y[1], z3.Z3_OP_GE: y[0] >= y[1], z3.Z3_OP_GT: y[0] > y[1], z3.Z3_OP_EQ: y[0] == y[1]}[k]
            elif k == z3.Z3_OP_ITE and z3.simplify(r.arg(1) == r.arg(2), som=True).eq(z3.BoolVal(True)):
                r = r.arg(1)
        memo[i] = (x, r)
        return r

    g = z3.simplify(goal)
    for _ in range(rounds):
        memo.clear()
        g2 = z3.simplify(clear(g))
        if g2.eq(g):
            break
        g = g2
    # a true position means that the selection is not empty
    facts = []
    for x in collect_apps([T.zb(p) for p in pc], eng.registry, {}):
        kind, info = eng.registry[x.decl().name()][:2]
        if kind != "nzcnt" or len(facts) > 40:
            continue
        nd, a = info["nd"], x.children()
        for c in itertools.islice(cand_tuples(idx, a[:nd]), 10):
            m = eng.inst_body(info["rec"], a[nd:], list(c))[0]
            f = z3.simplify(z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(c, a[:nd])], m))
            for _ in range(3):
                memo.clear()
                f = z3.simplify(clear(f))
            if not z3.is_false(f):
                facts.append(z3.Implies(f, x > 0))
    return g, pc + facts


def purify(ts):
    """non-linear subterms replaced by constants (a weakening: unsat stays sound); None if there are none"""
    memo, names = {}, {}

    def num(x):
        return z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_algebraic_value(x)

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if z3.is_app(x) and x.num_args():
            k = x.decl().kind()
            nl = k == z3.Z3_OP_MUL and sum(not num(c) for c in x.children()) > 1
            nl = nl or k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not num(x.arg(1)) or k == z3.Z3_OP_POWER
            if nl and not has_var(x):
                y = z3.simplify(x, som=True)
                r = names.setdefault(y.get_id(), (y, z3.FreshConst(x.sort(), "nl")))[1]
            else:
                ch = [go(c) for c in x.children()]
                if any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch) if k != z3.Z3_OP_ITE else z3.If(*ch)
        memo[i] = (x, r)
        return r

    out = [go(T.zb(t)) for t in ts]
    return out if names else None


def check_pure(ts, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*ts)
    return s.check() == z3.unsat


def relevant(goal, pc):
    return pc


def discharge(eng, goal, pc, ms, light=False):
    eng.stats["queries"] += 1
    t0 = time.time()
    goal = T.zb(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "unsat", "simplify", None, 0
    base = list(pc) + [z3.Not(goal)]
    s = z3.Solver()
    s.set("timeout", min(ms, 600))
    s.add(*base)
    r = s.check()
    seen0 = {}
    apps = collect_apps(base, eng.registry, seen0)
    if r == z3.unsat:
        eng.stats["secs"] += time.time() - t0
        return "unsat", "z3", None, 0
    if r == z3.sat and not apps:
        eng.stats["secs"] += time.time() - t0
        return "sat", "z3", s.model(), 0
    if not light and any(eng.registry[x.decl().name()][0] == "nzcnt" for x in collect_apps([goal], eng.registry, {})):
        g, pc2 = settle(eng, goal, pc)
        pure = None if z3.is_true(g) else purify([T.zb(p) for p in pc2] + [z3.Not(g)])
        if z3.is_true(g) or (pure is not None and check_pure(pure, 2000)) or by_cases(g, pc2, min(ms, 1500)):
            eng.stats["secs"] += time.time() - t0
            return "unsat", "z3+settled", None, 0
    # ground instantiation rounds
    ax = Axioms(eng)
    seen = {}
    frontier = collect_apps(base, eng.registry, seen)
    idx = index_terms(goal, pc)
    if getattr(eng, "unroll", 0):
        idx = [z3.IntVal(j) for j in range(eng.unroll)] + idx
    total = []
    rounds = 2 if light else 4
    status, model = "unknown", None
    for rnd in range(rounds):
        ax.out = []
        for x in frontier:
            ax.visit(x)
        # add witnesses / nested index args as instantiation terms in later rounds
        extra = []
        if rnd >= 1:
            for x in frontier:
                for c in x.children():
                    if z3.is_int(c) and not z3.is_int_value(c) and len(extra) < 6 and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.num_args() > 0:
                        extra.append(c)
                if z3.is_int(x) and (x.decl().name().endswith((".w", ".m", ".rank")) or ".at" in x.decl().name() or ".wit" in x.decl().name()):
                    if len(extra) < 8:
                        extra.append(x)
        terms = idx + [e for e in extra if not any(e.eq(i) for i in idx)]
        ax.sum_terms(terms, None)
        ax.nz_terms(terms)
        ax.lw_terms(terms)
        ax.uq_terms(terms)
        ax.red_terms(terms)
        new = ax.out
        if not new and rnd > 0:
            break
        total += new
        if len(total) > 5000:
            # out of reach: more instances only make it slower
            eng.stats["secs"] += time.time() - t0
            return "unknown", "z3+axioms", None, len(total)
        frontier = collect_apps(new, eng.registry, seen)
        s = z3.Solver()
        s.set("timeout", min(ms, 2500) if rnd < rounds - 1 else ms)
        s.add(*base)
        s.add(*total)
        r = s.check()
        if r == z3.unsat:
            eng.stats["secs"] += time.time() - t0
            return "unsat", "z3+axioms", None, len(total)
        status = "sat" if r == z3.sat else "unknown"
        model = s.model() if r == z3.sat else None
        if len(total) > 1500:
            break
    pure = purify(base + total)
    if pure is not None and check_pure(pure, min(ms, 3000)):
        eng.stats["secs"] += time.time() - t0
        return "unsat", "z3+purified", None, len(total)
    if not light:
        # relate sums whose bodies are provably equal
        lem = sum_lemmas(eng, base, pc, ms, total)
        if lem:
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*base)
            s.add(*total)
            s.add(*lem)
            r = s.check()
            if r == z3.unsat:
                eng.stats["secs"] += time.time() - t0
                return "unsat", "z3+axioms+sumext", None, len(total) + len(lem)
            status = "sat" if r == z3.sat else "unknown"
            model = s.model() if r == z3.sat else None
            total += lem
            pure = purify(base + total)
            if pure is not None and check_pure(pure, min(ms, 3000)):
                eng.stats["secs"] += time.time() - t0
                return "unsat", "z3+purified", None, len(total)
        if status == "unknown":
            try:
                if by_cases(goal, pc, min(ms, 1500)):
                    eng.stats["secs"] += time.time() - t0
                    return "unsat", "z3+cases", None, len(total)
            except z3.Z3Exception:
                pass
            st = cvc5_check(base + total, ms)
            if st == "unsat":
                eng.stats["secs"] += time.time() - t0
                return "unsat", "cvc5", None, len(total)
    eng.stats["secs"] += time.time() - t0
    return status, "z3", model, len(total)


def sum_lemmas(eng, base, pc, ms, total=(), cap=24):
    """Extensionality: sums over provably equal ranges of provably equal terms are equal; a shorter sum of equal terms that are
    not negative is smaller, by at least the next term"""
    seen = {}
    apps = [x for x in collect_apps(base[-1:], eng.registry, seen) if eng.registry[x.decl().name()][0] == "sum"]
    apps += [x for x in collect_apps(base, eng.registry, seen) if eng.registry[x.decl().name()][0] == "sum"]
    apps += [x for x in collect_apps(total, eng.registry, seen) if eng.registry[x.decl().name()][0] == "sum"][:6]
    reds = [x for x in collect_apps(base, eng.registry, {}) if eng.registry[x.decl().name()][0].startswith("red:")]
    lem = []
    n = 0
    for xs in (apps, reds):
        for x, y in itertools.combinations(xs, 2):
            kx, ix, _ = eng.registry[x.decl().name()]
            ky, iy, _ = eng.registry[y.decl().name()]
            if kx != ky or x.sort() != y.sort():
                continue
            if n >= cap:
                return lem
            if kx == "sum":
                hx, hy = x.children()[:2], y.children()[:2]
                px, py = x.children()[2:], y.children()[2:]
                rx, ry = ix, iy
                nd = 1
            else:
                nd = ix["nd"]
                if nd != iy["nd"] or ix["nex"] != iy["nex"]:
                    continue
                m = nd + ix["nex"]
                hx, hy = x.children()[:m], y.children()[:m]
                px, py = x.children()[m:], y.children()[m:]
                rx, ry = ix["rec"], iy["rec"]
                if len(rx.body) != len(ry.body):
                    continue
            ks = [z3.Const(f"?ext{j}", z3.IntSort()) for j in range(nd)]
            bx, by = eng.inst_body(rx, px, ks), eng.inst_body(ry, py, ks)
            if kx == "sum" and not z3.simplify(z3.And(*[p == q for p, q in zip(hx, hy)])).eq(z3.BoolVal(True)):
                if rx.key == ry.key or sum_sign(eng, rx) != 1 or sum_sign(eng, ry) != 1:
                    continue
                n += 1
                lem += prefix_lemma(eng, pc, x, y, rx, ry, px, py, hx, hy, ks[0], bx[0], by[0])
                continue
            n += 1
            same_rng = [p == q for p, q in zip(hx, hy)]
            rng = [z3.And(hx[0] <= ks[0], ks[0] < hx[1])] if kx == "sum" else [z3.And(k >= 0, k < d) for k, d in zip(ks, hx)]
            # quick refutation of obviously different sums
            goal = z3.And(*same_rng, z3.Implies(z3.And(*rng), z3.And(*[p == q for p, q in zip(bx, by)])))
            s = z3.Solver()
            s.set("timeout", 400)
            s.add(*pc)
            s.add(z3.Not(goal))
            r = s.check()
            if r != z3.unsat and not (r == z3.sat and not collect_apps([goal], eng.registry, {})):
                ax = Axioms(eng)
                sn = {}
                fr = collect_apps(list(pc) + [goal], eng.registry, sn)
                for _ in range(2):
                    for a in fr:
                        ax.visit(a)
                    ax.nz_terms(ks)
                    ax.sum_terms(ks, None)
                    ax.lw_terms(ks)
                    ax.uq_terms(ks)
                    ax.red_terms(ks)
                    fr = collect_apps(ax.out, eng.registry, sn)
                s.set("timeout", 1500)
                s.add(*ax.out)
                r = s.check()
            if r == z3.unsat:
                lem.append(x == y)
            elif kx == "sum" and sum_unit(eng, rx) and sum_unit(eng, ry):
                # two indicator sums over one range whose terms exclude each other and exhaust it
                s = z3.Solver()
                s.set("timeout", 400)
                s.add(*pc)
                s.add(z3.Not(z3.And(*same_rng, z3.Implies(z3.And(*rng), bx[0] + by[0] == 1))))
                if s.check() == z3.unsat:
                    lem.append(z3.Implies(hx[0] <= hx[1], x + y == (z3.ToReal(hx[1] - hx[0]) if x.is_real() else hx[1] - hx[0])))
    return lem


def prefix_lemma(eng, pc, x, y, rx, ry, px, py, hx, hy, k, bx, by):
    """x = sum(lo, hx), y = sum(lo, hy) of equal terms: ordered like their upper bounds"""
    s = z3.Solver()
    s.set("timeout", 400)
    s.add(*pc)
    s.add(z3.Not(hx[0] == hy[0]))
    if s.check() != z3.unsat:
        return []
    if not equal_terms(eng, pc, z3.And(hx[0] <= k, z3.Or(k < hx[1], k < hy[1])), bx, by, k):
        return []
    out = []
    for u, v, hu, hv, r, p in ((x, y, hx[1], hy[1], ry, py), (y, x, hy[1], hx[1], rx, px)):
        b = eng.inst_body(r, p, [hu])[0]
        out.append(z3.Implies(hu <= hv, u <= v))
        out.append(z3.Implies(z3.And(hx[0] <= hu, hu < hv), u + b <= v))
    return out


def equal_terms(eng, pc, rng, bx, by, k):
    s = z3.Solver()
    s.set("timeout", 400)
    s.add(*pc)
    s.add(rng, bx != by)
    r = s.check()
    if r == z3.unsat:
        return True
    fr = collect_apps(list(pc) + [bx == by], eng.registry, {})
    if r == z3.sat and not fr:
        return False
    ax = Axioms(eng)
    sn = {}
    fr = collect_apps(list(pc) + [bx == by], eng.registry, sn)
    for _ in range(2):
        for a in fr:
            ax.visit(a)
        ax.nz_terms([k])
        ax.sum_terms([k], None)
        ax.lw_terms([k])
        ax.uq_terms([k])
        ax.red_terms([k])
        fr = collect_apps(ax.out, eng.registry, sn)
    s.set("timeout", 1500)
    s.add(*ax.out)
    return s.check() == z3.unsat


def cvc5_check(asserts, ms):
    """second opinion through SMT-LIB text"""
    try:
        import cvc5
    except Exception:
        return "unknown"
    s = z3.Solver()
    s.add(*asserts)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(ms))
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "o")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:
        return "unknown"
