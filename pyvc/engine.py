"""Verification-condition generator: path exploration over the real function bodies,
assertion bookkeeping, definitional functions (sums, nonzero, sqrt, ...) and discharge."""
import time
import contextlib
import hashlib
import z3
from . import terms as T
from .terms import S, Unsupported, And, Or, Not, Implies, zi, mk

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class PathEnd(BaseException):
    """current path is finished (infeasible, loop body verified, ...)"""


class TooManyPaths(Unsupported):
    pass


class Obligation:
    __slots__ = ("name", "goal", "pc", "status", "solver", "secs", "model", "fn", "kind", "smt", "case", "inst")

    def __init__(self, name, goal, pc, fn, kind):
        self.name, self.goal, self.pc, self.fn, self.kind = name, goal, pc, fn, kind
        self.status, self.solver, self.secs, self.model = "pending", None, 0.0, None
        self.smt = None
        self.case = None
        self.inst = 0


_AC = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}
_NARY = {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_DISTINCT: z3.Distinct}


_CMP = {z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}


def ite_leaves(t):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return ite_leaves(t.arg(1)) + ite_leaves(t.arg(2))
    return 1


def ac_sorted(t, memo):
    """(t with the operands of commutative operations in an order that depends on their structure only, key of it)"""
    hit = memo.get(t.get_id())
    if hit is not None:
        return hit[1]
    if not z3.is_app(t):
        r = (t, ("q", "q"))
    elif t.num_args() == 0:
        nm = str(t)
        free = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not nm.startswith("?b")
        r = (t, (t.sort().name() if free else nm, nm))
    else:
        ch = [ac_sorted(c, memo) for c in t.children()]
        k = t.decl().kind()
        if k in _AC:
            ch.sort(key=lambda c: c[1])
        xs = [c[0] for c in ch]
        if all(x.eq(y) for x, y in zip(xs, t.children())):
            t2 = t
        elif k in _NARY and len(xs) != 2:
            t2 = _NARY[k](*xs)
        else:
            t2 = t.decl()(*xs)
        if k in _CMP:
            # the simplifier moves a comparison into an if-then-else or not depending on sharing: always move it
            j = next((j for j, x in enumerate(xs) if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_arith(x) and ite_leaves(x) <= 4), None)
            if j is not None:
                c, p, q = xs[j].children()
                side = lambda v: z3.simplify(t.decl()(*[v if i == j else x for i, x in enumerate(xs)]), som=False)
                r = ac_sorted(z3.simplify(z3.If(c, side(p), side(q)), som=False), memo)
                memo[t.get_id()] = (t, r)
                return r
        nm = t.decl().name()
        r = (t2, tuple(hashlib.md5(repr((nm, [c[1][j] for c in ch])).encode()).hexdigest() for j in (0, 1)))
    memo[t.get_id()] = (t, r)
    return r


class Closure:
    """body abstracted over its free constants: a definitional function"""

    __slots__ = ("key", "body", "bound", "params", "sorts")


SORTNAME = {"i": z3.IntSort(), "f": z3.RealSort(), "b": z3.BoolSort()}


def subst(t, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return t
    return z3.substitute(t, *pairs)


_const_cache = {}


def free_consts(t):
    """uninterpreted 0-ary constants in order of first occurrence"""
    i = t.get_id()
    hit = _const_cache.get(i)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    seen = set()
    out = []
    stack = [t]
    vis = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in vis:
            continue
        vis.add(xi)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if xi not in seen:
                seen.add(xi)
                out.append(x)
        else:
            stack.extend(reversed(x.children()))
    _const_cache[i] = (t, out)
    return out


def contains_sub(t, sub):
    if t.eq(sub):
        return True
    return any(contains_sub(c, sub) for c in t.children())


def mentions(t, pred):
    stack = [t]
    vis = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in vis:
            continue
        vis.add(xi)
        if pred(x):
            return True
        stack.extend(x.children())
    return False


def mentions_const(t, c):
    return any(x.eq(c) for x in free_consts(t))


class Engine:
    def __init__(self, quick_ms=250, prove_ms=8000, max_paths=400, verbose=False):
        self.quick_ms = quick_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.verbose = verbose
        self.deg_of = {}  # degrees(x) -> x, so that radians undoes degrees
        self.registry = {}  # decl name -> (kind, info)
        self.closures = {}
        self.obls = {}
        self.prove_cache = {}
        self.keep = []
        self.stats = dict(queries=0, quick=0, secs=0.0)
        self.summaries = {}
        self.cur_fn = "?"
        self.bufs_written_hooks = []
        self.assumptions = set()
        self.deadline = None
        self.budget_fn = None
        self.pi = z3.Real("pi")
        self._qcache = {}
        self.solver_log = {}
        self.reset_path()

    # ------------------------------------------------------------------ path state
    def reset_path(self, decisions=()):
        self.pc = []
        self.loop_stack = []
        self.branch_log = []
        self._bufs = {}
        self.scope = 0
        self.scope_n = 0
        self.scope_stack = []
        self.guards = ()
        self.decisions = list(decisions)
        self.pos = 0
        self.alts = []
        self.cnt = {}
        self.buf_n = 0
        self.in_lambda = False
        self.qs = z3.Solver()
        self.qs.set("timeout", self.quick_ms)
        self.must_cache = {}
        self.write_watch = []
        self.assume(z3.And(self.pi > z3.RealVal("3.14159265358979"), self.pi < z3.RealVal("3.1415926535898")))
        self.quiet = 0

    def fresh_name(self, base):
        tag = ""
        for l in self.loop_stack:
            if l.mode == "probe":
                tag = l.tag + ":"
        base = tag + base
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return f"{base}!{n}"

    def fresh_fun(self, base, nd, sort):
        """arbitrary contents: a function of the coordinates and of the enclosing loop iterations"""
        its = [l.i for l in self.loop_stack if l.mode == "probe"]
        nm = "fv:" + self.fresh_name(base)
        if nd + len(its) == 0:
            c = z3.Const(nm, sort)
            return lambda idx: c
        f = z3.Function(nm, *[z3.IntSort()] * (nd + len(its)), sort)
        return lambda idx: f(*idx, *its)

    def fresh_value(self, kind, base, shape=()):
        """reader of arbitrary values"""
        if kind == "c":
            r, m = self.fresh_fun(base + ".re", len(shape), z3.RealSort()), self.fresh_fun(base + ".im", len(shape), z3.RealSort())
            return lambda idx: S("c", r(idx), m(idx))
        f = self.fresh_fun(base, len(shape), SORTNAME[kind])
        return lambda idx: S(kind, f(idx))

    def find_invariant(self, fn, lid, loop):
        f = getattr(self, "invariants", None)
        return f(fn, lid, loop) if f else None

    def fresh_const(self, kind, base):
        return z3.Const(self.fresh_name(base), SORTNAME[kind])

    def fresh_scalar(self, kind, base):
        if kind == "c":
            return S("c", self.fresh_const("f", base + ".re"), self.fresh_const("f", base + ".im"))
        return S(kind, self.fresh_const(kind, base))

    def new_buf_id(self, buf):
        self.buf_n += 1
        self._bufs[self.buf_n] = buf
        return self.buf_n

    def note_write(self, buf):
        for w in self.write_watch:
            w(buf)

    def assume(self, t):
        if isinstance(t, S):
            t = T.truth(t)
        if T.is_true(t):
            return
        if T.is_false(t):
            raise PathEnd("infeasible")
        self.pc.append(t)
        self.qs.add(t)
        if self.must_cache:
            # only negative answers may change when facts are added
            self.must_cache = {k: v for k, v in self.must_cache.items() if v[0]}

    # ------------------------------------------------------------------ quick entailment
    def must(self, t):
        if isinstance(t, S):
            t = T.truth(t)
        if T.is_true(t):
            return True
        if T.is_false(t):
            return False
        k = (self.scope, t.get_id())
        hit = self.must_cache.get(k)
        if hit is not None:
            return hit[0]
        st = z3.simplify(t)
        if z3.is_true(st):
            self.must_cache[k] = (True, t)
            return True
        if z3.is_false(st):
            self.must_cache[k] = (False, t)
            return False
        self.stats["quick"] += 1
        t0 = time.time()
        self.qs.push()
        self.qs.add(z3.Not(t))
        r = self.qs.check() == z3.unsat
        self.qs.pop()
        self.stats["secs"] += time.time() - t0
        self.must_cache[k] = (r, t)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for this function exhausted")
        return r

    def must_strong(self, t):
        if self.must(t):
            return True
        return self.prove(t, self.pc, ms=1500)[0] == "unsat"

    # ------------------------------------------------------------------ scopes
    @contextlib.contextmanager
    def scoped(self):
        """temporary assumptions (fresh indices)"""
        n = len(self.pc)
        self.qs.push()
        old = self.scope
        self.scope_n += 1
        self.scope = self.scope_n
        try:
            yield self
        finally:
            self.scope = old
            del self.pc[n:]
            self.qs.pop()

    @contextlib.contextmanager
    def guarded(self, g):
        """execute stores under the condition g without splitting the path: facts found inside hold if g holds"""
        n = len(self.pc)
        old, oldg = self.scope, self.guards
        self.qs.push()
        self.scope_n += 1
        self.scope = self.scope_n
        self.guards = oldg + (g,)
        failed = True
        extra = []
        try:
            self.assume(g)
            yield self
            extra = [z3.Implies(g, e) for e in self.pc[n + 1:]]
            failed = False
        finally:
            self.scope, self.guards = old, oldg
            del self.pc[n:]
            self.qs.pop()
            if failed:
                self.assume(g)
        for e in extra:
            self.assume(e)

    def fresh_index(self, d, base="k"):
        k = self.fresh_const("i", base)
        self.assume(k >= 0)
        self.assume(k < zi(d))
        return k

    def scope_infeasible(self):
        return self.qs.check() == z3.unsat

    # ------------------------------------------------------------------ branching
    branch_ms = 700  # 0: a path that arithmetic alone does not rule out is taken

    def branch(self, t):
        if isinstance(t, S):
            t = T.truth(t)
        if isinstance(t, bool):
            return t
        st = z3.simplify(t)
        if z3.is_true(st):
            return True
        if z3.is_false(st):
            return False
        if self.must(t):
            return True
        if self.must(z3.Not(t)):
            return False
        if self.scope != 0:
            raise Unsupported("branch on a quantified value")
        if self.branch_ms and self.prove(t, self.pc, ms=self.branch_ms, light=True)[0] == "unsat":
            self.assume(t)
            return True
        if self.branch_ms and self.prove(z3.Not(t), self.pc, ms=self.branch_ms, light=True)[0] == "unsat":
            self.assume(z3.Not(t))
            return False
        d = self.decide(2)
        if d == 0:
            self.branch_log.append(t)
            self.assume(t)
            return True
        nt = z3.Not(t)
        self.branch_log.append(nt)
        self.assume(nt)
        return False

    def decide(self, n):
        """n-way choice point, explored depth first in order 0..n-1"""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = 0
            self.decisions.append(0)
        while len(self.alts) <= self.pos:
            self.alts.append(None)
        self.alts[self.pos] = n
        self.pos += 1
        return d

    def explore(self, run):
        """run(): executes one path to completion (may raise PathEnd)"""
        decisions = []
        self.summaries = {}
        npaths = 0
        while True:
            self.reset_path(decisions)
            npaths += 1
            if npaths > self.max_paths:
                raise TooManyPaths(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for this function exhausted")
            try:
                run()
            except PathEnd:
                pass
            decisions = self.decisions[: self.pos]
            alts = self.alts[: self.pos]
            # advance
            while decisions:
                n = alts[len(decisions) - 1]
                if callable(n):
                    n = n()
                if decisions[-1] + 1 < n:
                    decisions[-1] += 1
                    break
                decisions.pop()
            if not decisions:
                break
        return npaths

    # ------------------------------------------------------------------ obligations
    def require(self, goal, name, exc=None, kind="safety"):
        """emit obligation under the current path condition and then assume it"""
        if isinstance(goal, S):
            goal = T.truth(goal)
        if T.is_true(goal):
            return
        if T.is_false(goal):
            goal = z3.BoolVal(False)
        if self.scope != 0:
            return self.require_scoped(goal, name, exc)
        self.emit(goal, name, kind)
        self.assume(goal)

    def require_scoped(self, goal, name, exc=None, kind="safety"):
        if T.is_true(goal):
            return
        if T.is_false(goal):
            goal = z3.BoolVal(False)
        self.emit(goal, name, kind)

    def emit(self, goal, name, kind="safety", pc=None):
        if self.quiet or any(l.mode == "probe" and l.d == 0 for l in self.loop_stack):
            return None
        pc = tuple(self.pc) if pc is None else tuple(pc)
        key = (name, goal.get_id(), tuple(p.get_id() for p in pc))
        for l in self.loop_stack:
            if l.mode == "probe":
                l.rec.emitted.append(key)
        if key in self.obls:
            return self.obls[key]
        o = Obligation(name, goal, pc, self.cur_fn, kind)
        self.obls[key] = o
        self.keep.append((goal, pc))
        o.case = getattr(self, "cur_case", None)
        t0 = time.time()
        st, solver, model, inst = self.prove(goal, pc, want_model=True)
        o.secs = time.time() - t0
        o.solver = solver
        o.inst = inst
        o.status = {"unsat": "discharged", "sat": "refuted", "unknown": "undecided"}[st]
        o.model = model
        if self.verbose:
            print(f"    [{o.status}] {self.cur_fn}: {name} ({o.secs:.2f}s)", flush=True)
            if o.status != "discharged":
                print("      goal:", str(goal)[:600])
        return o

    # ------------------------------------------------------------------ definitional functions
    def closure(self, tag, body, bound):
        """body: list of z3 terms; bound: list of Int consts. Returns (record, params)"""
        body = [z3.simplify(b, som=False) if isinstance(b, z3.ExprRef) else b for b in body]
        bpairs = [(b, z3.Const(f"?b{j}", b.sort())) for j, b in enumerate(bound)]
        memo = {}
        body = [ac_sorted(subst(b, bpairs), memo)[0] if isinstance(b, z3.ExprRef) else b for b in body]
        bids = {q.get_id() for b, q in bpairs}
        params = []
        seen = set()
        for b in body:
            for c in free_consts(b):
                if c.get_id() not in bids and c.get_id() not in seen:
                    seen.add(c.get_id())
                    params.append(c)
        pairs = [(q, q) for b, q in bpairs]
        pairs += [(p, z3.Const(f"?p{j}:{p.sort().name()}", p.sort())) for j, p in enumerate(params)]
        canon = [subst(b, pairs) for b in body]
        key = (tag,) + tuple(c.get_id() for c in canon)
        rec = self.closures.get(key)
        if rec is None:
            rec = Closure()
            rec.key = f"{tag}#{len(self.closures)}"
            rec.body = canon
            rec.bound = [p[1] for p in pairs[: len(bound)]]
            rec.params = [p[1] for p in pairs[len(bound):]]
            self.closures[key] = rec
        return rec, params

    def inst_body(self, rec, params, bound_vals):
        pairs = list(zip(rec.bound, bound_vals)) + list(zip(rec.params, params))
        return [z3.substitute(b, *pairs) if pairs else b for b in rec.body]

    def def_fn(self, name, sorts, out, kind, info):
        f = z3.Function(name, *sorts, out)
        if name not in self.registry:
            self.registry[name] = (kind, info, f)
        return f

    # sums ------------------------------------------------------------------
    def sum_term(self, lo, hi, bodyfn, sort):
        """Sum_{k in [lo,hi)} bodyfn(k) (raw z3 term; sort 'i' or 'f')"""
        vlo, vhi = T.num_val(lo), T.num_val(hi)
        if vlo is not None and vhi is not None and vhi - vlo <= 8:
            r = z3.IntVal(0) if sort == "i" else z3.RealVal(0)
            for j in range(vlo, vhi):
                r = T._add(r, bodyfn(z3.IntVal(j)))
            return r
        with self.scoped():
            k = self.fresh_const("i", "sumk")
            self.assume(k >= lo)
            self.assume(k < hi)
            body = bodyfn(k)
        return self.sum_of(lo, hi, k, body, sort)

    def sum_of(self, lo, hi, k, body, sort):
        body = z3.simplify(body)
        if sort == "f":
            body = T.to_real(body)
        zero = z3.IntVal(0) if sort == "i" else z3.RealVal(0)
        # distribute
        if not mentions_const(body, k):
            v = T.num_val(body)
            if v == 0:
                return zero
            n = T._sub(hi, lo)
            if not self.must(n >= 0):
                n = z3.If(n >= 0, n, 0)
            return T._mul(T.to_real_s(n) if sort == "f" else n, body)
        if z3.is_app_of(body, z3.Z3_OP_ADD):
            r = zero
            for c in body.children():
                r = T._add(r, self.sum_of(lo, hi, k, c, sort))
            return r
        if z3.is_app_of(body, z3.Z3_OP_SUB):
            ch = body.children()
            r = self.sum_of(lo, hi, k, ch[0], sort)
            for c in ch[1:]:
                r = T._sub(r, self.sum_of(lo, hi, k, c, sort))
            return r
        if z3.is_app_of(body, z3.Z3_OP_UMINUS):
            return T._neg(self.sum_of(lo, hi, k, body.arg(0), sort))
        if z3.is_app_of(body, z3.Z3_OP_TO_REAL):
            return T.to_real_s(self.sum_of(lo, hi, k, body.arg(0), "i"))
        if z3.is_app_of(body, z3.Z3_OP_MUL):
            out = [c for c in body.children() if not mentions_const(c, k)]
            inn = [c for c in body.children() if mentions_const(c, k)]
            if len(inn) >= 1:
                # distribute products over sums / ites so that normal forms meet
                for j, c in enumerate(inn):
                    if z3.is_app_of(c, z3.Z3_OP_ADD):
                        r = zero
                        for p in c.children():
                            m = p
                            for q in inn[:j] + inn[j + 1:] + out:
                                m = T._mul(m, q)
                            r = T._add(r, self.sum_of(lo, hi, k, m, sort))
                        return r
            if out:
                m = inn[0]
                for q in inn[1:]:
                    m = T._mul(m, q)
                s = self.sum_of(lo, hi, k, m, sort)
                for q in out:
                    s = T._mul(q, s)
                return s
            # c * If(p, a, 0) -> If(p, c*a, 0)
            for j, c in enumerate(inn):
                if z3.is_app_of(c, z3.Z3_OP_ITE):
                    rest = inn[:j] + inn[j + 1:]
                    a, b = c.arg(1), c.arg(2)
                    for q in rest:
                        a, b = T._mul(a, q), T._mul(b, q)
                    if T.num_val(z3.simplify(a)) == 0 or T.num_val(z3.simplify(b)) == 0:
                        return self.sum_of(lo, hi, k, z3.If(c.arg(0), a, b), sort)
        if z3.is_app_of(body, z3.Z3_OP_ITE):
            c, a, b = body.children()
            if not mentions_const(c, k):
                return z3.If(c, self.sum_of(lo, hi, k, a, sort), self.sum_of(lo, hi, k, b, sort))
            if T.num_val(a) == 0 and T.num_val(b) is not None and T.num_val(b) != 0:
                body = z3.If(z3.Not(c), b, a)
                c, a, b = body.children()
            if T.num_val(b) == 0:
                # pull conjuncts not depending on k; Kronecker delta
                cj = _conjuncts(c)
                outc = [x for x in cj if not mentions_const(x, k)]
                inc = [x for x in cj if mentions_const(x, k)]
                if outc:
                    return z3.If(z3.And(*outc), self.sum_of(lo, hi, k, z3.If(z3.And(*inc), a, b) if inc else a, sort), zero)
                for x in inc:
                    s = solve_eq(x, k)
                    if s is not None:
                        rest = [y for y in inc if not y.eq(x)]
                        g = And(*[subst(y, [(k, s)]) for y in rest])
                        rng = z3.And(lo <= s, s < hi)
                        return z3.If(z3.And(rng, T.zb(g)), subst(a, [(k, s)]), zero)
                if z3.is_app_of(a, z3.Z3_OP_ADD):
                    r = zero
                    for p in a.children():
                        r = T._add(r, self.sum_of(lo, hi, k, z3.If(c, p, b), sort))
                    return r
                if z3.is_app_of(a, z3.Z3_OP_UMINUS):
                    return T._neg(self.sum_of(lo, hi, k, z3.If(c, a.arg(0), b), sort))
                if z3.is_app_of(a, z3.Z3_OP_MUL):
                    out = [x for x in a.children() if not mentions_const(x, k)]
                    if out:
                        inn = [x for x in a.children() if mentions_const(x, k)]
                        m = inn[0] if inn else (z3.IntVal(1) if sort == "i" else z3.RealVal(1))
                        for q in inn[1:]:
                            m = T._mul(m, q)
                        s = self.sum_of(lo, hi, k, z3.If(c, m, b), sort)
                        for q in out:
                            s = T._mul(q, s)
                        return s
                if not mentions_const(a, k):
                    v = T.num_val(a)
                    if v is None or v != 1:
                        one = z3.IntVal(1)
                        s = self.sum_of(lo, hi, k, z3.If(c, one, z3.IntVal(0)), "i")
                        return T._mul(a, T.to_real_s(s) if sort == "f" else s)
                    if sort == "f":
                        return T.to_real_s(self.sum_of(lo, hi, k, z3.If(c, z3.IntVal(1), z3.IntVal(0)), "i"))
                if z3.is_app_of(a, z3.Z3_OP_ITE) and T.num_val(a.arg(2)) == 0:
                    return self.sum_of(lo, hi, k, z3.If(z3.And(c, a.arg(0)), a.arg(1), a.arg(2)), sort)
        rec, params = self.closure("sum" + sort, [body], [k])
        so = SORTNAME[sort]
        f = self.def_fn(rec.key, [z3.IntSort(), z3.IntSort()] + [p.sort() for p in params], so, "sum", rec)
        return f(lo, hi, *params)

    def fold_sum(self, t):
        """sum(lo, h) + body(h) -> sum(lo, h + 1), where the path condition gives lo <= h"""
        if not z3.is_app_of(t, z3.Z3_OP_ADD):
            return t
        parts, st = [], [t]
        while st:
            x = st.pop()
            if z3.is_app_of(x, z3.Z3_OP_ADD):
                st.extend(x.children())
            else:
                parts.append(x)
        for x in parts:
            reg = self.registry.get(x.decl().name()) if z3.is_app(x) and x.num_args() else None
            if reg is None or reg[0] != "sum":
                continue
            lo, hi, params = x.arg(0), x.arg(1), x.children()[2:]
            b = self.inst_body(reg[1], params, [hi])[0]
            rest = [y for y in parts if y is not x]
            r = z3.simplify(z3.Sum(rest) - b) if rest else None
            if r is None or contains_sub(r, z3.simplify(b)):
                continue
            if not self.must(lo <= hi):
                continue
            return T._add(x.decl()(lo, z3.simplify(hi + 1), *params), r)
        return t

    # nonzero ---------------------------------------------------------------
    def nonzero_of(self, shape, maskfn):
        """enumeration of the true positions of a mask in row-major order"""
        ks = [self.fresh_const("i", "nzk") for _ in shape]
        with self.scoped():
            for k, d in zip(ks, shape):
                self.assume(k >= 0)
                self.assume(k < zi(d))
            m = T.zb(T.truth(maskfn(tuple(ks))))
        dims = [zi(d) for d in shape]
        # dims enter as closure params through explicit arguments
        rec, params = self.closure("nz%d" % len(shape), [m], ks)
        nd = len(shape)
        psorts = [p.sort() for p in params]
        I = z3.IntSort()
        info = dict(rec=rec, nd=nd)
        cnt = self.def_fn(rec.key + ".cnt", [I] * nd + psorts, I, "nzcnt", info)
        at = [self.def_fn(f"{rec.key}.at{j}", [I] + [I] * nd + psorts, I, "nzat", dict(info, j=j)) for j in range(nd)]
        rank = self.def_fn(rec.key + ".rank", [I] * nd + [I] * nd + psorts, I, "nzrank", info)
        info["cnt"], info["at"], info["rank"] = cnt, at, rank
        for a in at:
            self.registry[a.name()][1].update(info)
        dp = dims + params

        def atf(k):
            # at(rank(c)) = c: rank is pinned down for true positions only, so this may be taken as its meaning elsewhere
            t = zi(k)
            if z3.is_app(t) and t.decl().eq(rank) and all(x.eq(y) for x, y in zip(t.children()[nd:], dp)):
                return list(t.children()[:nd])
            return [a(k, *dp) for a in at]

        return NZ(self, nd, dims, cnt(*dp), atf, lambda coords: rank(*coords, *dp), maskfn)

    # unique / sorted ---------------------------------------------------------------
    def order_of(self, tag, n, elem, sort):
        """tag 'uq': the distinct values of elem(0..n) in ascending order; 'so': all of them in ascending order (stable)"""
        k = self.fresh_const("i", tag + "k")
        with self.scoped():
            self.assume(k >= 0)
            self.assume(k < zi(n))
            body = elem(k)
        rec, params = self.closure(tag + sort, [body], [k])
        I, so = z3.IntSort(), SORTNAME[sort]
        ps = [p.sort() for p in params]
        info = dict(rec=rec, tag=tag)
        info["cnt"] = self.def_fn(rec.key + ".cnt", [I] + ps, I, "uqcnt", info)
        info["at"] = self.def_fn(rec.key + ".at", [I, I] + ps, so, "uqat", info)
        info["src"] = self.def_fn(rec.key + ".src", [I, I] + ps, I, "uqsrc", info)
        info["who"] = self.def_fn(rec.key + ".who", [I, I] + ps, I, "uqwho", info)
        dp = [zi(n)] + params
        return (info["cnt"](*dp) if tag == "uq" else zi(n)), (lambda i: info["at"](i, *dp)), (lambda i: info["src"](i, *dp)), (lambda i: info["who"](i, *dp))

    # last writer ---------------------------------------------------------------
    def last_writer(self, idxfun, bsh):
        """for scatter a[idx]=v: function coords -> (hit, index of the last k with idx(k)=coords)"""
        bs = [self.fresh_const("i", "lwk") for _ in bsh]
        with self.scoped():
            for b, d in zip(bs, bsh):
                self.assume(b >= 0)
                self.assume(b < zi(d))
            body = idxfun(tuple(bs))
        rec, params = self.closure("lw%d" % len(bsh), body, bs)
        nb, nc = len(bsh), len(body)
        dims = [zi(d) for d in bsh]
        I = z3.IntSort()
        psorts = [p.sort() for p in params]
        info = dict(rec=rec, nb=nb, nc=nc)
        hit = self.def_fn(rec.key + ".hit", [I] * nc + [I] * nb + psorts, z3.BoolSort(), "lwhit", info)
        who = [self.def_fn(f"{rec.key}.who{j}", [I] * nc + [I] * nb + psorts, I, "lwwho", info) for j in range(nb)]
        info["hit"], info["who"] = hit, who
        dp = dims + params

        def locate(coords):
            return hit(*coords, *dp), tuple(w(*coords, *dp) for w in who)

        return locate

    # generic uninterpreted definitional function over array contents
    def opaque_reduce(self, tag, shape, elemfn, kind, extra=()):
        ks = [self.fresh_const("i", "opk") for _ in shape]
        with self.scoped():
            for k, d in zip(ks, shape):
                self.assume(k >= 0)
                self.assume(k < zi(d))
            e = T.lift(elemfn(tuple(ks)))
        body = [e.re] + ([e.im] if e.im is not None else [])
        for fl in (e.nan, e.inf):
            if not T.is_false(fl):
                body.append(T.zb(fl))
        rec, params = self.closure(tag, body, ks)
        dims = [zi(d) for d in shape]
        ex = [T.lift(x).re for x in extra]
        args = dims + ex + params
        f = self.def_fn(rec.key + ":" + kind, [a.sort() for a in args], SORTNAME[kind], "red:" + tag, dict(rec=rec, nd=len(shape), nex=len(ex)))
        return f(*args)

    def ufun(self, name, args, kind):
        """uninterpreted function over scalars, with registered axioms by name"""
        ts = []
        nan = False
        for a in args:
            a = T.lift(a)
            ts.append(a.re)
            if a.im is not None:
                ts.append(a.im)
            nan = Or(nan, a.nan, a.inf)
        if kind == "f" and len(ts) == 1 and name in ("sin", "cos", "exp") and T.is_false(nan) and T.num_val(ts[0]) == 0:
            return mk("f", 0 if name == "sin" else 1, None, False)
        if kind == "c":
            re = self.def_fn("u_" + name + ".re", [t.sort() for t in ts], z3.RealSort(), "u:" + name, None)(*ts)
            im = self.def_fn("u_" + name + ".im", [t.sort() for t in ts], z3.RealSort(), "u:" + name, None)(*ts)
            return S("c", re, im, nan)
        f = self.def_fn("u_" + name, [t.sort() for t in ts], SORTNAME[kind], "u:" + name, None)
        return mk(kind, f(*ts), None, nan)

    def fn_sqrt(self, x):
        x = T.lift(x, "f")
        v = T.num_val(x.re)
        if v is not None and T.is_false(x.nan) and T.is_false(x.inf):
            import math
            if v >= 0:
                from fractions import Fraction

                fv = Fraction(v)
                r = math.isqrt(fv.numerator), math.isqrt(fv.denominator)
                if r[0] ** 2 == fv.numerator and r[1] ** 2 == fv.denominator:
                    return S("f", T.real_val(Fraction(*r)))
        f = self.def_fn("u_sqrt", [z3.RealSort()], z3.RealSort(), "u:sqrt", None)
        nan = x.nan
        if not (v is not None and v >= 0) and not self.must(x.re >= 0):
            nan = Or(nan, x.re < 0)
        if not T.is_false(x.inf):
            return S("f", T.ite_t(x.inf, x.re, f(x.re)), None, nan, x.inf)
        return S("f", f(z3.simplify(x.re) if v is None else x.re), None, nan)

    # broadcasting plan ----------------------------------------------------------
    def bcast_plan(self, shape, oshape):
        n = len(oshape)
        off = n - len(shape)
        plan = []
        for j, d in enumerate(shape):
            o = oshape[off + j]
            if isinstance(d, int) and d == 1 and not (isinstance(o, int) and o == 1):
                plan.append(None)
            elif isinstance(d, S) and d is not o and not (isinstance(o, S) and o.re.eq(d.re)) and not self.must(zi(d) == zi(o)):
                plan.append(None)
            else:
                plan.append(off + j)
        zero = z3.IntVal(0)
        if off == 0 and all(p == j for j, p in enumerate(plan)):
            return lambda idx: tuple(idx)
        return lambda idx: tuple(zero if p is None else idx[p] for p in plan)

    # ------------------------------------------------------------------ discharge
    def prove(self, goal, pc, ms=None, want_model=False, light=False):
        """returns (status, solver, model, n_instances)"""
        ms = ms or self.prove_ms
        key = (goal.get_id(), tuple(p.get_id() for p in pc), ms)
        hit = self.prove_cache.get(key)
        if hit is not None:
            return hit[0]
        from . import solve

        res = solve.discharge(self, goal, list(pc), ms, light=light)
        self.prove_cache[key] = (res, goal, pc)
        return res


def _conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += _conjuncts(x)
        return out
    return [c]


def solve_eq(x, k):
    """x is `e1 == e2` affine in the int const k with coefficient +-1 -> value of k"""
    if not z3.is_eq(x):
        return None
    a, b = x.arg(0), x.arg(1)
    if not z3.is_int(a):
        return None
    r = solve_affine(a, b, k)
    return r


def solve_affine(a, b, k):
    """a == b, solve for k (coefficient +-1), returns term or None"""
    ca, ra = affine(a, k)
    cb, rb = affine(b, k)
    if ca is None or cb is None:
        return None
    c = ca - cb
    if c == 1:
        return z3.simplify(rb - ra)
    if c == -1:
        return z3.simplify(ra - rb)
    return None


def affine(t, k):
    """t = c*k + r, returns (c, r) or (None, None)"""
    if t.eq(k):
        return 1, z3.IntVal(0)
    if not mentions_const(t, k):
        return 0, t
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        c, r = 0, z3.IntVal(0)
        for x in t.children():
            cx, rx = affine(x, k)
            if cx is None:
                return None, None
            c += cx
            r = T._add(r, rx)
        return c, r
    if z3.is_app_of(t, z3.Z3_OP_SUB):
        ch = t.children()
        c, r = affine(ch[0], k)
        if c is None:
            return None, None
        for x in ch[1:]:
            cx, rx = affine(x, k)
            if cx is None:
                return None, None
            c -= cx
            r = T._sub(r, rx)
        return c, r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        c, r = affine(t.arg(0), k)
        return (None, None) if c is None else (-c, T._neg(r))
    if z3.is_app_of(t, z3.Z3_OP_MUL) and len(t.children()) == 2:
        v = T.num_val(t.arg(0))
        if v is not None:
            c, r = affine(t.arg(1), k)
            return (None, None) if c is None else (c * v, T._mul(z3.IntVal(v), r))
    return None, None


class NZ:
    """result of nonzero(mask)"""

    def __init__(self, eng, ndim, dims, cnt, at, rank, maskfn):
        self.ndim, self.dims, self.cnt = ndim, dims, cnt
        self.at, self.rank, self.maskfn = at, rank, maskfn

    def inverse(self, coords):
        inb = And(*[And(c >= 0, c < d) for c, d in zip(coords, self.dims)])
        return And(inb, T.truth(self.maskfn(tuple(coords)))), self.rank(tuple(coords))
