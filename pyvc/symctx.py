"""Symbolic reading of contracts: proof obligations over the real function bodies."""
import time
import logging
import z3
from . import terms as T
from . import arr as A
from . import npshim
from . import loops
from . import engine as EN
from . import instrument as I
from .contract import NSp, Skip, encode_arr, left_out
from .terms import S, Unsupported, And, Or, Not, zi, mk
from .engine import PathEnd, SORTNAME


class Lazy:
    pass


class Forall(Lazy):
    def __init__(self, ranges, f):
        self.ranges, self.f = ranges, f


class Exists(Lazy):
    def __init__(self, ranges, f, witness):
        self.ranges, self.f, self.witness = ranges, f, witness


class AndF(Lazy):
    def __init__(self, ps):
        self.ps = ps


class ImpF(Lazy):
    def __init__(self, p, q):
        self.p, self.q = p, q


class OrF(Lazy):
    def __init__(self, ps):
        self.ps = ps


class NotF(Lazy):
    def __init__(self, p):
        self.p = p


def _call(p):
    while callable(p) and not isinstance(p, (S, z3.ExprRef, A.Arr)):
        p = p()
    return p


def skolem(E, t):
    """an assumed existential, with fresh witnesses"""
    if z3.is_and(t):
        return z3.And(*[skolem(E, x) for x in t.children()])
    if z3.is_quantifier(t) and t.is_exists() and all(t.var_sort(j) == z3.IntSort() for j in range(t.num_vars())):
        vs = [E.fresh_const("i", "wit") for j in range(t.num_vars())]
        return z3.substitute_vars(t.body(), *reversed(vs))
    return t


def raw(p):
    """formula -> python bool / z3 Bool (Lazy converted with quantifiers)"""
    p = _call(p)
    E = T.ENG
    if isinstance(p, bool):
        return p
    if isinstance(p, S):
        return T.truth(p)
    if isinstance(p, A.Arr):
        return T.truth(p.at()) if p.ndim == 0 else _bad("array used as a formula")
    if isinstance(p, z3.ExprRef):
        return p
    if isinstance(p, AndF):
        return And(*[raw(q) for q in p.ps])
    if isinstance(p, OrF):
        return Or(*[raw(q) for q in p.ps])
    if isinstance(p, NotF):
        return Not(raw(p.p))
    if isinstance(p, ImpF):
        return T.Implies(raw(p.p), raw(p.q))
    if isinstance(p, Forall):
        with E.scoped():
            ks, rng = _bound(E, p.ranges)
            b = raw(p.f(*[mk("i", k) for k in ks]))
        return z3.ForAll(ks, z3.Implies(z3.And(*rng), T.zb(b)))
    if isinstance(p, Exists):
        if p.witness is not None:
            w = p.witness if isinstance(p.witness, tuple) else (p.witness,)
            rng = [And(zi(lo) <= zi(x), zi(x) < zi(hi)) for (lo, hi), x in zip(p.ranges, w)]
            return And(*rng, raw(p.f(*w)))
        with E.scoped():
            ks, rng = _bound(E, p.ranges)
            b = raw(p.f(*[mk("i", k) for k in ks]))
        return z3.Exists(ks, z3.And(*rng, T.zb(b)))
    if p is None or p is NotImplemented:
        return False
    return bool(p)


def _bad(m):
    raise Unsupported(m)


def _bound(E, ranges):
    ks, rng = [], []
    for lo, hi in ranges:
        k = E.fresh_const("i", "q")
        ks.append(k)
        r = z3.And(zi(lo) <= k, k < zi(hi))
        rng.append(r)
        E.pc.append(r)
        E.qs.add(r)
    return ks, rng


def prove(name, p):
    """emit obligations for formula p"""
    E = T.ENG
    p = _call(p)
    if isinstance(p, Forall):
        try:
            with E.scoped():
                idx = []
                for lo, hi in p.ranges:
                    vlo, vhi = T.num_val(zi(lo)), T.num_val(zi(hi))
                    if vlo is not None and vhi == vlo + 1:
                        idx.append(vlo)
                        continue
                    k = E.fresh_const("i", "q")
                    E.assume(z3.And(zi(lo) <= k, k < zi(hi)))
                    idx.append(mk("i", k))
                if E.scope_infeasible():
                    E.n_vacuous += 1
                    return
                prove(name, p.f(*idx))
        except PathEnd:
            E.n_vacuous += 1
        return
    if isinstance(p, AndF):
        for q in p.ps:
            prove(name, q)
        return
    if isinstance(p, ImpF):
        try:
            with E.scoped():
                h = raw(p.p)
                E.assume(h)
                if E.scope_infeasible():
                    E.n_vacuous += 1
                    return
                prove(name, p.q)
        except PathEnd:
            E.n_vacuous += 1
        return
    if isinstance(p, OrF):
        # prove the last disjunct under the negation of the others
        try:
            with E.scoped():
                for q in p.ps[:-1]:
                    E.assume(Not(raw(q)))
                if E.scope_infeasible():
                    E.n_vacuous += 1
                    return
                prove(name, p.ps[-1])
        except PathEnd:
            E.n_vacuous += 1
        return
    t = raw(p)
    E.n_clauses += 1
    if isinstance(t, bool):
        t = z3.BoolVal(t)
    t = z3.simplify(t)
    parts = EN._conjuncts(t)
    for g in parts:
        if z3.is_true(g):
            E.n_trivial += 1
            E.trivial.append((E.cur_fn, name))
            continue
        if z3.is_app_of(g, z3.Z3_OP_ITE) and g.num_args() == 3:
            for cnd, br in ((g.arg(0), g.arg(1)), (z3.Not(g.arg(0)), g.arg(2))):
                try:
                    with E.scoped():
                        E.assume(cnd)
                        if not E.scope_infeasible():
                            E.emit(br, name, "postcondition")
                except PathEnd:
                    pass
            continue
        E.emit(g, name, "postcondition")


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.E = eng

    @property
    def pi(self):
        return S("f", self.E.pi)

    def __call__(self, x, *i):
        if isinstance(x, npshim.ObjArr):
            return x[i[0]] if len(i) == 1 else self(x[i[0]], *i[1:])
        if isinstance(x, (list, tuple)):
            v = x[i[0]]
            return self(v, *i[1:]) if len(i) > 1 else v
        if isinstance(x, A.Arr):
            if len(i) == x.ndim:
                return x.at(*i)
            raise Unsupported("specification reads an array at the wrong rank")
        return x

    at = __call__

    def shape(self, x):
        return x.shape if isinstance(x, A.Arr) else A.as_arr(x).shape

    def dim(self, x, k=0):
        return self.shape(x)[k]

    def size(self, x):
        return A.prod(self.shape(x))

    def ndim(self, x):
        return len(self.shape(x))

    def kind(self, x):
        return x.kind if isinstance(x, A.Arr) else T.kind_of(T.unwrap(x))

    def is_array(self, x):
        return isinstance(x, A.Arr)

    def and_(self, *ps):
        return AndF(ps)

    def or_(self, *ps):
        return OrF(ps)

    def not_(self, p):
        p = _call(p)
        return NotF(p) if isinstance(p, Lazy) else T.wrapb(Not(raw(p)))

    def implies(self, p, q):
        return ImpF(p, q)

    def iff(self, p, q):
        a, b = raw(p), raw(q)
        return T.wrapb(T.eq_t(T.wrapb(a), T.wrapb(b)))

    def ite(self, p, x, y):
        c = raw(p)
        if T.is_true(c):
            return _call(x)
        if T.is_false(c):
            return _call(y)
        x, y = _call(x), _call(y)
        if isinstance(x, (Lazy, z3.ExprRef, bool)) or isinstance(y, (Lazy, z3.ExprRef, bool)) or (isinstance(x, S) and x.kind == "b" and isinstance(y, S) and y.kind == "b"):
            return AndF([ImpF(T.wrapb(c), x), ImpF(T.wrapb(Not(c)), y)])
        return T.site(c, x, y)

    def ranges(self, dims):
        if not isinstance(dims, (list, tuple)) or isinstance(dims, tuple):
            dims = [dims]
        return [d if isinstance(d, tuple) else (0, d) for d in dims]

    def forall(self, dims, f):
        r = self.ranges(dims)
        if not r:
            return f()
        return Forall(r, f)

    def exists(self, dims, f, witness=None):
        return Exists(self.ranges(dims), f, witness)

    def sum(self, lo, hi, f):
        E = self.E
        with E.scoped():
            k = E.fresh_const("i", "sk")
            E.pc.append(z3.And(zi(lo) <= k, k < zi(hi)))
            E.qs.add(z3.And(zi(lo) <= k, k < zi(hi)))
            v = T.unwrap(f(mk("i", k)))
            kind = T.kind_of(v)
            if kind == "b":
                kind = "i"
            nan = isinstance(v, S) and not (T.is_false(v.nan) and T.is_false(v.inf))
        so = "i" if kind == "i" else "f"
        n = T._sub(zi(hi), zi(lo))

        def comp(c):
            return E.sum_term(zi(lo), zi(hi), lambda j: getattr(T.lift(T.cast(T.unwrap(f(mk("i", j))), kind)), c), so)

        nf = False
        if nan:
            nf = npshim._any_flag((A.mkdim(n),), lambda j: T.lift(f(mk("i", T._add(zi(lo), j[0])))), "nan")
        return mk(kind, comp("re"), comp("im") if kind == "c" else None, nf)

    def reduce(self, tag, n, f, extra, conc):
        """an unspecified function of the values f(0) .. f(n - 1) and the numbers `extra`; `conc` is what it is on a concrete array"""
        return mk("f", self.E.opaque_reduce(tag, (n,), lambda i: T.lift(T.cast(T.unwrap(f(mk("i", i[0]))), "f")), "f", extra), None, False)

    def where(self, n, f):
        """the positions k < n with f(k), in order"""
        from . import npshim

        return npshim.nonzero(A.Arr.new("b", (A.mkdim(zi(n)),), lambda i: T.wrapb(raw(f(mk("i", i[0]))))))[0]

    def std(self, n, f):
        """standard deviation (uninterpreted where the contract asks for that) of f(0) .. f(n - 1)"""
        from . import npshim

        return npshim.std(A.Arr.new("f", (A.mkdim(zi(n)),), lambda i: T.lift(T.cast(T.unwrap(f(mk("i", i[0]))), "f"))))

    def num(self, x):
        """a constant (arithmetic on it is exact)"""
        return T.lift(x, "f")

    def median(self, n, f):
        return mk("f", self.E.opaque_reduce("median", (n,), lambda i: mk("f", T.lift(T.cast(T.unwrap(f(mk("i", i[0]))), "f")).re), "f"), None, False)

    def count(self, lo, hi, f):
        return self.sum(lo, hi, lambda k: mk("i", T.ite_t(raw(f(k)), z3.IntVal(1), z3.IntVal(0))))

    def _sc(self, x):
        x = T.unwrap(x)
        if isinstance(x, A.Arr) and x.ndim == 0:
            x = x.at()
        return x

    def eq(self, x, y, scale=None):
        x, y = self._sc(x), self._sc(y)
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return x is y or x == y
        return T.wrapb(T.eq_t(x, y))

    def same(self, x, y, scale=None):
        x, y = self._sc(x), self._sc(y)
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return x is y or x == y
        return T.wrapb(T.same_t(x, y))

    def le(self, x, y):
        return T.wrapb(T.lt_t(self._sc(x), self._sc(y), False))

    def lt(self, x, y):
        return T.wrapb(T.lt_t(self._sc(x), self._sc(y)))

    def approx_boundary(self, x, y):
        return False

    def isnan(self, x):
        x = T.lift(x)
        return T.wrapb(x.nan if not isinstance(x.nan, bool) else x.nan)

    def finite(self, x):
        return T.wrapb(T.finite(x))

    def floor(self, x):
        return T.trunc_int(npshim._floor(x))

    def trunc(self, x):
        return T.trunc_int(x)

    def abs(self, x):
        return T.sabs(x)

    def re(self, x):
        return T.sreal(x)

    def im(self, x):
        return T.simag(x)

    def conj(self, x):
        return T.sconj(x)

    def cplx(self, re, im):
        re, im = T.lift(re, "f"), T.lift(im, "f")
        return S("c", re.re, im.re, Or(re.nan, im.nan, re.inf, im.inf))

    def sqrt(self, x):
        return self.E.fn_sqrt(T.lift(x, "f"))

    def sin(self, x):
        return npshim.sin(x)

    def cos(self, x):
        return npshim.cos(x)

    def tan(self, x):
        return npshim.tan(x)

    def radians(self, x):
        return npshim.radians(x)

    def exp(self, x):
        return npshim.exp(x)

    def div(self, a, b):
        return T.binop("//", a, b)

    def mod(self, a, b):
        return T.binop("%", a, b)

    def max(self, a, b):
        return T.site(T.lt_t(a, b), b, a)

    def min(self, a, b):
        return T.site(T.lt_t(b, a), b, a)

    def same_shape(self, x, y):
        sx, sy = self.shape(x), self.shape(y)
        if len(sx) != len(sy):
            return False
        return T.wrapb(And(*[A._cmp(zi(p), zi(q), "==") for p, q in zip(sx, sy)]))

    def is_shape(self, x, *dims):
        sx = self.shape(x)
        if len(sx) != len(dims):
            return False
        return T.wrapb(And(*[A._cmp(zi(p), zi(q), "==") for p, q in zip(sx, dims)]))

    def all_same(self, x, y):
        return AndF([self.same_shape(x, y), Forall([(0, d) for d in self.shape(x)], lambda *i: self.same(self(x, *i), self(y, *i)))]) if len(self.shape(x)) else self.same(x, y)

    def all_is(self, x, f):
        return Forall([(0, d) for d in self.shape(x)], lambda *i: self.same(self(x, *i), f(*i)))

    def unchanged(self, x, old):
        if isinstance(x, dict):
            if not isinstance(old, dict) or list(x) != list(old):
                return False
            return AndF([self.unchanged(x[k], old[k]) for k in x])
        if isinstance(x, (list, tuple)):
            if len(x) != len(old):
                return False
            return AndF([self.unchanged(p, q) for p, q in zip(x, old)])
        if isinstance(x, A.Arr):
            if not isinstance(old, A.Arr) or x.kind != old.kind:
                return False
            return self.all_same(x, old)
        if isinstance(x, (S, int, float, complex)):
            return self.same(x, old)
        if isinstance(x, I.Logger):
            return True
        return x == old

    def no_alias(self, x, y):
        return not (isinstance(x, A.Arr) and isinstance(y, A.Arr) and x.buf is y.buf)


# ------------------------------------------------------------------------------ inputs
class SymBuilder:
    symbolic = True

    def __init__(self, eng, ctx):
        self.E, self.c = eng, ctx
        self.decl = eng.decls
        self.size = 4

    def int(self, name, lo=0, hi=None, size=None):
        t = z3.Int("n_" + name)
        self.decl[name] = ("int", t)
        if lo is not None:
            self.E.assume(t >= zi(lo))
        if hi is not None:
            self.E.assume(t <= zi(hi))
        return mk("i", t)

    def real(self, name, lo=None, hi=None, vals=None):
        t = z3.Real("x_" + name)
        self.decl[name] = ("real", t)
        if lo is not None:
            self.E.assume(t >= T.lift(lo, "f").re)
        if hi is not None:
            self.E.assume(t <= T.lift(hi, "f").re)
        return S("f", t)

    def cplx(self, name):
        return S("c", self.real(name + ".re").re, self.real(name + ".im").re)

    def bool(self, name):
        t = z3.Bool("b_" + name)
        self.decl[name] = ("bool", t)
        return S("b", t)

    def choice(self, name, opts):
        k = self.E.decide(len(opts))
        t = z3.Int("ch_" + name)
        self.decl[name] = ("int", t)
        self.E.assume(t == k)
        return opts[k]

    def arr(self, name, kind, shape, lo=None, hi=None, nan=False, where=None, vals=None, gen=None):
        E = self.E
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        nd = len(shape)
        Is = z3.IntSort()

        def mkf(sfx, so):
            if nd == 0:
                return z3.Const("a_" + name + sfx, so)
            return z3.Function("a_" + name + sfx, *[Is] * nd, so)

        fns = {}
        if kind == "c":
            fns["re"], fns["im"] = mkf(".re", z3.RealSort()), mkf(".im", z3.RealSort())
        else:
            fns["re"] = mkf("", SORTNAME[kind])
        if nan:
            fns["nan"] = mkf(".nan", z3.BoolSort())
        dims = [zi(d) for d in shape]
        self.decl[name] = ("arr", kind, dims, fns)
        con = self.c

        def facts(idx, v):
            out = []
            if lo is not None:
                out.append(T.lt_t(lo, v, False) if kind != "c" else And(v.re >= T.lift(lo, "f").re, v.im >= T.lift(lo, "f").re))
            if hi is not None:
                out.append(T.lt_t(v, hi, False) if kind != "c" else And(v.re <= T.lift(hi, "f").re, v.im <= T.lift(hi, "f").re))
            if where is not None:
                out.append(raw(where(con, v, *[mk("i", i) for i in idx])))
            f = And(*out)
            if nan and not T.is_true(f):
                f = Or(v.nan, f)
            return f

        def value(idx):
            app = (lambda f: f(*idx)) if nd else (lambda f: f)
            return S(kind, app(fns["re"]), app(fns["im"]) if "im" in fns else None, app(fns["nan"]) if "nan" in fns else False)

        has = lo is not None or hi is not None or where is not None

        busy = []

        def rd(idx):
            v = value(idx)
            if has and not busy:
                key = tuple(t.get_id() for t in idx)
                busy.append(1)
                try:
                    f = facts(idx, v)
                finally:
                    busy.pop()
                if not T.is_true(f):
                    rng = And(*[And(A._cmp(i, z3.IntVal(0), ">="), A._cmp(i, d, "<")) for i, d in zip(idx, dims)])
                    g = T.Implies(rng, f)
                    if not T.is_true(g):
                        E.assume(g)
            return v

        if has and nd:
            def hook(E2, x, args):
                v = value(tuple(args))
                busy.append(1)
                try:
                    with E2.scoped():
                        f = facts(tuple(args), v)
                finally:
                    busy.pop()
                rng = And(*[And(A._cmp(i, z3.IntVal(0), ">="), A._cmp(i, d, "<")) for i, d in zip(args, dims)])
                return [T.Implies(rng, f)]

            for c in ("re", "im"):
                if c in fns:
                    E.registry[fns[c].name()] = ("hook", hook, fns[c])
        a = A.Arr.new(kind, shape, rd)
        return a

    def opaque(self, name, fn):
        raise Unsupported("input without a symbolic counterpart")

    def assume(self, p):
        self.E.assume(T.zb(raw(p)))

    def logger(self):
        return I.Logger()


def freeze(x):
    if isinstance(x, A.Arr):
        return x.frozen()
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, list):
        return [freeze(v) for v in x]
    if isinstance(x, tuple):
        return tuple(freeze(v) for v in x)
    return x


class Result:
    pass


def verify(con, case, case_no, tier="quick", verbose=False, deadline=None):
    """verify contract `con` for one case; returns Result with obligations"""
    E = EN.Engine(prove_ms=con.prove_ms, verbose=verbose, **con.cfg)
    T.ENG = E
    E.cur_case = case_no
    E.decls = {}
    E.n_vacuous = E.n_clauses = E.n_trivial = 0
    E.trivial = []
    E.deadline = deadline
    E.cur_fn = con.name
    prog = I.Program(E)
    prog.models = {}
    for k, m in con.models.items():
        prog.models[k] = m
    mod, fn = con.target.split(":")
    E.invariants = lambda f, lid, loop: con.invariants.get((f.split(":")[1], lid))
    E.merge_ifs = getattr(con, "merge_ifs", False)
    E.branch_ms = getattr(con, "branch_ms", 700)
    E.opaque_np = tuple(getattr(con, "opaque_np", ()))
    c = SymCtx(E)
    ended = []

    def run():
        E.write_watch = []
        prog.depth = 0
        b = SymBuilder(E, c)
        try:
            a = NSp(con.inputs(b, case))
        except Skip:
            raise PathEnd("precondition")
        for nm, f in con.requires(c, a):
            E.assume(skolem(E, T.zb(raw(f))))
        old = NSp({k: freeze(v) for k, v in a.__dict__.items()})
        try:
            r = con.call(lambda *x, **k: prog.run(mod, fn, x, k), a)
        except (Unsupported, PathEnd):
            raise
        except (Exception, SystemExit) as e:
            if E.loop_stack:
                raise Unsupported(f"{type(e).__name__} inside a summarised loop: {e}")
            if left_out(e, old):
                raise Unsupported(f"the input of the contract has no {e}")
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"line {q.lineno}" for q in tb if q.filename.startswith(I.REPO)]
            if any("/pyvc/" in q.filename for q in tb[-1:]) and not isinstance(e, (IndexError, ValueError, TypeError, KeyError, ZeroDivisionError, AttributeError)):
                raise
            E.exc_note = f"{type(e).__name__}: {e} at {loc[-1] if loc else '?'}"
            ended.append("raise")
            if verbose:
                print("    exception on path:", E.exc_note)
            prove(f"no {type(e).__name__} ({loc[-1] if loc else '?'})", con.may_raise(c, old, e))
            return
        if getattr(con, "raises_required", None) is not None:
            prove("raises when it must", c.not_(con.raises_required(c, old)))
        ended.append("return")
        if E.qs.check() == z3.unsat:
            ended[-1] = "infeasible"
            return
        for nm, f in con.ensures(c, a, old, r):
            prove(nm, f)

    res = Result()
    res.unsupported = None
    t0 = time.time()
    try:
        res.paths = E.explore(run)
    except Unsupported as e:
        res.unsupported = f"{e}" or type(e).__name__
        res.paths = 0
    except z3.Z3Exception as e:
        res.unsupported = f"solver front end: {e}"
        res.paths = 0
    except RecursionError:
        res.unsupported = "recursion limit"
        res.paths = 0
    except (IndexError, KeyError, TypeError, AttributeError, ValueError, AssertionError, NotImplementedError) as e:
        import traceback

        if verbose:
            traceback.print_exc()
        res.unsupported = f"specification or engine error: {type(e).__name__}: {e}"
        res.paths = 0
    res.ended = ended
    res.secs = time.time() - t0
    res.obls = list(E.obls.values())
    res.n_trivial, res.n_vacuous, res.n_clauses = E.n_trivial, E.n_vacuous, E.n_clauses
    res.trivial = E.trivial
    res.used = sorted(prog.used)
    res.used_models = sorted(prog.used_models)
    res.engine = E
    res.stats = E.stats
    return res


def model_values(E, obl, small=4, tries=True):
    """input values (builder format) from a counterexample of obligation `obl`"""
    outs = []
    bounds = [4, 8] if tries else []
    models = []
    for bd in bounds:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*obl.pc)
        s.add(z3.Not(T.zb(obl.goal)))
        for nm, d in E.decls.items():
            if d[0] == "int":
                s.add(d[1] <= bd)
        if s.check() == z3.sat:
            models.append(s.model())
            break
    if obl.model is not None:
        models.append(obl.model)
    for m in models:
        v = {}
        ok = True
        for nm, d in E.decls.items():
            if d[0] in ("int", "real", "bool"):
                t = m.eval(d[1], model_completion=True)
                if d[0] == "bool":
                    v[nm] = z3.is_true(t)
                elif d[0] == "int":
                    v[nm] = t.as_long()
                else:
                    v[nm] = frac(t)
            else:
                kind, dims, fns = d[1:]
                sh = [m.eval(x, model_completion=True).as_long() for x in dims]
                n = 1
                for x in sh:
                    n *= x
                if n > 3000 or any(x < 0 for x in sh):
                    ok = False
                    break
                import itertools

                flat = []
                for idx in itertools.product(*[range(x) for x in sh]):
                    ev = lambda f: m.eval(f(*[z3.IntVal(i) for i in idx]) if sh else f, model_completion=True)
                    if "nan" in fns and z3.is_true(ev(fns["nan"])):
                        flat.append(["nan", "0.0"] if kind == "c" else "nan")
                    elif kind == "c":
                        flat.append([repr(frac(ev(fns["re"]))), repr(frac(ev(fns["im"])))])
                    elif kind == "f":
                        flat.append(repr(frac(ev(fns["re"]))))
                    elif kind == "i":
                        flat.append(ev(fns["re"]).as_long())
                    else:
                        flat.append(z3.is_true(ev(fns["re"])))
                v[nm] = dict(shape=sh, flat=flat)
        if ok:
            outs.append(v)
    return outs


def frac(t):
    if z3.is_rational_value(t):
        return float(t.numerator_as_long()) / float(t.denominator_as_long())
    if z3.is_algebraic_value(t):
        a = t.approx(20)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    if z3.is_int_value(t):
        return float(t.as_long())
    return 0.0
