"""Loop rules.

* concrete iterables run concretely;
* symbolic iterables with an annotated invariant: classical init / preserve / exit rule;
* symbolic iterables without annotation: an inductive summary is derived and justified from the
  body executed once from an arbitrary (havocked) iteration state: every written location must be an
  overwrite or an accumulation whose guard and value do not depend on loop-carried state except through
  already summarised locations. Anything else is Unsupported.
"""
import z3
from . import terms as T
from . import arr as A
from .terms import S, Unsupported, And, Or, Not, zi, mk
from .engine import PathEnd, free_consts, mentions_const, solve_eq, subst, SORTNAME, _conjuncts

UNBOUND = object()


def khash(k):
    import zlib

    return zlib.crc32(repr(k).encode())


class SymRange:
    def __init__(self, n, item, desc="range"):
        self.n = n  # z3 Int trip count
        self.item = item  # k (z3 Int) -> value
        self.desc = desc

    def __iter__(self):
        raise Unsupported("symbolic range consumed outside a for statement")

    def __len__(self):
        raise Unsupported("len of symbolic range")


def sym_range(*args):
    args = [T.unwrap(a) for a in args]
    args = [a.at() if isinstance(a, A.Arr) and a.ndim == 0 else a for a in args]
    for a in args:
        if isinstance(a, A.Arr) or isinstance(a, float) or (isinstance(a, S) and a.kind in "fc"):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if not any(isinstance(a, S) for a in args):
        return range(*[int(a) for a in args])
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    st, sp = zi(start), zi(stop)
    stp = zi(step)
    if T.num_val(stp) == 1:
        n = T._sub(sp, st)
    elif T.ENG.must(stp > 0):
        n = T.idiv(T._sub(T._add(T._sub(sp, st), stp), z3.IntVal(1)), stp)
    else:
        raise Unsupported("range with a non-positive or unknown step")
    v = T.num_val(z3.simplify(n))
    if v is not None:
        return [mk("i", T._add(st, T._mul(stp, z3.IntVal(j)))) for j in range(v)] if not (T.num_val(st) is not None) else range(T.num_val(st), T.num_val(st) + v * T.num_val(stp), T.num_val(stp))
    return SymRange(n, lambda k: mk("i", T._add(st, T._mul(stp, k))))


def to_sym(it):
    """iterable -> SymRange or None (concrete)"""
    if isinstance(it, SymRange):
        return it
    if isinstance(it, A.Arr):
        if it.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if isinstance(it.shape[0], S):
            fr = it
            return SymRange(zi(it.shape[0]), lambda k: fr[mk("i", k)], "array")
    return None


class Loop:
    def __init__(self, eng, lid, fn, iterable, names, loc):
        self.eng, self.lid, self.fn = eng, lid, fn
        self.names = names
        self.mode = None
        self.vals = {}
        self.state = 0
        sr = to_sym(iterable)
        if sr is None:
            self.mode = "concrete"
            self.it = iter(iterable)
            return
        self.sr = sr
        self.n = sr.n

    # --- protocol used by instrumented code
    def has(self, v):
        return v in self.vals

    def get(self, v):
        return self.vals[v]

    def item(self):
        return self.cur

    def next(self, loc):
        if self.mode == "concrete":
            self.vals = {}
            try:
                self.cur = next(self.it)
                return True
            except StopIteration:
                return False
        if self.state == 0:
            self.state = 1
            return self.begin(loc)
        return self.end(loc)

    def after(self, loc):
        """called right after the loop statement (normal exit or break)"""
        if self.mode in ("probe", "inv-body"):
            if self.mode == "probe":
                raise Unsupported("break out of a summarised loop")
            # break from an annotated loop: continue after it from the mid-loop state
            self.vals = {}
            E = self.eng
            if E.loop_stack and E.loop_stack[-1] is self:
                E.loop_stack.pop()
        return None

    # --- symbolic
    def begin(self, loc):
        E = self.eng
        inv = E.find_invariant(self.fn, self.lid, self)
        if inv is not None:
            return self.begin_inv(loc, inv)
        if not E.branch(self.n > 0):
            self.mode = "skip"
            self.vals = {}
            return False
        self.key = (self.fn, self.lid, tuple(E.decisions[: E.pos]), E.cnt.get("loopocc", 0))
        E.cnt["loopocc"] = E.cnt.get("loopocc", 0) + 1
        rec = E.summaries.get(self.key)
        if rec is None:
            rec = E.summaries[self.key] = Rec()
        self.rec = rec
        d = E.decide(lambda: rec.n_options())
        if d == 0 or not rec.stable(d):
            return self.begin_probe(loc, d)
        return self.begin_exit(loc)

    def entry_vars(self, loc):
        out = {}
        for v in self.names:
            if v in loc:
                out[v] = loc[v]
        return out

    def begin_probe(self, loc, d):
        E, rec = self.eng, self.rec
        if d != rec.probe_id:
            if d > 6:
                raise Unsupported("loop state does not stabilise")
            rec.start_probe(d)
        self.mode = "probe"
        self.d = d
        tag = f"L{self.lid}.{khash(self.key)}.{d}.{len(rec.paths)}"
        self.saved_cnt = None
        base = f"it:{self.fn}:{self.lid}:{len(E.loop_stack)}:{khash(self.key)}"
        self.i = z3.Int(base)
        E.loop_stack.append(self)
        self.tag = tag
        E.assume(self.i >= 0)
        E.assume(self.i < self.n)
        self.entry_buf = E.buf_n
        self.branch_mark = len(E.branch_log)
        self.fact_mark = len(E.pc)
        self.pre = self.entry_vars(loc)
        self.loc0 = dict(loc)
        # havoc written buffers
        self.hv = {}
        for bid in sorted(rec.havoc):
            buf = E._bufs[bid]
            h = HvBuf(self, buf, rec.flagged.get(bid, False))
            self.hv[bid] = h
            h.install()
        # havoc assigned variables bound at entry
        self.hvars = {}
        self.hvfn = {}
        self.vals = {}
        for v, x in self.pre.items():
            if v in rec.temps:
                continue
            y = self.havoc_var(v, x)
            if y is not x:
                self.vals[v] = y
        self.containers = snapshot_containers(loc)
        self.written = set()
        E.write_watch.append(self.on_write)
        self.cur = self.sr.item(self.i)
        return True

    def on_write(self, buf):
        if buf.id <= self.entry_buf:
            self.written.add(buf.id)

    def havoc_var(self, v, x):
        E, rec = self.eng, self.rec
        x = T.unwrap(x)
        if isinstance(x, S) or T.is_num(x):
            k = rec.kinds.get(v, T.kind_of(x))
            if v not in rec.hvars:
                # first probe: keep the entry value, only discover
                if rec.probe_id == 0:
                    return x
            nm = f"hv:{self.fn}:{self.lid}:{v}:{khash(self.key)}"
            if k == "c":
                y = S("c", z3.Real(nm + ".re"), z3.Real(nm + ".im"), z3.Bool(nm + ".nan") if v in rec.vflag else False)
            else:
                y = S(k, z3.Const(nm, SORTNAME[k]), None, z3.Bool(nm + ".nan") if v in rec.vflag else False)
            self.hvars[v] = y
            return y
        if isinstance(x, A.Arr):
            if rec.probe_id == 0 or v not in rec.hvars:
                return x
            nm = f"hva:{self.fn}:{self.lid}:{v}:{khash(self.key)}"
            y = fresh_arr(nm, rec.kinds.get(v, x.kind), x.shape, v in rec.vflag)
            self.hvfn[v] = (y.buf, y.buf.fn)
            self.hvars[v] = y
            return y
        return x

    def end(self, loc):
        E = self.eng
        if self.mode == "skip":
            return False
        if self.mode == "exit":
            return False
        if self.mode == "inv-body":
            return self.end_inv(loc)
        if self.mode != "probe":
            return False
        rec = self.rec
        E.write_watch.remove(self.on_write)
        E.loop_stack.pop()
        appends = take_appends(self.containers, loc, self.loc0, self.names)
        check_containers(self.containers)
        conds = [c for c in E.branch_log[self.branch_mark:]]
        facts = [f for f in E.pc[self.fact_mark:] if not any(f.eq(c) for c in conds)]
        out_vars = {v: loc.get(v, UNBOUND) for v in self.names}
        readers = {bid: E._bufs[bid].reader() for bid in self.written | set(rec.havoc)}
        # discover flags / kinds
        for bid in self.written:
            if bid not in rec.havoc:
                rec.new_havoc.add(bid)
            elif bid not in rec.flagged:
                if self.produces_flags(E._bufs[bid]):
                    rec.flagged[bid] = True
                    rec.dirty = True
        for v, y in out_vars.items():
            x = self.pre.get(v, UNBOUND)
            if x is UNBOUND:
                continue
            yy, xx = T.unwrap(y), T.unwrap(x)
            if isinstance(yy, (S, int, float, complex, bool)) and isinstance(xx, (S, int, float, complex, bool)):
                k = T.kmax(T.kind_of(yy), rec.kinds.get(v, T.kind_of(xx)))
                if k != rec.kinds.get(v):
                    rec.kinds[v] = k
                    rec.dirty = True
                if isinstance(yy, S) and (not T.is_false(yy.nan) or not T.is_false(yy.inf)) and v not in rec.vflag:
                    rec.vflag.add(v)
                    rec.dirty = True
                if v not in rec.hvars:
                    rec.hvars.add(v)
                    rec.dirty = True
            elif isinstance(yy, A.Arr) and yy is xx and v not in rec.hvars:
                continue  # not rebound: its buffer carries the changes
            elif isinstance(yy, A.Arr) and isinstance(xx, A.Arr):
                if v in self.hvfn and self.hvfn[v][0].fn is not self.hvfn[v][1]:
                    raise Unsupported(f"array variable {v} is both rebound and changed in place")
                k = T.kmax(yy.kind, rec.kinds.get(v, xx.kind))
                if yy.ndim != xx.ndim or not all(A.same_dim(p, q) for p, q in zip(yy.shape, xx.shape)):
                    rec.temps_c.add(v)
                elif k != rec.kinds.get(v):
                    rec.kinds[v] = k
                    rec.dirty = True
                if v not in rec.hvars:
                    rec.hvars.add(v)
                    rec.dirty = True
        rec.paths.append(dict(conds=conds, facts=facts, vars=out_vars, readers=readers, hv=dict(self.hv), hvars=dict(self.hvars), i=self.i, pre=self.pre, appends=appends))
        raise PathEnd("loop body")

    def produces_flags(self, buf):
        E = self.eng
        if buf.kind not in "fc":
            return False
        with E.scoped():
            idx = tuple(E.fresh_index(d, "pf") for d in buf.shape)
            v = buf.reader()(idx)
        return isinstance(v, S) and not (T.is_false(v.nan) and T.is_false(v.inf))

    # --- exit: build the summary
    def begin_exit(self, loc):
        E, rec = self.eng, self.rec
        self.mode = "exit"
        self.vals = {}
        i = rec.paths[0]["i"]
        summ = Summary(self, i)
        # variables
        for v in self.names:
            outs = [p["vars"].get(v, UNBOUND) for p in rec.paths]
            pre = loc.get(v, UNBOUND)
            summ.add_var(v, outs, pre)
        for bid in sorted(rec.havoc):
            summ.add_buf(bid)
        for v in sorted({v for p in rec.paths for v in p["appends"]}):
            if not all(v in p["appends"] for p in rec.paths):
                raise Unsupported("list that only some iterations append to")
            summ.items.append(AppendItem(summ, v, [p["appends"][v] for p in rec.paths], loc[v]))
        summ.solve()
        self.summ = summ
        summ.redo_obligations()
        for bid, fn in summ.exit_bufs.items():
            E._bufs[bid].set_fn(fn)
        for v, x in summ.exit_vars.items():
            self.vals[v] = x
        # facts established at every iteration (callee postconditions on fresh values)
        summ.carry_facts()
        self.cur = None
        return False

    # --- annotated invariants
    def begin_inv(self, loc, inv):
        E = self.eng
        self.inv = inv
        E.assume(self.n >= 0) if E.must(self.n >= 0) else None
        ns = NS(loc)
        for name, c in inv.invariant(E, ns, mk("i", z3.IntVal(0))):
            E.require(T.truth(c) if not isinstance(c, bool) else c, f"loop invariant '{name}' holds initially", kind="invariant")
        d = E.decide(2)
        names = [v for v in self.names if v in loc]
        self.vals = {}
        # havoc
        for v in names:
            x = T.unwrap(loc[v])
            if v in inv.keep:
                continue
            if isinstance(x, S) or T.is_num(x):
                self.vals[v] = E.fresh_scalar(inv.kinds.get(v, T.kind_of(x)), "inv_" + v)
            elif isinstance(x, A.Arr):
                self.vals[v] = fresh_arr(E.fresh_name("inva_" + v), x.kind, x.shape)
        self.allowed = set()
        for v in inv.modifies:
            x = loc[v]
            if v in self.vals:
                continue
            self.allowed.add(x.buf.id)
            f = fresh_arr(E.fresh_name("invb_" + v), x.buf.kind, x.buf.shape)
            x.buf.set_fn(f.reader())
        ns2 = NS({**loc, **self.vals})
        if d == 0:
            self.mode = "inv-body"
            self.i = E.fresh_const("i", "iti")
            E.assume(self.i >= 0)
            E.assume(self.i < self.n)
            for name, c in inv.invariant(E, ns2, mk("i", self.i)):
                E.assume(c)
            self.entry_buf = E.buf_n
            self.watch = self.inv_write
            E.write_watch.append(self.watch)
            E.loop_stack.append(self)
            self.cur = self.sr.item(self.i)
            return True
        self.mode = "exit"
        nn = T.ite_t(self.n >= 0, self.n, z3.IntVal(0)) if not E.must(self.n >= 0) else self.n
        for name, c in inv.invariant(E, ns2, mk("i", nn)):
            E.assume(c)
        return False

    def inv_write(self, buf):
        if buf.id <= self.entry_buf and buf.id not in self.allowed:
            raise Unsupported("loop writes an array not listed in its modifies clause")

    def end_inv(self, loc):
        E = self.eng
        E.write_watch.remove(self.watch)
        if E.loop_stack and E.loop_stack[-1] is self:
            E.loop_stack.pop()
        for name, c in self.inv.invariant(E, NS(loc), mk("i", T._add(self.i, z3.IntVal(1)))):
            E.require(T.truth(c) if not isinstance(c, bool) else c, f"loop invariant '{name}' is preserved", kind="invariant")
        raise PathEnd("loop body")


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


class Rec:
    def __init__(self):
        self.probe_id = -1
        self.paths = []
        self.havoc = set()
        self.new_havoc = set()
        self.flagged = {}
        self.kinds = {}
        self.hvars = set()
        self.vflag = set()
        self.temps = set()
        self.temps_c = set()
        self.dirty = False
        self.is_stable = False
        self.emitted = []

    def n_options(self):
        return 2 if self.probe_id < 0 else self.probe_id + 2

    def stable(self, d):
        """called when the choice moves to d; decide whether the last probe was conclusive"""
        if d == self.probe_id:
            return False  # replaying inside the current probe
        if self.is_stable:
            return True
        if d == self.probe_id + 1:
            if self.probe_id >= 1 and not self.dirty and not self.new_havoc:
                self.is_stable = True
                return True
        return False

    def start_probe(self, d):
        # obligations emitted by an inconclusive probe are void
        for k in self.emitted:
            T.ENG.obls.pop(k, None)
        self.emitted = []
        self.probe_id = d
        self.havoc |= self.new_havoc
        self.new_havoc = set()
        self.temps |= self.temps_c
        self.temps_c = set()
        self.dirty = False
        self.paths = []


class HvBuf:
    """arbitrary contents of a buffer at the start of an iteration"""

    def __init__(self, loop, buf, flags):
        nm = f"hvb:{loop.fn}:{loop.lid}:{buf.id}:{khash(loop.key)}"
        self.buf = buf
        self.entry = buf.reader()
        I = z3.IntSort()
        nd = len(buf.shape)
        self.fns = {}
        k = buf.kind
        if k == "c":
            self.fns["re"] = z3.Function(nm + ".re", *[I] * nd, z3.RealSort()) if nd else z3.Real(nm + ".re")
            self.fns["im"] = z3.Function(nm + ".im", *[I] * nd, z3.RealSort()) if nd else z3.Real(nm + ".im")
        else:
            self.fns["re"] = z3.Function(nm, *[I] * nd, SORTNAME[k]) if nd else z3.Const(nm, SORTNAME[k])
        if flags and k in "fc":
            self.fns["nan"] = z3.Function(nm + ".nan", *[I] * nd, z3.BoolSort()) if nd else z3.Bool(nm + ".nan")
            if k == "f":
                self.fns["inf"] = z3.Function(nm + ".inf", *[I] * nd, z3.BoolSort()) if nd else z3.Bool(nm + ".inf")
        self.kind = k

    def app(self, comp, idx):
        f = self.fns[comp]
        return f(*idx) if len(self.buf.shape) else f

    def read(self, idx):
        return S(
            self.kind,
            self.app("re", idx),
            self.app("im", idx) if "im" in self.fns else None,
            self.app("nan", idx) if "nan" in self.fns else False,
            self.app("inf", idx) if "inf" in self.fns else False,
        )

    def install(self):
        self.buf.fn = self.read
        self.buf.memo = {}


def fresh_arr(nm, kind, shape, flags=False):
    I = z3.IntSort()
    nd = len(shape)

    def mkf(suffix, so):
        if nd == 0:
            c = z3.Const(nm + suffix, so)
            return lambda idx: c
        f = z3.Function(nm + suffix, *[I] * nd, so)
        return lambda idx: f(*idx)

    if kind == "c":
        r, m = mkf(".re", z3.RealSort()), mkf(".im", z3.RealSort())
        nn = mkf(".nan", z3.BoolSort()) if flags else None
        return A.Arr.new("c", shape, lambda idx: S("c", r(idx), m(idx), nn(idx) if nn else False))
    r = mkf("", SORTNAME[kind])
    nn = mkf(".nan", z3.BoolSort()) if flags and kind == "f" else None
    fi = mkf(".inf", z3.BoolSort()) if flags and kind == "f" else None
    return A.Arr.new(kind, shape, lambda idx: S(kind, r(idx), None, nn(idx) if nn else False, fi(idx) if fi else False))


# ------------------------------------------------------------------------------- containers
def snapshot_containers(loc):
    out = []
    seen = set()

    def rec(x, depth):
        if id(x) in seen or depth > 4:
            return
        if isinstance(x, dict):
            seen.add(id(x))
            out.append((x, dict(x)))
            for v in list(x.values()):
                rec(v, depth + 1)
        elif isinstance(x, list):
            seen.add(id(x))
            out.append((x, list(x)))
            for v in x:
                rec(v, depth + 1)
        elif isinstance(x, tuple):
            for v in x:
                rec(v, depth + 1)

    for k, v in loc.items():
        if not k.startswith("__L"):
            rec(v, 0)
    return out


def check_containers(snap):
    for x, old in snap:
        if isinstance(x, dict):
            if x.keys() != old.keys() or any(x[k] is not old[k] for k in old):
                bad = [k for k in x if k not in old or x[k] is not old[k]]
                x.clear()
                x.update(old)
                raise Unsupported(f"loop body rebinds dictionary entries {bad}")
        else:
            if len(x) != len(old) or any(a is not b for a, b in zip(x, old)):
                x[:] = old
                raise Unsupported("loop body mutates a list")


class SymList:
    """a list of symbolic length: `pre` followed by n values; usable where an array is made of it"""

    def __init__(self, pre, n, kind, value):
        self.pre, self.n, self.kind, self.value = pre, n, kind, value

    def __vc_array__(self):
        m = len(self.pre)
        k = self.kind
        for x in self.pre:
            k = T.kmax(k, T.kind_of(T.unwrap(x)))

        def fn(idx):
            i = idx[0]
            r = T.cast(self.value(T._sub(i, z3.IntVal(m))), k)
            for j, x in reversed(list(enumerate(self.pre))):
                r = T.site(A._cmp(i, z3.IntVal(j), "=="), T.cast(T.unwrap(x), k), r)
            return r

        return A.Arr.new(k, (A.mkdim(T._add(zi(self.n), z3.IntVal(m))),), fn)

    def _bad(self, *a, **k):
        raise Unsupported("list of symbolic length")

    __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __mul__ = __eq__ = __contains__ = __bool__ = __iadd__ = __deepcopy__ = _bad
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        self._bad()


def take_appends(snap, loc, loc0, names):
    """lists that this iteration extended by one number, bound to exactly one local name: {name: value}; the lists are restored"""
    out = {}
    for x, old in snap:
        if isinstance(x, list) and len(x) == len(old) + 1 and all(a is b for a, b in zip(x, old)):
            v = T.unwrap(x[-1])
            at = [n for n, y in loc.items() if y is x]
            inside = [y for y, _ in snap if y is not x and any(z is x for z in (y.values() if isinstance(y, dict) else y))]
            if len(at) == 1 and at[0] in names and loc0.get(at[0]) is x and not inside and (isinstance(v, S) or T.is_num(v)):
                out[at[0]] = v
                x.pop()
    return out


# ------------------------------------------------------------------------------- summary
def leaves(t):
    """top-level if-then-else leaves: [(conds, leaf)]"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return [([c] + cs, l) for cs, l in leaves(a)] + [([z3.Not(c)] + cs, l) for cs, l in leaves(b)]
    return [([], t)]


def lin_delta(t, old):
    """t - old if t = old + D with D free of old (pushing through ites); None otherwise"""
    if t.eq(old):
        return z3.IntVal(0) if z3.is_int(t) else z3.RealVal(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if contains(c, old):
            return None
        da, db = lin_delta(a, old), lin_delta(b, old)
        if da is None or db is None:
            return None
        return da if da.eq(db) else z3.If(c, da, db)
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        ch = t.children()
        hit = [j for j, c in enumerate(ch) if contains(c, old)]
        if len(hit) != 1:
            return None
        d = lin_delta(ch[hit[0]], old)
        if d is None:
            return None
        for j, c in enumerate(ch):
            if j != hit[0]:
                d = T._add(d, c)
        return d
    if z3.is_app_of(t, z3.Z3_OP_SUB):
        ch = t.children()
        if any(contains(c, old) for c in ch[1:]):
            return None
        d = lin_delta(ch[0], old)
        if d is None:
            return None
        for c in ch[1:]:
            d = T._sub(d, c)
        return d
    return None


def contains(t, sub):
    stack = [t]
    vis = set()
    sid = sub.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() == sid:
            return True
        if x.get_id() in vis:
            continue
        vis.add(x.get_id())
        stack.extend(x.children())
    return False


class Summary:
    def __init__(self, loop, i):
        self.loop, self.i = loop, i
        self.eng = loop.eng
        self.rec = loop.rec
        self.n = loop.n
        self.items = []  # unsolved components
        self.solved = {}  # decl name -> fn(iter_index, args) -> term
        self.exit_bufs = {}
        self.exit_vars = {}
        self.bufcomp = {}
        self.varcomp = {}
        self.late = []

    # merge per-path values with the path conditions
    def merge_terms(self, ts):
        paths = self.rec.paths
        r = ts[-1]
        for p, t in zip(reversed(paths[:-1]), reversed(ts[:-1])):
            c = And(*p["conds"])
            r = T.ite_t(c, t, r) if not isinstance(t, bool) or not isinstance(r, bool) else r
        return r

    def merge_scalars(self, vs):
        paths = self.rec.paths
        r = vs[-1]
        for p, v in zip(reversed(paths[:-1]), reversed(vs[:-1])):
            r = T.site(And(*p["conds"]), v, r)
        return r

    def hv_names(self):
        names = set()
        p = self.rec.paths[0]
        for bid, h in p["hv"].items():
            for f in h.fns.values():
                names.add(f.name() if isinstance(f, z3.FuncDeclRef) else f.decl().name())
        for v, y in p["hvars"].items():
            if isinstance(y, S):
                for t in (y.re, y.im, y.nan, y.inf):
                    if isinstance(t, z3.ExprRef):
                        names.add(t.decl().name())
            else:
                names.add(("arr", v))
        return names

    def add_var(self, v, outs, pre):
        rec = self.rec
        hv = rec.paths[0]["hvars"].get(v)
        if all(o is UNBOUND for o in outs):
            return
        if any(o is UNBOUND for o in outs):
            return  # maybe-unbound after the loop: leave as before
        outs = [T.unwrap(o) for o in outs]
        if all(isinstance(o, S) or T.is_num(o) for o in outs):
            m = self.merge_scalars(outs)
            self.items.append(VarItem(self, v, m, hv, pre))
        elif all(isinstance(o, A.Arr) for o in outs):
            if all(o is pre for o in outs) :
                return
            if pre is not UNBOUND and isinstance(pre, A.Arr) and all(o.buf is pre.buf for o in outs) and hv is None:
                return
            sh = outs[0].shape
            for o in outs[1:]:
                if o.ndim != len(sh) or not all(A.same_dim(a, b) for a, b in zip(o.shape, sh)):
                    return
            self.items.append(ArrVarItem(self, v, outs, hv, pre))
        elif all(o is outs[0] for o in outs) and (outs[0] is pre):
            return
        else:
            try:
                self.late.append((v, outs))
            except Exception:
                pass

    def add_buf(self, bid):
        self.items.append(BufItem(self, bid))

    def solve(self):
        pending = list(self.items)
        self.pending_names = {}
        for it in pending:
            for nm in it.names():
                self.pending_names[nm] = it
        progress = True
        while pending and progress:
            progress = False
            for it in list(pending):
                ok = it.try_solve()
                if ok:
                    pending.remove(it)
                    for nm in it.names():
                        self.pending_names.pop(nm, None)
                    progress = True
        if pending:
            bad = []
            for it in pending:
                if it.optional():
                    continue
                bad.append(it.desc())
            if bad:
                raise Unsupported("loop-carried state needs an invariant: " + ", ".join(bad))
        for it in self.items:
            if it not in pending:
                it.finish()
        for v, outs in self.late:
            pass

    def is_free(self, t, allow=()):
        """t has no unsolved havoc symbols (looking into closures)"""
        return not self.unsolved(t, allow)

    def unsolved(self, t, allow=()):
        if not isinstance(t, z3.ExprRef):
            return False
        for nm in sym_names(self.eng, t):
            if nm in self.pending_names and nm not in allow:
                return True
        return False

    def rewrite(self, t, at=None):
        """replace solved havoc symbols by their closed forms at iteration `at` (default: i)"""
        if not isinstance(t, z3.ExprRef):
            return t
        names = sym_names(self.eng, t)
        if not any(nm in self.solved for nm in names):
            return t
        return rewrite_apps(self.eng, t, self.solved, self.i if at is None else at)

    def redo_obligations(self):
        """obligations of the body that need the state at iteration i: proved again with its closed form"""
        E, rec = self.eng, self.rec
        solved = set(self.solved)
        for key in list(rec.emitted):
            o = E.obls.get(key)
            if o is None or o.status == "discharged":
                continue
            ts = [o.goal] + [T.zb(p) for p in o.pc]
            if not any(set(sym_names(E, t)) & solved for t in ts):
                continue
            try:
                ts = [self.rewrite(t) for t in ts]
            except Unsupported:
                continue
            rec.emitted.remove(key)
            del E.obls[key]
            E.emit(ts[0], o.name, o.kind, pc=ts[1:])

    def carry_facts(self):
        E = self.eng
        loopfresh = [f for p in self.rec.paths for f in p["facts"]]
        if not loopfresh:
            return
        i = self.i
        for p in self.rec.paths:
            fs = []
            for f in p["facts"]:
                if not mentions_const(f, i):
                    continue
                if f.eq(i >= 0) or f.eq(i < self.n):
                    continue
                f2 = self.rewrite(f)
                if self.unsolved_any(f2):
                    continue
                if not has_fresh(f2):
                    continue
                fs.append(f2)
            if not fs:
                continue
            cs = [self.rewrite(c) for c in p["conds"]]
            if any(self.unsolved_any(c) for c in cs):
                continue
            j = z3.Int("?q" + str(len(E.pc)))
            body = z3.Implies(z3.And(i >= 0, i < self.n, *cs), z3.And(*fs))
            E.pc.append(z3.ForAll([j], subst(body, [(i, j)])))

    def unsolved_any(self, t):
        names = sym_names(self.eng, t)
        hv = self.hv_names()
        return any(n in hv for n in names)


def has_fresh(t):
    return any(isinstance(n, str) and n.startswith("fv:") for n in sym_names(T.ENG, t))


_sn = {}


def sym_names(E, t):
    """names of all uninterpreted symbols in t, including inside closure bodies"""
    k = t.get_id()
    h = _sn.get(k)
    if h is not None and h[0].eq(t):
        return h[1]
    out = set()
    stack = [t]
    vis = set()
    while stack:
        x = stack.pop()
        if x.get_id() in vis:
            continue
        vis.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                out.add(nm)
                r = E.registry.get(nm)
                if r is not None:
                    info = r[1]
                    rec = info if hasattr(info, "body") else (info.get("rec") if isinstance(info, dict) else None)
                    if rec is not None:
                        stack.extend(rec.body)
            stack.extend(x.children())
    _sn[k] = (t, out)
    return out


def rewrite_apps(E, t, solved, at):
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_app(x):
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in solved:
                    r = solved[nm](at, ch)
                else:
                    reg = E.registry.get(nm)
                    r = None
                    if reg is not None:
                        kind, info, f = reg
                        rec = info if hasattr(info, "body") else (info.get("rec") if isinstance(info, dict) else None)
                        if rec is not None and any(n in solved for b in rec.body for n in sym_names(E, b)):
                            if kind in ("nzcnt", "nzat", "nzrank") or kind.startswith("red:"):
                                r = rewrite_def(E, x, kind, info, ch, go2)
                                memo[i] = r
                                return r
                            if kind != "sum":
                                raise Unsupported("loop-carried state inside a reduction")
                            k = E.fresh_const("i", "rwk")
                            body = E.inst_body(rec, ch[2:], [k])[0]
                            body = go2(body)
                            r = E.sum_of(ch[0], ch[1], k, body, "i" if z3.is_int(x) else "f")
                    if r is None:
                        r = x.decl()(*ch) if ch else x
            else:
                r = x.decl()(*ch) if ch else x
                if any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = rebuild(x, ch)
        else:
            r = x
        memo[i] = r
        return r

    def go2(b):
        return go(b)

    return go(t)


def rewrite_def(E, x, kind, info, ch, go):
    """positions or a reduction whose body mentions solved state: the same over the rewritten body"""
    rec, nd = info["rec"], info["nd"]
    nx = {"nzcnt": 0, "nzat": 1, "nzrank": nd}.get(kind, 0)
    lead, dims = ch[:nx], ch[nx:nx + nd]
    ex = ch[nx + nd:nx + nd + info.get("nex", 0)]
    params = ch[nx + nd + len(ex):]
    ks = [E.fresh_const("i", "rwk") for _ in dims]
    with E.scoped():
        for k, d in zip(ks, dims):
            E.assume(k >= 0)
            E.assume(k < d)
        body = [go(b) for b in E.inst_body(rec, params, ks)]
    if kind.startswith("nz"):
        nz = E.nonzero_of(tuple(A.mkdim(d) for d in dims), lambda idx: mk("b", subst(body[0], list(zip(ks, [zi(v) for v in idx])))))
        if kind == "nzcnt":
            return zi(nz.cnt)
        if kind == "nzat":
            return zi(nz.at(lead[0])[info["j"]])
        return zi(nz.rank(tuple(lead)))
    rec2, ps = E.closure(rec.key.split("#")[0], body, ks)
    args = dims + ex + ps
    so = x.decl().name().rsplit(":", 1)[1]
    return E.def_fn(rec2.key + ":" + so, [a.sort() for a in args], x.sort(), kind, dict(rec=rec2, nd=nd, nex=len(ex)))(*args)


def rebuild(x, ch):
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return T.ite_t(ch[0], ch[1], ch[2])
    return z3.substitute(x, *[(a, b) for a, b in zip(x.children(), ch)]) if False else x.decl()(*ch)


class Item:
    def optional(self):
        return False


def classify(summ, t, old, name, j_sub):
    """t: new value term at iteration i (already rewritten), old: havocked value term (or None).
    returns a function cf(at, entry) -> term for the value at the start of iteration `at`."""
    E, i, n = summ.eng, summ.i, summ.n
    t = z3.simplify(t) if False else t
    if old is not None and t.eq(old):
        return lambda at, entry: entry
    isnum = not z3.is_bool(t)
    if old is not None and isnum and contains(t, old):
        d = lin_delta(t, old)
        if d is not None and summ.is_free(d) and not contains(d, old):
            sort = "i" if z3.is_int(t) else "f"

            def cf(at, entry):
                k = E.fresh_const("i", "acck")
                body = subst(d, [(i, k)])
                with E.scoped():
                    E.assume(k >= 0)
                    E.assume(k < at)
                    s = E.sum_of(z3.IntVal(0), at, k, z3.simplify(body), sort)
                return T._add(entry, s)

            return cf
    # boolean or/and accumulation
    if old is not None and not isnum and contains(t, old):
        d = or_delta(t, old)
        if d is not None and summ.is_free(d) and not contains(d, old):
            def cf(at, entry):
                k = E.fresh_const("i", "acck")
                body = z3.If(subst(d, [(i, k)]), z3.IntVal(1), z3.IntVal(0))
                with E.scoped():
                    E.assume(k >= 0)
                    E.assume(k < at)
                    s = E.sum_of(z3.IntVal(0), at, k, z3.simplify(body), "i")
                return z3.Or(entry, s > 0)

            return cf
        d = or_delta(z3.simplify(z3.Not(t)), z3.Not(old)) if False else None
    # overwrite
    lv = leaves(t)
    touched, untouched = [], []
    for cs, l in lv:
        if old is not None and l.eq(old):
            untouched.append(cs)
        else:
            touched.append((cs, l))
    if old is not None and touched and all(T.num_val(l) is not None and l.eq(touched[0][1]) for _, l in touched) and any(contains(c, old) for cs, _ in lv for c in cs):
        # the same number is stored wherever a condition on the old value holds: once stored it stays
        C0 = z3.Or(*[z3.And(*cs) if cs else z3.BoolVal(True) for cs, l in touched])
        mark = E.fresh_const("f" if old.sort() == z3.RealSort() else "i", "oldv")
        if not summ.is_free(subst(C0, [(old, mark)])):
            return None

        def cf(at, entry):
            k = E.fresh_const("i", "lwk")
            body = subst(subst(C0, [(old, entry)]), [(i, k)])
            rec, params = E.closure("lastw", [body], [k])
            ps = [p.sort() for p in params]
            hit = E.def_fn(rec.key + ".hit", [z3.IntSort()] + ps, z3.BoolSort(), "hook", lambda eng, x, a: lastw_axioms(eng, rec, a))
            E.def_fn(rec.key + ".who", [z3.IntSort()] + ps, z3.IntSort(), "hook", lambda eng, x, a: lastw_axioms(eng, rec, a))
            return T.ite_t(hit(at, *params), touched[0][1], entry)

        return cf
    for cs, l in touched:
        if not summ.is_free(l) or (old is not None and contains(l, old)):
            return None
    for cs, l in lv:
        for c in cs:
            if not summ.is_free(c) or (old is not None and contains(c, old)):
                return None
    if not touched:
        return lambda at, entry: entry
    C = z3.Or(*[z3.And(*cs) if cs else z3.BoolVal(True) for cs, l in touched]) if untouched else z3.BoolVal(True)
    V = touched[-1][1]
    for cs, l in reversed(touched[:-1]):
        V = z3.If(z3.And(*cs) if cs else z3.BoolVal(True), l, V)
    if not untouched:
        # every iteration overwrites: value from the previous iteration
        def cf(at, entry):
            prev = z3.simplify(at - 1)
            v = subst(V, [(i, prev)])
            if entry is None:
                return v
            return T.ite_t(z3.simplify(at > 0) if not E.must(at > 0) else True, v, entry)

        return cf
    if not mentions_const(C, i):
        def cf(at, entry):
            prev = z3.simplify(at - 1)
            return T.ite_t(z3.And(at > 0, C) if not E.must(at > 0) else C, subst(V, [(i, prev)]), entry)

        return cf
    # guard solvable for i in every touched leaf with the same solution
    sols = []
    for cs, l in touched:
        s = None
        for c in cs:
            for cj in _conjuncts(c):
                s = solve_eq(cj, i)
                if s is not None:
                    break
            if s is not None:
                break
        sols.append(s)
    if all(s is not None for s in sols) and all(s.eq(sols[0]) for s in sols):
        s = sols[0]

        def cf(at, entry):
            c = z3.simplify(subst(C, [(i, s)]))
            v = subst(V, [(i, s)])
            return T.ite_t(And(s >= 0, s < at, c), v, entry)

        return cf

    # general: the last iteration that writes
    def cf(at, entry):
        k = E.fresh_const("i", "lwk")
        body = subst(C, [(i, k)])
        rec, params = E.closure("lastw", [body], [k])
        I = z3.IntSort()
        ps = [p.sort() for p in params]
        info = dict(rec=rec)
        hit = E.def_fn(rec.key + ".hit", [I] + ps, z3.BoolSort(), "hook", lambda eng, x, a: lastw_axioms(eng, rec, a))
        who = E.def_fn(rec.key + ".who", [I] + ps, I, "hook", lambda eng, x, a: lastw_axioms(eng, rec, a))
        h, w = hit(at, *params), who(at, *params)
        return T.ite_t(h, subst(V, [(i, w)]), entry)

    return cf


def lastw_axioms(E, rec, a):
    at, params = a[0], a[1:]
    I = z3.IntSort()
    ps = [p.sort() for p in params]
    hit = z3.Function(rec.key + ".hit", I, *ps, z3.BoolSort())(*a)
    who = z3.Function(rec.key + ".who", I, *ps, I)(*a)
    j = z3.Int("?lw")
    bw = E.inst_body(rec, params, [who])[0]
    bj = E.inst_body(rec, params, [j])[0]
    return [
        z3.Implies(hit, z3.And(0 <= who, who < at, bw)),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < at, bj), z3.And(hit, who >= j))),
    ]


def or_delta(t, old):
    if t.eq(old):
        return z3.BoolVal(False)
    if z3.is_or(t):
        ch = t.children()
        hit = [j for j, c in enumerate(ch) if contains(c, old)]
        if len(hit) != 1:
            return None
        d = or_delta(ch[hit[0]], old)
        if d is None:
            return None
        return z3.Or(d, *[c for j, c in enumerate(ch) if j != hit[0]])
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if contains(c, old):
            return None
        da, db = or_delta(a, old), or_delta(b, old)
        if da is None or db is None:
            return None
        return z3.Or(z3.And(c, da), z3.And(z3.Not(c), db))
    return None


def comps(x, kind):
    """component terms of a scalar value of the given kind"""
    x = T.lift(x, kind)
    out = {"re": x.re}
    if kind == "c":
        out["im"] = x.im
    if kind in "fc":
        out["nan"] = T.zb(x.nan)
        if kind == "f":
            out["inf"] = T.zb(x.inf)
    return out


def uncomps(kind, d):
    def fl(t):
        t = z3.simplify(t) if isinstance(t, z3.ExprRef) else t
        if T.is_false(t):
            return False
        if T.is_true(t):
            return True
        return t
    return mk(kind, d["re"], d.get("im"), fl(d.get("nan", False)), fl(d.get("inf", False)))


class VarItem(Item):
    def __init__(self, summ, v, m, hv, pre):
        self.summ, self.v, self.m, self.hv, self.pre = summ, v, m, hv, pre
        self.kind = T.kind_of(m)
        if hv is not None:
            self.kind = T.kmax(self.kind, hv.kind)
        self.cf = {}

    def names(self):
        if self.hv is None:
            return []
        return [t.decl().name() for t in (self.hv.re, self.hv.im, self.hv.nan, self.hv.inf) if isinstance(t, z3.ExprRef)]

    def desc(self):
        return f"variable {self.v}"

    def optional(self):
        # only blocks if something downstream used it; keep the variable unbound after the loop
        self.summ.exit_vars[self.v] = Poison(self.v)
        return True

    def try_solve(self):
        s = self.summ
        new = comps(self.m, self.kind)
        old = comps(self.hv, self.kind) if self.hv is not None else {}
        for c, t in new.items():
            if c in self.cf:
                continue
            o = old.get(c)
            if o is not None and (z3.is_false(o) or z3.is_true(o)):
                o = None
            t2 = s.rewrite(t)
            allow = [o.decl().name()] if o is not None and o.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
            f = classify(s, t2, o, self.v, None)
            if f is None:
                return False
            if o is None and (s.unsolved(t2)):
                return False
            self.cf[c] = f
        # register closed forms
        if self.hv is not None:
            ent = comps(self.pre, self.kind)
            for c, o in old.items():
                if o.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s.solved[o.decl().name()] = (lambda f, e: lambda at, args: f(at, e))(self.cf[c], ent[c])
        return True

    def finish(self):
        s = self.summ
        pre = T.unwrap(self.pre) if self.pre is not UNBOUND else UNBOUND
        ent = comps(pre, self.kind) if isinstance(pre, S) or T.is_num(pre) else {}
        d = {}
        for c in comps(self.m, self.kind):
            d[c] = self.cf[c](s.n, ent.get(c))
        s.exit_vars[self.v] = uncomps(self.kind, d)


class AppendItem(Item):
    def __init__(self, summ, v, vals, pre):
        self.summ, self.v, self.pre = summ, v, list(pre)
        self.m = summ.merge_scalars(vals)
        self.kind = T.kind_of(self.m)

    def names(self):
        return []

    def desc(self):
        return f"list {self.v}"

    def try_solve(self):
        s = self.summ
        d = {c: s.rewrite(t) for c, t in comps(self.m, self.kind).items()}
        if any(s.unsolved(t) for t in d.values()):
            return False
        E = s.eng
        with E.scoped():
            E.assume(s.i >= 0)
            self.d = {c: E.fold_sum(t) if isinstance(t, z3.ExprRef) else t for c, t in d.items()}
        return True

    def finish(self):
        s = self.summ
        s.exit_vars[self.v] = SymList(self.pre, s.n, self.kind, lambda j: uncomps(self.kind, {c: subst(t, [(s.i, j)]) if isinstance(t, z3.ExprRef) else t for c, t in self.d.items()}))


class Poison:
    def __init__(self, v):
        self.v = v

    def _bad(self, *a, **k):
        raise Unsupported(f"variable {self.v} is loop-carried and needs an invariant")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __neg__ = __iter__ = __index__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


class BufItem(Item):
    def __init__(self, summ, bid):
        self.summ, self.bid = summ, bid
        E = summ.eng
        self.buf = E._bufs[bid]
        self.hv = summ.rec.paths[0]["hv"][bid]
        self.entry = self.buf.reader()
        self.kind = self.buf.kind
        self.readers = [p["readers"].get(bid, None) or self.hv.read for p in summ.rec.paths]

    def names(self):
        return [f.name() if isinstance(f, z3.FuncDeclRef) else f.decl().name() for f in self.hv.fns.values()]

    def desc(self):
        return f"array (kind {self.kind}, {len(self.buf.shape)}-d)"

    def term(self, comp, idx):
        """merged new value component at idx, iteration i"""
        s = self.summ
        E = s.eng
        with E.scoped():
            E.assume(s.i >= 0)
            E.assume(s.i < s.n)
            for k, d in zip(idx, self.buf.shape):
                if not z3.is_int_value(k):
                    E.pc.append(z3.And(k >= 0, k < zi(d)))
                    E.qs.add(z3.And(k >= 0, k < zi(d)))
            vs = [r(idx) for r in self.readers]
            m = s.merge_scalars([T.cast(v, self.kind) for v in vs])
            return s.rewrite(comps(m, self.kind)[comp])

    def old(self, comp, idx):
        if comp in self.hv.fns:
            return self.hv.app(comp, idx)
        return None

    def components(self):
        return ["re"] + (["im"] if self.kind == "c" else []) + (["nan"] if self.kind in "fc" else []) + (["inf"] if self.kind == "f" else [])

    def try_solve(self):
        s, E = self.summ, self.summ.eng
        ks = tuple(E.fresh_const("i", "sbk") for _ in self.buf.shape)
        allow = set(self.names())
        self.plan = {}
        for c in self.components():
            t = self.term(c, ks)
            o = self.old(c, ks)
            if s.unsolved(t, allow):
                return False
            # own reads at other coordinates: allowed only if provably untouched earlier
            t0 = t
            t0 = self.drop_hidden(t0, o, ks)
            t1 = unflat(t0, o)
            for t in [t0] if t1.eq(t0) else [t1, t0]:
                t = self.own_reads(self.align_reads(t, ks), ks, c)
                f = None if t is None else classify2(s, t, o, allow)
                if f is not None:
                    break
            else:
                return False
            self.plan[c] = (ks, t, o)
        for c in self.components():
            if c in self.hv.fns:
                fn = self.hv.fns[c]
                nm = fn.name() if isinstance(fn, z3.FuncDeclRef) else fn.decl().name()
                s.solved[nm] = (lambda c: lambda at, args: self.value(c, at, tuple(args)))(c)
        return True

    def drop_hidden(self, t, o, ks):
        """If(c, a, old) is a where not c implies a == old (x[w] = v under `if w.size` for w the positions of a condition on x)"""
        s, E = self.summ, self.summ.eng
        decls = set(self.names())
        if o is None or not z3.is_app_of(t, z3.Z3_OP_ITE) or z3.is_bool(t):
            return t
        c, a, b = t.children()
        own = [nm for nm in sym_names(E, c) if nm in decls]
        if own and b.eq(o) and not contains(c, o):
            with E.scoped():
                E.assume(s.i >= 0)
                E.assume(s.i < s.n)
                for k, d in zip(ks, self.buf.shape):
                    E.assume(z3.And(k >= 0, k < zi(d)))
                if E.prove(z3.Implies(z3.Not(c), a == o), [p for p in E.pc if small(p)], ms=2000)[0] == "unsat":
                    return self.drop_hidden(a, o, ks)
        return t

    def align_reads(self, t, ks):
        """under a guard that makes a coordinate equal to the written one, a read there is a read at the written coordinate
        (x[f(i)] += v: the new value at k is If(k == f(i), x[k] + v, x[k]))"""
        decls = set(self.names())

        def known_of(c):
            return [q for q in _conjuncts(c)]

        def same(args, known):
            for a, k in zip(args, ks):
                if a.eq(k) or any(z3.is_eq(q) and (q.arg(0).eq(a) and q.arg(1).eq(k) or q.arg(1).eq(a) and q.arg(0).eq(k)) for q in known):
                    continue
                sv = z3.Solver()
                sv.set("timeout", 200)
                sv.add(*known)
                sv.add(a != k)
                if sv.check() != z3.unsat:
                    return False
            return True

        def go(x, known):
            if not z3.is_app(x) or x.num_args() == 0:
                return x
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in decls:
                args = x.children()[: len(ks)]
                if not all(a.eq(k) for a, k in zip(args, ks)) and known and same(args, known):
                    return x.decl()(*ks, *x.children()[len(ks):])
                return x
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c, a, b = x.children()
                return z3.If(c, go(a, known + known_of(c)), go(b, known))
            ch = [go(y, known) for y in x.children()]
            if all(p.eq(q) for p, q in zip(ch, x.children())):
                return x
            return x.decl()(*ch)

        if not any(nm in decls for nm in sym_names(self.summ.eng, t)):
            return t
        return go(t, [])

    def own_reads(self, t, ks, comp):
        """replace reads of this buffer at other coordinates by the entry contents when no earlier
        iteration can have written them"""
        s, E = self.summ, self.summ.eng
        decls = set(self.names())
        reads = []
        stack, vis = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in vis:
                continue
            vis.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in decls:
                reads.append(x)
                continue
            stack.extend(x.children())
        own = self.old(comp, ks)
        others = [r for r in reads if own is None or not r.eq(own)]
        # reads hidden in closures
        hidden = [nm for nm in sym_names(E, t) if nm in decls] and not reads
        if hidden:
            return None
        if not others and own is None:
            return t
        # a read at own coordinates that is not an accumulation is handled by classify (fails) unless untouched earlier
        pairs = []
        for r in others + ([own] if own is not None and any(x.eq(own) for x in reads) else []):
            args = tuple(r.children())
            cname = [c for c in self.components() if c in self.hv.fns and (self.hv.fns[c].name() if isinstance(self.hv.fns[c], z3.FuncDeclRef) else self.hv.fns[c].decl().name()) == r.decl().name()][0]
            is_own = own is not None and r.eq(own)
            if is_own and not self.needs_own(t, own):
                continue
            # prove: for all j<i, iteration j leaves location args unchanged
            j = E.fresh_const("i", "prevj")
            tj = []
            for c in self.components():
                if c not in self.hv.fns:
                    continue
                u = self.term(c, args)
                o2 = self.old(c, args)
                un = u == o2
                tj.append(subst(un, [(s.i, j)]))
            # the location must not itself depend on j: args are terms of iteration i (keep), so rename inside writes only
            tj = []
            for c in self.components():
                if c not in self.hv.fns:
                    continue
                gk = tuple(E.fresh_const("i", "gk") for _ in self.buf.shape)
                u = self.term(c, gk)
                o2 = self.old(c, gk)
                g = subst(u == o2, [(s.i, j)])
                g = subst(g, list(zip(gk, args)))
                tj.append(g)
            with E.scoped():
                E.assume(s.i >= 0)
                E.assume(s.i < s.n)
                E.assume(j >= 0)
                E.assume(j < s.i)
                for k, d in zip(ks, self.buf.shape):
                    E.assume(z3.And(k >= 0, k < zi(d)))
                g = z3.And(*tj)
                # most often the loop bounds decide it: the facts that are small come first
                ok = E.prove(g, [p for p in E.pc if small(p)], ms=700, light=True)[0] == "unsat" or E.prove(g, E.pc, ms=2000)[0] == "unsat"
            if not ok:
                if is_own:
                    continue
                return None
            ent = comps(self.entry(args), self.kind)[cname]
            pairs.append((r, ent))
        if pairs:
            if own is not None:
                return self.guarded_subst(t, own, pairs)
            t = subst(t, pairs)
        return t

    def needs_own(self, t, own):
        """own value used other than as an untouched leaf / accumulator"""
        d = lin_delta(t, own) if not z3.is_bool(t) else or_delta(t, own)
        if d is not None and not contains(d, own):
            return False
        for cs, l in leaves(t):
            if any(contains(c, own) for c in cs):
                return True
            if not l.eq(own) and contains(l, own):
                return True
        return False

    def guarded_subst(self, t, own, pairs):
        """substitute in touched leaves only"""
        if t.eq(own):
            return t
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            return z3.If(subst(c, pairs), self.guarded_subst(a, own, pairs), self.guarded_subst(b, own, pairs))
        return subst(t, pairs)

    def value(self, comp, at, idx):
        s, E = self.summ, self.summ.eng
        ks, t, o = self.plan[comp]
        if any(mentions_const(x, s.i) for x in idx if isinstance(x, z3.ExprRef)):
            # the coordinates belong to one iteration: they must not be captured by the sums over all of them
            fz = E.fresh_const("i", "itc")
            with E.scoped():
                E.assume(fz == s.i)
                v = self.value(comp, at, tuple(subst(x, [(s.i, fz)]) for x in idx))
            return subst(v, [(fz, s.i)])
        # instantiate generic coordinates
        pairs = list(zip(ks, idx))
        t2, o2 = (subst(t, pairs), subst(o, pairs) if o is not None else None)
        f = classify2(s, t2, o2, set(self.names()))
        if f is None:
            f0 = classify2(s, t, o, set(self.names()))
            if f0 is None:
                raise Unsupported("loop summary")
            ent = comps(self.entry(ks), self.kind)[comp]
            return subst(f0(at, ent), pairs)
        ent = comps(self.entry(idx), self.kind)[comp]
        return f(at, ent)

    def finish(self):
        s = self.summ
        n = s.n
        entry = self.entry
        items = self.components()

        def fn(idx):
            return uncomps(self.kind, {c: self.value(c, n, idx) for c in items})

        s.exit_bufs[self.bid] = fn


def classify2(s, t, o, allow):
    saved = s.pending_names
    s.pending_names = {k: v for k, v in saved.items() if k not in allow}
    try:
        f = classify(s, t, o, None, None)
        if f is None and o is not None and z3.is_bool(t) and contains(t, o):
            # a guarded store of a truth value whose If was flattened to Or(A, And(Not(G), o)) with A implying G
            ga = strip_guard(t, o)
            if ga is not None:
                g, rest = ga
                with s.eng.scoped():
                    apart = s.eng.prove(z3.Implies(rest, g), s.eng.pc, ms=3000)[0] == "unsat"
                if apart:
                    f = classify(s, z3.If(g, rest, o), o, None, None)
        return f
    finally:
        s.pending_names = saved


def small(t, limit=40):
    n, st = 0, [t]
    while st:
        x = st.pop()
        n += 1
        if n > limit or z3.is_quantifier(x):
            return False
        st.extend(x.children())
    return True


def unflat(t, o):
    """Or(And(c, x), And(Not(c), y)) back to If(c, x, y); And(Not(c), y) to If(c, False, y) where only y mentions the old value"""
    if not z3.is_app(t) or t.num_args() == 0 or not z3.is_bool(t):
        return t
    if z3.is_or(t) and t.num_args() == 2 and all(z3.is_and(x) and x.num_args() == 2 for x in t.children()):
        (c, x), (d, y) = [p.children() for p in t.children()]
        if z3.is_not(d) and d.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(d):
            return T.ite_t(c, unflat(x, o), unflat(y, o))
    if z3.is_and(t) and t.num_args() == 2 and o is not None:
        c, y = t.children()
        if contains(y, o) and not contains(c, o):
            return z3.If(c.arg(0), z3.BoolVal(False), unflat(y, o)) if z3.is_not(c) else z3.If(c, unflat(y, o), z3.BoolVal(False))
    if z3.is_or(t) or z3.is_and(t):
        return t.decl()(*[unflat(x, o) for x in t.children()])
    return t


def strip_guard(t, o):
    """(G, A) of a term Or(A, And(Not(G), o))"""
    if not z3.is_or(t):
        return None
    ks = [x for x in t.children() if z3.is_and(x) and any(y.eq(o) for y in x.children())]
    if len(ks) != 1 or any(contains(x, o) for x in t.children() if not x.eq(ks[0])):
        return None
    rest = [x for x in t.children() if not x.eq(ks[0])]
    k = z3.And(*[y for y in ks[0].children() if not y.eq(o)])
    if contains(k, o):
        return None
    return z3.simplify(z3.Not(k)), z3.Or(*rest)


class ArrVarItem(Item):
    """array-valued variable rebound in the body"""

    def __init__(self, summ, v, outs, hv, pre):
        self.summ, self.v, self.outs, self.hv, self.pre = summ, v, outs, hv, pre
        self.shape = outs[0].shape
        k = "b"
        for o in outs:
            k = T.kmax(k, o.kind)
        self.kind = k
        self.readers = [o.reader() for o in outs]
        self.hvr = hv.reader() if hv is not None else None
        self.entry = pre.reader() if isinstance(pre, A.Arr) else None

    def names(self):
        if self.hv is None:
            return []
        idx = tuple(z3.IntVal(0) for _ in self.hv.shape)
        x = T.lift(self.hvr(idx))
        return [t.decl().name() for t in (x.re, x.im, x.nan, x.inf) if isinstance(t, z3.ExprRef)]

    def desc(self):
        return f"array variable {self.v}"

    def optional(self):
        self.summ.exit_vars[self.v] = Poison(self.v)
        return True

    def term(self, idx):
        s, E = self.summ, self.summ.eng
        with E.scoped():
            E.assume(s.i >= 0)
            E.assume(s.i < s.n)
            for k, d in zip(idx, self.shape):
                E.assume(z3.And(k >= 0, k < zi(d)))
            vs = [T.cast(r(idx), self.kind) for r in self.readers]
            m = s.merge_scalars(vs)
            return {c: s.rewrite(t) for c, t in comps(m, self.kind).items()}

    def try_solve(self):
        s, E = self.summ, self.summ.eng
        ks = tuple(E.fresh_const("i", "avk") for _ in self.shape)
        allow = set(self.names())
        new = self.term(ks)
        old = comps(self.hvr(ks), self.kind) if self.hvr is not None and self.hv.ndim == len(self.shape) else {}
        self.plan = {}
        for c, t in new.items():
            o = old.get(c)
            if o is not None and o.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                o = None
            if s.unsolved(t, allow):
                return False
            f = classify2(s, t, o, allow)
            if f is None:
                return False
            if any(nm in allow for nm in sym_names(E, t)) and not (o is not None and contains(t, o)):
                return False
            self.plan[c] = (ks, t, o)
        if self.hv is not None and self.entry is not None:
            for c, o in old.items():
                if o.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s.solved[o.decl().name()] = (lambda c: lambda at, args: self.value(c, at, tuple(args)))(c)
        return True

    def value(self, comp, at, idx):
        s = self.summ
        ks, t, o = self.plan[comp]
        f = classify2(s, t, o, set(self.names()))
        ent = comps(self.entry(ks), self.kind)[comp] if self.entry is not None else None
        return subst(f(at, ent), list(zip(ks, idx)))

    def finish(self):
        s = self.summ
        n = s.n
        items = list(self.plan)
        shape = []
        for d in self.shape:
            if isinstance(d, S) and mentions_const(d.re, s.i):
                d = mk("i", subst(d.re, [(s.i, z3.simplify(n - 1))]))
            shape.append(d)
        s.exit_vars[self.v] = A.Arr.new(self.kind, tuple(shape), lambda idx: uncomps(self.kind, {c: self.value(c, n, idx) for c in items}))
