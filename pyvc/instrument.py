"""Mechanical extraction of the verified text from /repo on every run.

The body of each function is the AST parsed from the file in /repo. The only rewriting is
  * decorators and annotations are dropped (numba's njit included: its contract is 'same as Python');
  * docstrings are dropped;
  * `for t in it: body [else]`  ->  `L = loop(..); while L.next(locals()): t = L.item(); body` plus
    re-binding of the names the loop assigns (so that the loop rule can havoc them).
Module globals are rebound: numpy -> the axiomatised shim, functions of PyFHD -> contract or body of the
callee, builtins -> shim of the few builtins that inspect values. Everything else is opaque: touching it
makes the function `Unsupported` (never silently ignored), except logging calls, which are no-ops."""
import ast
import builtins as _bi
import copy as _copy
import math as _math
import os
import z3
from . import terms as T
from . import arr as A
from . import npshim
from . import loops
from .terms import S, Unsupported

REPO = os.environ.get("PYVC_REPO", "/repo")


class NoneReturn:
    pass


# --------------------------------------------------------------------------- AST rewriting
class _Names(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self.add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def assigned(stmts, target=None):
    v = _Names()
    for s in stmts:
        v.visit(s)
    if target is not None:
        v.visit(target)
    return v.names


def appended(stmts):
    out = []
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name):
                out.append(x.func.value.id)
    return out


def _array_store(t):
    return isinstance(t, ast.Subscript) and not (isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str))


class Rewriter(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.nif = 0

    def visit_FunctionDef(self, node):
        node.decorator_list = []
        node.returns = None
        a = node.args
        self.locals = set(assigned(node.body)) | {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)

    def visit_If(self, node):
        """`if c: a[i] = v` (only stores into arrays, no else): may be executed once with the stores guarded by c
        instead of exploring two paths, when the contract asks for it"""
        ok = not node.orelse and all(isinstance(st, (ast.Assign, ast.AugAssign)) and all(_array_store(t) for t in getattr(st, "targets", [getattr(st, "target", None)])) for st in node.body)
        self.generic_visit(node)
        if not ok:
            return node
        k = self.nif
        self.nif += 1
        c, m = f"__C{k}", f"__M{k}"
        src = f"{c} = None\n{m} = __vc.guard({c})\nif {m} is None:\n    if {c}: pass\nelse:\n    with {m}: pass"
        out = ast.parse(src).body
        for o in out:
            for sub in ast.walk(o):
                if hasattr(sub, "lineno"):
                    sub.lineno = sub.end_lineno = node.lineno
                    sub.col_offset = sub.end_col_offset = 0
        out[0].value = node.test
        out[2].body[0].body = node.body
        out[2].orelse[0].body = _copy.deepcopy(node.body)
        return out

    def visit_For(self, node):
        lid = self.n
        self.n += 1
        names = assigned(node.body, node.target)
        self.generic_visit(node)
        L = f"__L{lid}"
        names += [n for n in appended(node.body) if n not in names and n in getattr(self, "locals", ())]
        src_restore = "\n".join(f"if {L}.has({n!r}): {n} = {L}.get({n!r})" for n in names) or "pass"

        def gen(src):
            out = ast.parse(src).body
            for o in out:
                for sub in ast.walk(o):
                    if hasattr(sub, "lineno"):
                        sub.lineno = sub.end_lineno = node.lineno
                        sub.col_offset = sub.end_col_offset = 0
            return out

        pre = gen(f"{L} = __vc.loop({lid}, {self.fname!r}, None, {tuple(names)!r}, locals())")
        pre[0].value.args[2] = node.iter
        loop = gen(f"while {L}.next(locals()):\n    pass")[0]
        tgt = gen(f"__t = {L}.item()")[0]
        tgt.targets = [node.target]
        loop.body = gen(src_restore) + [tgt] + node.body
        loop.orelse = node.orelse
        return pre + [loop] + gen(f"{L}.after(locals())\n" + src_restore)


class Opaque:
    """anything outside the verifier's reach"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Opaque(f"{self._n}.{a}")

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._n}")

    def _bad(self, *a, **k):
        raise Unsupported(f"use of {self._n}")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __getitem__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = __len__ = __index__ = __float__ = __int__ = _bad
    __enter__ = _bad

    def __exit__(self, *a):
        return False


class Logger:
    """logging is outside every contract: calls are no-ops"""

    def __init__(self):
        self.n = 0

    def _nop(self, *a, **k):
        return None

    info = warning = error = debug = critical = exception = log = _nop

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if hasattr(__import__("logging").Logger, a):
            return self._nop
        raise AttributeError(f"'Logger' object has no attribute '{a}'")


# --------------------------------------------------------------------------- builtins shim
def _unw(x):
    x = T.unwrap(x)
    if isinstance(x, A.Arr) and x.ndim == 0:
        return x.at()
    return x


def b_len(x):
    if isinstance(x, A.Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, loops.SymRange):
        return T.mk("i", x.n)
    return _bi.len(x)


def b_abs(x):
    return _bi.abs(x)


def _mm(tag, py):
    def f(*a, **k):
        if k:
            raise Unsupported(f"{tag} with key")
        if len(a) == 1:
            x = a[0]
            if isinstance(x, A.Arr):
                if x.ndim != 1:
                    raise ValueError("The truth value of an array with more than one element is ambiguous.")
                return getattr(npshim, tag)(x)
            a = list(x)
        a = [_unw(v) for v in a]
        if not any(isinstance(v, (S, A.Arr)) for v in a):
            return py(a)
        if any(isinstance(v, A.Arr) for v in a):
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        r = a[0]
        for v in a[1:]:
            c = T.lt_t(v, r) if tag == "min" else T.lt_t(r, v)
            r = T.site(c, v, r)
        return r

    return f


def b_sum(x, start=0):
    if isinstance(x, A.Arr):
        if x.ndim == 1:
            return npshim.sum(x) + start
        raise Unsupported("sum nd")
    r = start
    for v in x:
        r = r + v
    return r


def b_any(x):
    if isinstance(x, A.Arr):
        return npshim.any(x)
    return _bi.any(_bi.bool(v) for v in x)


def b_all(x):
    if isinstance(x, A.Arr):
        return npshim.all(x)
    return _bi.all(_bi.bool(v) for v in x)


def b_round(x, n=None):
    x = _unw(x)
    if not isinstance(x, S):
        return _bi.round(x) if n is None else _bi.round(x, n)
    if n is not None:
        raise Unsupported("round(x, n)")
    return T.trunc_int(npshim._rnd(x))


def b_enumerate(x, start=0):
    sr = loops.to_sym(x)
    if sr is None:
        return _bi.enumerate(x, start)
    return loops.SymRange(sr.n, lambda k: (T.mk("i", T._add(T.zi(start), k)), sr.item(k)), "enumerate")


def b_zip(*xs, **k):
    srs = [loops.to_sym(x) for x in xs]
    if all(s is None for s in srs):
        return _bi.zip(*xs)
    if any(s is None for s in srs):
        raise Unsupported("zip of symbolic and concrete iterables")
    n = srs[0].n
    for s in srs[1:]:
        if not T.ENG.must(s.n == n):
            raise Unsupported("zip of iterables of possibly different length")
    return loops.SymRange(n, lambda k: tuple(s.item(k) for s in srs), "zip")


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return _bi.any(b_isinstance(x, u) for u in t)
    if isinstance(t, npshim.TypeProxy):
        x0 = T.unwrap(x)
        if isinstance(x0, S):
            return x0.kind == t.kind
        return _bi.isinstance(x0, t.py)
    if isinstance(t, npshim.ScalarType):
        if isinstance(x, S):
            if t.name in ("number", "generic"):
                return True
            return x.kind == t.kind
        return False
    if isinstance(t, Opaque):
        if isinstance(x, (S, A.Arr, int, float, str, dict, list, tuple, type(None))):
            return False
        raise Unsupported(f"isinstance with {t._n}")
    if t is A.Arr:
        return _bi.isinstance(x, (A.Arr, npshim.ObjArr))
    return _bi.isinstance(x, t)


def b_list(x=()):
    return list(x)


def b_sorted(x, **k):
    x = list(x)
    if any(isinstance(v, (S, A.Arr)) for v in x):
        raise Unsupported("sorted of symbolic values")
    return sorted(x, **k)


def b_type(x):
    if isinstance(x, (S,)):
        return {"i": INT, "f": FLOAT, "b": BOOL, "c": COMPLEX}[x.kind]
    if isinstance(x, A.Arr):
        return A.Arr
    return {int: INT, float: FLOAT, bool: BOOL, complex: COMPLEX}.get(type(x), type(x))


INT = npshim.TypeProxy(int, "i")
FLOAT = npshim.TypeProxy(float, "f")
BOOL = npshim.TypeProxy(bool, "b")
COMPLEX = npshim.TypeProxy(complex, "c")


def make_builtins():
    d = dict(vars(_bi))
    d.update(
        len=b_len, abs=b_abs, min=_mm("min", _bi.min), max=_mm("max", _bi.max), sum=b_sum, any=b_any, all=b_all, round=b_round,
        range=loops.sym_range, enumerate=b_enumerate, zip=b_zip, isinstance=b_isinstance, sorted=b_sorted, type=b_type,
        int=INT, float=FLOAT, bool=BOOL, complex=COMPLEX, print=lambda *a, **k: None,
        open=Opaque("open"), input=Opaque("input"), exec=Opaque("exec"), eval=Opaque("eval"), __import__=_no_import,
    )
    return d


def _no_import(name, *a, **k):
    raise Unsupported(f"import {name} inside a function")


class SysShim:
    def exit(self, code=0):
        raise SystemExit(code)

    def __getattr__(self, a):
        return Opaque("sys." + a)


class MathShim:
    pi = None

    def __getattr__(self, a):
        if a == "pi":
            return S("f", T.ENG.pi)
        f = getattr(_math, a)
        if not callable(f):
            return f

        def g(*args):
            args = [_unw(x) for x in args]
            if not any(isinstance(x, (S, A.Arr)) for x in args):
                return f(*args)
            m = {"floor": lambda x: T.trunc_int(npshim._floor(x)), "ceil": lambda x: T.trunc_int(npshim._ceil(x)), "sqrt": npshim.sqrt, "sin": npshim.sin, "cos": npshim.cos, "exp": npshim.exp}.get(a)
            if m is None:
                raise Unsupported(f"math.{a}")
            return m(*args)

        return g


class CopyShim:
    deepcopy = staticmethod(_copy.deepcopy)
    copy = staticmethod(_copy.copy)


# --------------------------------------------------------------------------- modules of the repository
class ModSrc:
    def __init__(self, prog, name):
        self.name = name
        self.path = os.path.join(REPO, *name.split(".")) + ".py"
        with open(self.path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}
        self.prog = prog
        self.compiled = {}
        self.globals = {"__builtins__": prog.builtins, "__vc": prog, "__name__": name}
        for st in self.tree.body:
            self.top(st)

    def top(self, st):
        g = self.globals
        if isinstance(st, ast.Import):
            for al in st.names:
                key = al.asname or al.name.split(".")[0]
                g[key] = self.prog.external(al.name if al.asname else al.name.split(".")[0], None)
        elif isinstance(st, ast.ImportFrom):
            for al in st.names:
                g[al.asname or al.name] = self.prog.external(st.module, al.name)
        elif isinstance(st, ast.FunctionDef):
            g[st.name] = self.prog.ref(self.name, st.name)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            try:
                code = compile(ast.Module([st], []), self.path, "exec")
                exec(code, g)
            except Exception:
                for t in getattr(st, "targets", [getattr(st, "target", None)]):
                    if isinstance(t, ast.Name):
                        g[t.id] = Opaque(t.id)

    def function(self, fname):
        f = self.compiled.get(fname)
        if f is None:
            if fname not in self.funcs:
                raise MissingFunction(f"{self.name}:{fname}")
            node = _copy.deepcopy(self.funcs[fname])
            node = Rewriter(f"{self.name}:{fname}").visit(node)
            m = ast.Module([node], [])
            ast.fix_missing_locations(m)
            loc = {}
            g = self.globals
            saved = g.get(fname)
            exec(compile(m, self.path, "exec"), g)
            f = g[fname]
            g[fname] = saved
            self.compiled[fname] = f
        return f

    def source(self, fname):
        n = self.funcs[fname]
        return "\n".join(self.src.splitlines()[n.lineno - 1: n.end_lineno])


class MissingFunction(Exception):
    pass


class FnRef:
    """a function of the repository as seen by its callers"""

    def __init__(self, prog, mod, fname):
        self.prog, self.mod, self.fname = prog, mod, fname
        self.__name__ = fname

    def __call__(self, *a, **k):
        return self.prog.call(self.mod, self.fname, a, k)

    @property
    def py_func(self):
        return self


class Program:
    def __init__(self, eng):
        self.eng = eng
        self.builtins = make_builtins()
        self.mods = {}
        self.models = {}  # "mod:fn" -> callable(prog, *args) applied at call sites instead of the body
        self.used = set()  # functions whose body was executed
        self.used_models = set()
        self.depth = 0
        self.ext = {}

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = ModSrc(self, name)
        return self.mods[name]

    def ref(self, mod, fname):
        return FnRef(self, mod, fname)

    def external(self, mod, name):
        full = mod + ("." + name if name else "")
        if full in self.ext:
            return self.ext[full]
        if mod.startswith("PyFHD"):
            if name is None:
                return Opaque(mod)
            try:
                m = ModSrc.__new__(ModSrc)
                p = os.path.join(REPO, *mod.split(".")) + ".py"
                if os.path.exists(p):
                    return self.ref(mod, name)
            except Exception:
                pass
            return Opaque(full)
        if full == "numpy":
            return npshim.np
        if mod == "numpy" and name:
            try:
                return getattr(npshim.np, name)
            except Unsupported:
                return Opaque(full)
        if full == "math":
            return MathShim()
        if mod == "math":
            return getattr(MathShim(), name) if name != "pi" else Opaque("math.pi")
        if full == "copy":
            return CopyShim()
        if mod == "copy":
            return getattr(CopyShim, name)
        if full == "sys":
            return SysShim()
        if full == "logging":
            return LoggingShim()
        return Opaque(full)

    # protocol for instrumented code
    def guard(self, c):
        E = self.eng
        if not getattr(E, "merge_ifs", False):
            return None
        c = _unw(c)
        if not isinstance(c, S):
            return None
        t = T.truth(c)
        if T.is_true(t) or T.is_false(t) or E.must(t) or E.must(z3.Not(t)):
            return None
        return E.guarded(t)

    def loop(self, lid, fn, iterable, names, loc):
        return loops.Loop(self.eng, lid, fn, iterable, names, loc)

    def call(self, mod, fname, a, k):
        key = f"{mod}:{fname}"
        m = self.models.get(key)
        if m is not None and self.depth > 0:
            self.used_models.add(key)
            return m(self, *a, **k)
        return self.run(mod, fname, a, k)

    def run(self, mod, fname, a, k):
        key = f"{mod}:{fname}"
        ms = self.module(mod)
        if fname not in ms.funcs:
            if fname in ms.globals and isinstance(ms.globals[fname], FnRef):
                return ms.globals[fname](*a, **k)
            raise ImportError(f"cannot import name {fname!r} from {mod!r}")
        f = ms.function(fname)
        self.used.add(key)
        if self.depth > 25:
            raise Unsupported("recursion")
        self.depth += 1
        n = len(self.eng.loop_stack)
        try:
            r = f(*a, **k)
        finally:
            self.depth -= 1
        if len(self.eng.loop_stack) != n:
            raise Unsupported("return from inside a summarised loop")
        return r


class LoggingShim:
    Logger = Logger

    def __getattr__(self, a):
        return Opaque("logging." + a)
