"""numpy as seen by verified code: each primitive is a trusted axiomatisation over symbolic arrays.
The same primitives are cross-checked against the installed numpy on concrete inputs (conformance.py)."""
import z3
import numpy as _np
from . import terms as T
from . import arr as A
from .arr import Arr, as_arr, emap, bshape, prod, mkdim, reshape as _reshape
from .terms import S, Unsupported, And, Or, Not, zi, mk

pi = None  # set through __getattr__


# ---------------------------------------------------------------------------- dtypes
class DT:
    _names = {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}

    def __init__(self, kind, name=None):
        self.kind_ = kind
        self.name = name or self._names[kind]

    @property
    def kind(self):
        return self.kind_

    @property
    def char(self):
        return {"b": "?", "i": "l", "f": "d", "c": "D"}[self.kind_]

    @property
    def type(self):
        return self

    def __eq__(self, o):
        try:
            return dtype_kind(o) == self.kind_
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind_)

    def __repr__(self):
        return f"dtype({self.name})"


class ScalarType:
    """np.float64 and friends: callable casts, usable as dtype"""

    def __init__(self, name, kind, abstract=False):
        self.name, self.kind, self.abstract = name, kind, abstract

    def __call__(self, x=0):
        if self.abstract:
            raise TypeError(f"cannot create '{self.name}' instances")
        if isinstance(x, Arr):
            return x.astype(self)
        if isinstance(x, (list, tuple)):
            return as_arr(x).astype(self)
        if isinstance(x, str):
            raise Unsupported("scalar from string")
        return T.cast(T.unwrap(x), self.kind)

    def __repr__(self):
        return "np." + self.name

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self


def dtype_kind(d):
    if isinstance(d, DT):
        return d.kind_
    if isinstance(d, ScalarType):
        if d.abstract and d.kind is None:
            raise Unsupported("abstract dtype")
        if d.abstract:
            raise TypeError(f"Converting `np.{d.name}` to a dtype not allowed")
        return d.kind
    if isinstance(d, TypeProxy):
        return d.kind
    if d is int:
        return "i"
    if d is float:
        return "f"
    if d is bool:
        return "b"
    if d is complex:
        return "c"
    if isinstance(d, str):
        return {"float64": "f", "float32": "f", "int64": "i", "int32": "i", "int": "i", "float": "f", "complex128": "c", "complex64": "c", "complex": "c", "bool": "b", "i": "i", "f": "f"}[d]
    raise Unsupported(f"dtype {d!r}")


class TypeProxy:
    """builtin int/float/bool/complex inside verified code: conversion, dtype and isinstance target"""

    def __init__(self, py, kind):
        self.py, self.kind = py, kind
        self.__name__ = py.__name__

    def __call__(self, x=0, *a):
        if isinstance(x, str) or a:
            return self.py(x, *a)
        if isinstance(x, Arr):
            if x.ndim > 0:
                T.ENG.require(zi(x.size) == 1, f"{self.py.__name__}() of a size-1 array", exc=TypeError)
                if x.ndim > 0:
                    raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            x = x.at()
        x = T.unwrap(x)
        if not isinstance(x, S):
            return self.py(x)
        if self.kind in "if" and x.kind == "c":
            raise TypeError(f"{self.py.__name__}() argument must be a string or a real number, not 'complex'")
        return T.cast(x, self.kind)

    def __eq__(self, o):
        return o is self or o is self.py

    def __hash__(self):
        return hash(self.py)

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __repr__(self):
        return repr(self.py)


float64 = ScalarType("float64", "f")
float32 = ScalarType("float32", "f")
float16 = ScalarType("float16", "f")
double = ScalarType("float64", "f")
int64 = ScalarType("int64", "i")
int32 = ScalarType("int32", "i")
int16 = ScalarType("int16", "i")
int8 = ScalarType("int8", "i")
uint8 = ScalarType("uint8", "i")
intp = ScalarType("int64", "i")
int_ = ScalarType("int64", "i")
complex128 = ScalarType("complex128", "c")
complex64 = ScalarType("complex64", "c")
cdouble = ScalarType("complex128", "c")
bool_ = ScalarType("bool", "b")
integer = ScalarType("integer", "i", True)
floating = ScalarType("floating", "f", True)
complexfloating = ScalarType("complexfloating", "c", True)
number = ScalarType("number", None, True)
generic = ScalarType("generic", None, True)
str_ = ScalarType("str_", "s", True)
bytes_ = ScalarType("bytes_", "s", True)
byte = ScalarType("byte", "i")
ndarray = Arr
newaxis = None
nan = float("nan")
inf = float("inf")
dtype = dtype_kind


def issubdtype(d, c):
    k = dtype_kind(d) if not isinstance(d, str) else d
    if c is integer:
        return k == "i"
    if c is floating:
        return k == "f"
    if c is complexfloating:
        return k == "c"
    if c is number:
        return k in "ifc"
    return k == dtype_kind(c)


def _shape(s):
    if isinstance(s, Arr):
        if s.ndim == 0:
            s = s.at()
        else:
            s = list(s)
    if isinstance(s, (tuple, list)):
        out = []
        for d in s:
            d = T.unwrap(d)
            if isinstance(d, Arr):
                d = d.at() if d.ndim == 0 else _bad_dim()
            if isinstance(d, float) or (isinstance(d, S) and d.kind in "fc"):
                raise TypeError("'float' object cannot be interpreted as an integer")
            if isinstance(d, S):
                if not T.ENG.must(d.re >= 0):
                    T.ENG.require(d.re >= 0, "array dimension is non-negative", exc=ValueError)
            elif d < 0:
                raise ValueError("negative dimensions are not allowed")
            out.append(d)
        return tuple(out)
    return _shape((s,))


def _bad_dim():
    raise TypeError("only integer scalar arrays can be converted to a scalar index")


# ---------------------------------------------------------------------------- creation
def full(shape, v, dtype=None):
    shape = _shape(shape)
    if isinstance(v, Arr) and v.ndim > 0:
        a = empty(shape, dtype or v.dtype)
        A.assign(a, v)
        return a
    if isinstance(v, Arr):
        v = v.at()
    v = T.unwrap(v)
    k = T.kind_of(v) if dtype is None else dtype_kind(dtype)
    v = T.cast(v, k)
    return Arr.new(k, shape, lambda idx: v)


def zeros(shape, dtype=float64, order="C"):
    k = dtype_kind(dtype)
    z = {"b": False, "i": 0, "f": 0.0, "c": 0j}[k]
    return Arr.new(k, _shape(shape), lambda idx: z)


def ones(shape, dtype=float64, order="C"):
    k = dtype_kind(dtype)
    z = {"b": True, "i": 1, "f": 1.0, "c": 1 + 0j}[k]
    return Arr.new(k, _shape(shape), lambda idx: z)


def empty(shape, dtype=float64, order="C"):
    if dtype is object:
        return ObjArr(_shape(shape))
    k = dtype_kind(dtype)
    sh = _shape(shape)
    rd = T.ENG.fresh_value(k, "uninit", sh)
    return Arr.new(k, sh, rd)


def zeros_like(a, dtype=None):
    a = as_arr(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = as_arr(a)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = as_arr(a)
    return empty(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = as_arr(a)
    return full(a.shape, v, dtype or a.dtype)


def array(x, dtype=None, copy=True, **kw):
    if dtype is object:
        return ObjArr.from_list(x)
    if isinstance(x, ObjArr):
        return x
    try:
        a = as_arr(x)
    except Unsupported:
        if isinstance(x, (list, tuple)):
            return ObjArr.from_list(x)
        raise
    a = a.frozen()
    if dtype is not None:
        a = a.astype(dtype)
    return a


def asarray(x, dtype=None):
    a = as_arr(x)
    if dtype is not None and dtype_kind(dtype) != a.kind:
        a = a.astype(dtype)
    return a


def copy(x):
    return as_arr(x).frozen()


class ObjArr:
    """one-dimensional object array of concrete length"""

    def __init__(self, shape):
        if len(shape) != 1 or not isinstance(shape[0], int):
            raise Unsupported("object array")
        self.items = [None] * shape[0]
        self.shape = shape
        self.ndim = 1

    @staticmethod
    def from_list(x):
        x = list(x)
        o = ObjArr((len(x),))
        o.items = x
        return o

    @property
    def size(self):
        return len(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return self.items[k]

    def __setitem__(self, k, v):
        self.items[k] = v

    def __iter__(self):
        return iter(self.items)


def arange(*args, dtype=None):
    args = [T.unwrap(a) for a in args]
    args = [a.at() if isinstance(a, Arr) and a.ndim == 0 else a for a in args]
    start, step = 0, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    for a in (start, stop, step):
        if isinstance(a, Arr):
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    k = "i"
    for a in (start, stop, step):
        k = T.kmax(k, T.kind_of(a))
    if k == "c":
        raise Unsupported("complex arange")
    E = T.ENG
    if k == "i":
        st, sp, stp = zi(start), zi(stop), zi(step)
        d = T._sub(sp, st)
        if T.num_val(stp) == 1:
            n = d
        elif E.must(stp > 0):
            n = T.idiv(T._sub(T._add(d, stp), z3.IntVal(1)), stp)
        elif T.num_val(stp) is not None and T.num_val(stp) < 0:
            n = T.idiv(T._sub(T._sub(T._neg(d), stp), z3.IntVal(1)), T._neg(stp))
        else:
            E.require(stp != 0, "arange step non-zero", exc=ZeroDivisionError)
            if E.branch(stp > 0):
                n = T.idiv(T._sub(T._add(d, stp), z3.IntVal(1)), stp)
            else:
                n = z3.If(d < 0, (-d - stp - 1) / (-stp), z3.IntVal(0))
        v = T.num_val(n)
        if v is not None:
            n = z3.IntVal(v if v > 0 else 0)
        elif not E.must(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        inverse = None
        if T.num_val(stp) == 1:
            nn = n

            def inverse(x):
                kx = T._sub(x, st)
                return And(A._cmp(kx, z3.IntVal(0), ">="), A._cmp(kx, nn, "<")), kx

        a = Arr.new("i", (mkdim(n),), lambda idx: mk("i", T._add(st, T._mul(stp, idx[0]))), inverse=inverse)
        if T.num_val(stp) == 1:
            a.meta = {"range": (st, T._add(st, n))}
        if dtype is not None and dtype_kind(dtype) != "i":
            a = a.astype(dtype)
        return a
    st, sp, stp = (T.lift(x, "f") for x in (start, stop, step))
    q = T.sdiv(T.binop("-", sp, st) if isinstance(T.binop("-", sp, st), S) else T.lift(T.binop("-", sp, st)), stp)
    if not (T.is_false(q.nan) and T.is_false(q.inf)):
        E.require(T.finite(q), "arange length finite", exc=ValueError)
    n = T._neg(T.floor_t(T._neg(q.re)))
    v = T.num_val(n)
    if v is not None:
        n = z3.IntVal(v if v > 0 else 0)
    elif not E.must(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    return Arr.new("f", (mkdim(n),), lambda idx: T.binop("+", st, T.binop("*", stp, mk("i", idx[0]))))


def linspace(a, b, num=50, **kw):
    if kw:
        raise Unsupported("linspace options")
    n = zi(num)
    step = T.binop("/", T.binop("-", T.lift(b, "f"), T.lift(a, "f")), T.binop("-", mkdim(n), 1))
    return Arr.new("f", (mkdim(n),), lambda idx: T.binop("+", T.lift(a, "f"), T.binop("*", step, mk("i", idx[0]))))


def identity(n, dtype=float64):
    k = dtype_kind(dtype)
    return Arr.new(k, (n, n), lambda idx: T.site(A.eq_ix(idx[0], idx[1]), T.cast(1, k), T.cast(0, k)))


eye = identity


# ---------------------------------------------------------------------------- element-wise
def _u1(f, kindmap=None):
    def g(x, out=None, where=None, **kw):
        if kw or where is not None or out is not None:
            raise Unsupported("ufunc options")
        a = as_arr(x) if not isinstance(x, Arr) else x
        k = kindmap(a.kind) if kindmap else None
        r = emap(f, a, kind=k)
        return r

    return g


def _fk(k):
    return "f" if k in "bi" else k


abs = absolute = _u1(T.sabs, lambda k: "f" if k == "c" else k)
conj = conjugate = _u1(T.sconj, lambda k: k)
negative = _u1(T.sneg, lambda k: k)


def real(x):
    return x.real if isinstance(x, Arr) else T.sreal(x)


def imag(x):
    return x.imag if isinstance(x, Arr) else T.simag(x)


def _floor(x):
    x = T.unwrap(x)
    if T.kind_of(x) in "bi":
        return x
    if not isinstance(x, S):
        import math

        return float(math.floor(x))
    return S("f", T.to_real_s(T.floor_t(x.re)), None, x.nan, x.inf)


def _ceil(x):
    x = T.unwrap(x)
    if T.kind_of(x) in "bi":
        return x
    if not isinstance(x, S):
        import math

        return float(math.ceil(x))
    return S("f", T.to_real_s(T._neg(T.floor_t(T._neg(x.re)))), None, x.nan, x.inf)


def _fix(x):
    x = T.unwrap(x)
    if T.kind_of(x) in "bi":
        return x
    if not isinstance(x, S):
        import math

        return float(math.trunc(x))
    if T.ENG.must(x.re >= 0):
        return _floor(x)
    return T.site(x.re >= 0, _floor(x), _ceil(x))


floor = _u1(_floor, lambda k: k)
ceil = _u1(_ceil, lambda k: k)
fix = _u1(_fix, lambda k: k)
trunc = fix


def _rnd(x):
    """round half to even"""
    x = T.unwrap(x)
    if T.kind_of(x) in "bi":
        return x
    if not isinstance(x, S):
        return float(_np.round(x))
    t = x.re
    fl = T.floor_t(t)
    d = t - T.to_real_s(fl)
    half = z3.RealVal("1/2")
    r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return S("f", z3.ToReal(r), None, x.nan, x.inf)


def round(x, decimals=0):
    if decimals != 0:
        raise Unsupported("round decimals")
    a = as_arr(x)
    return emap(_rnd, a, kind=a.kind)


rint = around = round

sqrt = _u1(lambda x: _csqrt(x), lambda k: _fk(k))


def _csqrt(x):
    x = T.unwrap(x)
    if T.kind_of(x) == "c":
        return T.ENG.ufun("csqrt", [T.lift(x)], "c")
    return T.ENG.fn_sqrt(x)


def _un(name):
    def f(x):
        x = T.unwrap(x)
        if T.kind_of(x) == "c":
            if name == "exp":
                x = T.lift(x)
                e = T.ENG.ufun("exp", [S("f", x.re)], "f")
                if T.num_val(x.re) == 0:
                    e = 1.0
                c = T.ENG.ufun("cos", [S("f", x.im)], "f")
                s = T.ENG.ufun("sin", [S("f", x.im)], "f")
                re, im = T.binop("*", e, c), T.binop("*", e, s)
                re, im = T.lift(re, "f"), T.lift(im, "f")
                return S("c", re.re, im.re, x.nan)
            raise Unsupported("complex " + name)
        return T.ENG.ufun(name, [norm_arg(T.lift(x, "f"))], "f")

    return _u1(f, lambda k: _fk(k))


def norm_arg(x):
    return S("f", z3.simplify(x.re, som=True), None, x.nan, x.inf)


sin, cos, tan, exp = _un("sin"), _un("cos"), _un("tan"), _un("exp")
log, log10, arctan, arccos, arcsin = _un("log"), _un("log10"), _un("arctan"), _un("arccos"), _un("arcsin")


def arctan2(y, x):
    return emap(lambda a, b: T.ENG.ufun("arctan2", [norm_arg(T.lift(a, "f")), norm_arg(T.lift(b, "f"))], "f"), y, x, kind="f")


def angle(z, deg=False):
    r = arctan2(imag(z), real(z))
    return degrees(r) if deg else r


def _radians1(a):
    a = T.lift(a, "f")
    h = T.ENG.deg_of.get(a.re.get_id())
    if h is not None and h[0].eq(a.re) and h[1].nan is a.nan:
        return h[1]
    return T.binop("*", a, T.binop("/", S("f", T.ENG.pi), 180))


def _degrees1(a):
    a = T.lift(a, "f")
    r = T.binop("*", a, T.binop("/", 180, S("f", T.ENG.pi)))
    T.ENG.deg_of[r.re.get_id()] = (r.re, a)
    return r


def radians(x):
    return emap(_radians1, x, kind="f")


deg2rad = radians


def degrees(x):
    return emap(_degrees1, x, kind="f")


rad2deg = degrees


def _isnan(x):
    x = T.unwrap(x)
    if not isinstance(x, S):
        return x != x
    return T.wrapb(x.nan)


def _isinf(x):
    x = T.unwrap(x)
    if not isinstance(x, S):
        import cmath

        return cmath.isinf(x)
    return T.wrapb(x.inf)


isnan = _u1(_isnan, lambda k: "b")
isinf = _u1(_isinf, lambda k: "b")
isfinite = _u1(lambda x: T.wrapb(T.finite(x)), lambda k: "b")


def nan_to_num(x, copy=True, nan=0.0, **kw):
    if kw or not copy:
        raise Unsupported("nan_to_num options")
    a = as_arr(x)

    def f(v):
        if not isinstance(v, S):
            return v if v == v else nan
        if not T.is_false(v.inf):
            raise Unsupported("nan_to_num of possibly infinite values")
        if v.kind == "c":
            return T.site(v.nan, complex(nan), S("c", v.re, v.im))
        return T.site(v.nan, nan, S(v.kind, v.re, v.im))

    return emap(f, a, kind=a.kind)


def _max2(a, b):
    if isinstance(a, S) or isinstance(b, S):
        r = T.site(T.lt_t(a, b), b, a)
        return r
    return a if not (a < b) else b


def _min2(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return T.site(T.lt_t(b, a), b, a)
    return b if b < a else a


def _nanprop(f):
    def g(a, b):
        r = f(a, b)
        la, lb = T.lift(a), T.lift(b)
        if T.is_false(la.nan) and T.is_false(lb.nan):
            return r
        r = T.lift(r, "f")
        return S(r.kind, r.re, r.im, Or(la.nan, lb.nan), r.inf)

    return g


def maximum(a, b):
    k = T.kmax(as_arr(a).kind, as_arr(b).kind)
    return emap(_nanprop(_max2), a, b, kind=k)


def minimum(a, b):
    k = T.kmax(as_arr(a).kind, as_arr(b).kind)
    return emap(_nanprop(_min2), a, b, kind=k)


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _bin(op):
    return lambda a, b: A.binop(op, a, b)


add, subtract, multiply, divide, true_divide = _bin("+"), _bin("-"), _bin("*"), _bin("/"), _bin("/")
power, mod, remainder, floor_divide = _bin("**"), _bin("%"), _bin("%"), _bin("//")
equal, not_equal, less, less_equal, greater, greater_equal = _bin("=="), _bin("!="), _bin("<"), _bin("<="), _bin(">"), _bin(">=")
bitwise_and, bitwise_or = _bin("&"), _bin("|")


def logical_and(a, b):
    return emap(lambda x, y: T.wrapb(And(T.truth(x), T.truth(y))), a, b, kind="b")


def logical_or(a, b):
    return emap(lambda x, y: T.wrapb(Or(T.truth(x), T.truth(y))), a, b, kind="b")


def logical_not(a):
    return emap(lambda x: T.wrapb(Not(T.truth(x))), a, kind="b")


def sign(x):
    return emap(lambda v: T.site(T.lt_t(0, v), 1, T.site(T.lt_t(v, 0), -1, 0)), x, kind=as_arr(x).kind)


square = _u1(lambda x: T.binop("*", x, x), lambda k: k)


def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    c = as_arr(c)
    k = T.kmax(as_arr(a).kind, as_arr(b).kind)
    return emap(lambda x, y, z: T.site(T.truth(x), T.cast(y, k), T.cast(z, k)), c, a, b, kind=k)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    raise Unsupported("isclose")


def iscomplexobj(x):
    return as_arr(x).kind == "c"


def isscalar(x):
    return isinstance(x, (S, int, float, complex, str))


# ---------------------------------------------------------------------------- nonzero
def nonzero(m):
    m = as_arr(m)
    if m.ndim == 0:
        raise ValueError("Calling nonzero on 0d arrays is not allowed.")
    rd = m.reader()
    E = T.ENG
    mask = lambda idx: T.wrapb(T.truth(rd(idx)))
    if builtin_all(isinstance(d, int) for d in m.shape) and prod(m.shape) <= 16:
        # concrete-size masks: try to enumerate
        import itertools

        pos = []
        ok = True
        for idx in itertools.product(*[range(d) for d in m.shape]):
            t = T.truth(mask(tuple(z3.IntVal(i) for i in idx)))
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
                elif E.must(t):
                    t = True
                elif E.must(Not(t)):
                    t = False
                else:
                    ok = False
                    break
            if t:
                pos.append(idx)
        if ok:
            if not pos:
                return tuple(Arr.new("i", (0,), lambda idx: 0) for _ in m.shape)
            return tuple(A.from_list([p[j] for p in pos]) for j in range(m.ndim))
    nz = E.nonzero_of(m.shape, mask)
    n = mkdim(nz.cnt)
    E.assume(nz.cnt >= 0)
    out = []
    for j in range(m.ndim):
        a = Arr.new("i", (n,), (lambda j: lambda idx: mk("i", nz.at(idx[0])[j]))(j), inverse=(lambda v: (nz.inverse((v,))[0], nz.inverse((v,))[1])) if m.ndim == 1 else None)
        a.meta = {"nz": nz, "axis": j, "range": (z3.IntVal(0), zi(m.shape[j]))}
        out.append(a)
    return tuple(out)


builtin_all = all


def flatnonzero(m):
    return nonzero(as_arr(m).ravel())[0]


def count_nonzero(m, axis=None):
    m = as_arr(m)
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    if m.ndim == 0:
        return T.site(T.truth(m.at()), 1, 0)
    nz = nonzero(m)
    n = nz[0].shape[0]
    if m.ndim == 1 and isinstance(n, S):
        # the number of places is the sum of the indicator
        rd = m.reader()
        T.ENG.assume(zi(n) == zi(sum(A.Arr.new("i", m.shape, lambda idx: T.site(T.truth(rd(idx)), 1, 0)))))
    return n


def argwhere(m):
    raise Unsupported("argwhere")


# ---------------------------------------------------------------------------- reductions
def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(x % a.ndim for x in axis))
    if axis >= a.ndim or axis < -a.ndim:
        raise _np.exceptions.AxisError(axis, a.ndim)
    return (axis % a.ndim,)


def _red_shape(a, axes, keepdims):
    return tuple((1 if x in axes else a.shape[x]) for x in range(a.ndim) if keepdims or x not in axes)


def _red(a, axes, keepdims, kind, f):
    """f(shape_of_reduced, elem(reduced_idx)) -> scalar"""
    rd = a.reader()
    osh = _red_shape(a, axes, keepdims)
    rsh = tuple(a.shape[x] for x in axes)

    def fn(idx):
        def elem(ridx):
            full_idx = []
            o = 0
            for x in range(a.ndim):
                if x in axes:
                    full_idx.append(ridx[axes.index(x)])
                    if keepdims:
                        o += 1
                else:
                    full_idx.append(idx[o])
                    o += 1
            return rd(tuple(full_idx))

        return f(rsh, elem)

    if not osh:
        return fn(())
    return Arr.new(kind, osh, fn)


def _sum_scalar(kind):
    E = T.ENG

    def f(rsh, elem):
        sort = "i" if kind == "i" else "f"

        def comp(c):
            def nest(dims, idx):
                if not dims:
                    v = T.lift(T.cast(elem(tuple(idx)), kind))
                    return getattr(v, c)
                return E.sum_term(z3.IntVal(0), zi(dims[0]), lambda k: nest(dims[1:], idx + [k]), sort)

            return nest(list(rsh), [])

        nanflag = _any_flag(rsh, elem, "nan") if kind in "fc" else False
        infflag = _any_flag(rsh, elem, "inf") if kind == "f" else False
        if not T.is_false(infflag):
            nanflag = Or(nanflag, infflag)  # over-approximation: treated as not finite
        return mk(kind, comp("re"), comp("im") if kind == "c" else None, nanflag)

    return f


def _any_flag(rsh, elem, flag):
    E = T.ENG
    found = False
    with E.scoped():
        idx = tuple(E.fresh_index(d, "flk") for d in rsh)
        v = elem(idx)
        if isinstance(v, S) and not T.is_false(getattr(v, flag)):
            found = True
    if not found:
        return False

    def fe(idx):
        v = elem(idx)
        return T.wrapb(getattr(T.lift(v), flag))

    return E.opaque_reduce("any", rsh, lambda i: T.lift(fe(i)), "b")


def sum(x, axis=None, dtype=None, keepdims=False, **kw):
    if kw:
        raise Unsupported("sum options")
    a = as_arr(x)
    k = "i" if a.kind == "b" else a.kind
    if a.ndim == 0:
        return T.cast(a.at(), k)
    return _red(a, _axes(a, axis), keepdims, k, _sum_scalar(k))


def prod_(x, axis=None):
    a = as_arr(x)
    if builtin_all(isinstance(d, int) for d in a.shape) and a.ndim == 1 and axis in (None, 0):
        r = 1
        for i in range(a.shape[0]):
            r = T.binop("*", r, a.at(i))
        return r
    raise Unsupported("prod of symbolic length")


def _count(a, axes):
    n = 1
    for x in axes:
        n = A.dmul(n, a.shape[x])
    return n


def mean(x, axis=None, keepdims=False, **kw):
    if kw:
        raise Unsupported("mean options")
    a = as_arr(x)
    k = "c" if a.kind == "c" else "f"
    axes = _axes(a, axis)
    n = _count(a, axes)
    s = sum(a.astype(DT(k)), axis=axis, keepdims=keepdims)
    return A.binop("/", s, n)


def nanmean(x, axis=None):
    a = as_arr(x)
    m = isnan(a)
    s = sum(where(m, T.cast(0, a.kind), _denan(a)), axis=axis)
    n = sum(logical_not(m), axis=axis)
    return A.binop("/", s, n)


def nansum(x, axis=None):
    a = as_arr(x)
    return sum(where(isnan(a), T.cast(0, a.kind), _denan(a)), axis=axis)


def _denan(a):
    def f(v):
        if isinstance(v, S):
            return S(v.kind, v.re, v.im, False, v.inf)
        return v if v == v else 0.0

    return emap(f, a, kind=a.kind)


def var(x, axis=None, ddof=0, keepdims=False):
    a = as_arr(x)
    m = mean(a, axis=axis, keepdims=True) if axis is not None else mean(a)
    d = A.binop("-", a, m)
    sq = emap(lambda v: T.binop("*", v, v) if T.kind_of(v) != "c" else T.binop("+", T.binop("*", T.sreal(v), T.sreal(v)), T.binop("*", T.simag(v), T.simag(v))), d, kind="f")
    n = _count(a, _axes(a, axis))
    return A.binop("/", sum(sq, axis=axis, keepdims=keepdims), A.binop("-", n, ddof) if ddof else n)


def std(x, axis=None, ddof=0, keepdims=False):
    if "std" in getattr(T.ENG, "opaque_np", ()) and not ddof and not keepdims and as_arr(x).kind != "c":
        # the contract makes no use of what a standard deviation is
        def f(rsh, elem):
            emp = zi(prod(rsh)) <= 0
            if T.ENG.must(Not(emp)):
                emp = False
            e = T.lift(T.cast(elem(tuple(T.ENG.fresh_const("i", "stk") for _ in rsh)), "f"))
            sd = z3.RealVal(0) if T.num_val(e.re) is not None else T.ENG.opaque_reduce("std", rsh, lambda i: T.lift(T.cast(elem(i), "f")), "f")
            return S("f", sd, None, Or(_any_flag(rsh, elem, "nan"), emp))

        return _red(as_arr(x), _axes(as_arr(x), axis), False, "f", f)
    return sqrt(var(x, axis, ddof, keepdims))


def nanstd(x, axis=None):
    """an unspecified function of the values and of which of them are not a number"""
    a = as_arr(x)
    if a.kind == "c":
        raise Unsupported("nanstd of complex values")
    return _red(a, _axes(a, axis), False, "f", lambda rsh, elem: S("f", T.ENG.opaque_reduce("nanstd", rsh, lambda i: T.lift(T.cast(elem(i), "f")), "f"), None, False))


def unwrap(p):
    """an unspecified function of all values and the position"""
    a = as_arr(p)
    if a.ndim != 1 or a.kind == "c":
        raise Unsupported("unwrap of this array")
    a = a.copy()
    rd = a.reader()
    return Arr.new("f", a.shape, lambda idx: S("f", T.ENG.opaque_reduce("unwrap", a.shape, lambda i: T.lift(T.cast(rd(i), "f")), "f", (mk("i", idx[0]),)), None, False))


def polyval(p, x):
    """np.polyval: highest power first"""
    p = as_arr(p)
    if p.ndim != 1 or not isinstance(p.shape[0], int):
        raise Unsupported("polyval with a symbolic number of coefficients")
    r = 0
    for k in range(p.shape[0]):
        r = A.binop("+", A.binop("*", r, x), p[k])
    return r


class _Fit:
    """Polynomial.fit(x, y, deg): between one and deg + 1 coefficients that are an unspecified function of the points"""

    def __init__(self, x, y, deg):
        x, y = as_arr(x).copy(), as_arr(y).copy()
        if x.ndim != 1 or y.ndim != 1 or x.kind == "c" or y.kind == "c" or not isinstance(deg, int):
            raise Unsupported("polynomial fit of these arrays")
        A._same_dim(x.shape[0], y.shape[0]) if hasattr(A, "_same_dim") else bshape(x.shape, y.shape)
        rx, ry = x.reader(), y.reader()
        red = lambda tag, k, e: T.ENG.opaque_reduce(tag, x.shape, lambda i: S("c", T.lift(T.cast(rx(i), "f")).re, T.lift(T.cast(ry(i), "f")).re, False), k, e)
        sz = red("polyfit_size", "i", (deg,))
        sz = z3.If(sz < 1, z3.IntVal(1), z3.If(sz > deg + 1, z3.IntVal(deg + 1), sz))
        self.coef = Arr.new("f", (mkdim(sz),), lambda idx: S("f", red("polyfit", "f", (deg, mk("i", idx[0]))), None, False))

    def convert(self):
        return self


class Polynomial:
    @staticmethod
    def fit(x, y, deg):
        return _Fit(x, y, deg)


class _Poly:
    """numpy.polynomial: fits and their values are unspecified functions of what they are given"""

    Polynomial = Polynomial

    @property
    def polynomial(self):
        return self

    def polyval(self, x, c):
        c = as_arr(c).copy()
        rd = c.reader()
        return emap(lambda v: S("f", T.ENG.opaque_reduce("polyval", c.shape, lambda i: T.lift(T.cast(rd(i), "f")), "f", (T.cast(v, "f"),)), None, False), as_arr(x), kind="f")

    def __getattr__(self, n):
        return getattr(_NS("polynomial", _np.polynomial), n)


def _minmax(tag):
    def g(x, axis=None, keepdims=False, initial=None, **kw):
        if kw or initial is not None:
            raise Unsupported("min/max options")
        a = as_arr(x)
        if a.ndim == 0:
            return a.at()
        axes = _axes(a, axis)
        n = _count(a, axes)
        if isinstance(n, int):
            if n == 0:
                raise ValueError("zero-size array to reduction operation which has no identity")
        elif not T.ENG.must(zi(n) > 0):
            T.ENG.require(zi(n) > 0, f"{tag} of a non-empty array", exc=ValueError)
        if a.kind == "c":
            raise Unsupported("complex max")
        kk = a.kind
        f2 = _nanprop(_max2 if tag == "max" else _min2)

        def f(rsh, elem):
            if builtin_all(isinstance(d, int) for d in rsh) and prod(rsh) <= 8:
                import itertools

                r = None
                for idx in itertools.product(*[range(d) for d in rsh]):
                    v = elem(tuple(z3.IntVal(i) for i in idx))
                    r = v if r is None else f2(r, v)
                return r
            nanf = _any_flag(rsh, elem, "nan")
            if kk == "b":
                return T.wrapb(T.ENG.opaque_reduce("any" if tag == "max" else "all", rsh, elem, "b"))
            inff = _any_flag(rsh, elem, "inf")
            if not T.is_false(inff):
                raise Unsupported("max over possibly infinite values")
            return mk(kk, T.ENG.opaque_reduce(tag, rsh, lambda i: S(T.lift(elem(i)).kind, T.lift(elem(i)).re), kk), None, nanf)

        return _red(a, axes, keepdims, kk, f)

    return g


max = amax = _minmax("max")
min = amin = _minmax("min")


def nanmax(x, axis=None):
    a = as_arr(x)
    with T.ENG.scoped():
        v = a.reader()(tuple(T.ENG.fresh_index(d) for d in a.shape))
    if isinstance(v, S) and not T.is_false(v.nan):
        raise Unsupported("nanmax over possibly NaN values")
    return max(a, axis)


def nanmin(x, axis=None):
    a = as_arr(x)
    with T.ENG.scoped():
        v = a.reader()(tuple(T.ENG.fresh_index(d) for d in a.shape))
    if isinstance(v, S) and not T.is_false(v.nan):
        raise Unsupported("nanmin over possibly NaN values")
    return min(a, axis)


def any(x, axis=None, keepdims=False):
    a = as_arr(x)
    if a.ndim == 0:
        return T.wrapb(T.truth(a.at()))
    rb = lambda rsh, elem: _anyall("any", rsh, elem)
    return _red(a, _axes(a, axis), keepdims, "b", rb)


def all(x, axis=None, keepdims=False):
    a = as_arr(x)
    if a.ndim == 0:
        return T.wrapb(T.truth(a.at()))
    return _red(a, _axes(a, axis), keepdims, "b", lambda rsh, elem: _anyall("all", rsh, elem))


def _anyall(tag, rsh, elem):
    if builtin_all(isinstance(d, int) for d in rsh) and prod(rsh) <= 8:
        import itertools

        ts = [T.truth(elem(tuple(z3.IntVal(i) for i in idx))) for idx in itertools.product(*[range(d) for d in rsh])]
        return T.wrapb(Or(*ts) if tag == "any" else And(*ts))
    return T.wrapb(T.ENG.opaque_reduce(tag, rsh, lambda i: T.lift(T.wrapb(T.truth(elem(i)))), "b"))


def _arg(tag):
    def g(x, axis=None):
        a = as_arr(x)
        if a.ndim != 1 or a.kind == "c":
            raise Unsupported(tag)
        if not T.ENG.must(zi(a.shape[0]) > 0):
            T.ENG.require(zi(a.shape[0]) > 0, f"{tag} of a non-empty array", exc=ValueError)
        rd = a.reader()
        r = T.ENG.opaque_reduce(tag, a.shape, lambda i: T.lift(rd(i), "i" if a.kind == "b" else None), "i")
        return mk("i", r)

    return g


argmax, argmin = _arg("argmax"), _arg("argmin")


def median(x, axis=None):
    a = as_arr(x)
    if a.kind == "c":
        raise Unsupported("complex median")
    axes = _axes(a, axis)
    k = "f"

    def f(rsh, elem):
        nanf = _any_flag(rsh, elem, "nan")
        n = prod(rsh)
        emp = zi(n) <= 0
        if T.ENG.must(Not(emp)):
            emp = False
        return S("f", T.ENG.opaque_reduce("median", rsh, lambda i: S("f", T.lift(T.cast(elem(i), "f")).re), "f"), None, Or(nanf, emp))

    return _red(a, axes, False, k, f)


def cumsum(x, axis=None):
    a = as_arr(x)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    k = "i" if a.kind == "b" else a.kind
    rd = a.reader()
    E = T.ENG

    def fn(idx):
        sort = "i" if k == "i" else "f"

        def comp(c):
            return E.sum_term(z3.IntVal(0), T._add(idx[0], z3.IntVal(1)), lambda j: getattr(T.lift(T.cast(rd((j,)), k)), c), sort)

        return mk(k, comp("re"), comp("im") if k == "c" else None)

    return Arr.new(k, a.shape, fn)


def diff(x, axis=-1):
    a = as_arr(x)
    if a.ndim != 1:
        raise Unsupported("diff nd")
    return A.binop("-", a[1:], a[:-1])


def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return A.binop("*", a, b)
    k = T.kmax(a.kind, b.kind)
    if not A.same_dim(a.shape[-1], b.shape[0 if b.ndim == 1 else -2]):
        if not T.ENG.branch(zi(a.shape[-1]) == zi(b.shape[0 if b.ndim == 1 else -2])):
            raise ValueError("shapes not aligned")
    ra, rb = a.reader(), b.reader()
    n = a.shape[-1]
    if b.ndim > 2:
        raise Unsupported("dot nd")
    osh = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim == 2 else ())

    def fn(idx):
        ia = idx[: a.ndim - 1]
        ib = idx[a.ndim - 1:]
        f = _sum_scalar(k)
        return f((n,), lambda r: T.binop("*", ra(tuple(ia) + r), rb(r + tuple(ib))))

    if not osh:
        return fn(())
    return Arr.new(k, osh, fn)


matmul = dot


def outer(a, b):
    a, b = as_arr(a).ravel() if as_arr(a).ndim != 1 else as_arr(a), as_arr(b).ravel() if as_arr(b).ndim != 1 else as_arr(b)
    k = T.kmax(a.kind, b.kind)
    ra, rb = a.reader(), b.reader()
    return Arr.new(k, a.shape + b.shape, lambda idx: T.binop("*", ra((idx[0],)), rb((idx[1],))))


# ---------------------------------------------------------------------------- shape manipulation
def size(x, axis=None):
    if isinstance(x, ObjArr):
        return x.size
    a = as_arr(x) if not isinstance(x, (tuple, list)) else as_arr(list(x))
    if axis is not None:
        return a.shape[axis]
    return a.size


def shape(x):
    return as_arr(x).shape


def ndim(x):
    return as_arr(x).ndim


def reshape(x, sh=None, order="C", **kw):
    if kw:
        sh = kw.pop("shape", sh)
    if not isinstance(sh, (tuple, list)):
        sh = (sh,) if not isinstance(sh, Arr) else tuple(sh)
    return A.reshape_order(as_arr(x), tuple(sh), order)


def ravel(x, order="C"):
    return as_arr(x).ravel(order)


def transpose(x, axes=None):
    a = as_arr(x)
    return a.T if axes is None else A.transpose(a, tuple(axes))


def swapaxes(x, a, b):
    return as_arr(x).swapaxes(a, b)


def moveaxis(x, s, d):
    raise Unsupported("moveaxis")


def squeeze(x, axis=None):
    a = as_arr(x)
    keep = []
    for j, d in enumerate(a.shape):
        if axis is not None:
            ax = axis if isinstance(axis, tuple) else (axis,)
            if j in [z % a.ndim for z in ax]:
                continue
            keep.append(j)
            continue
        if isinstance(d, int):
            if d == 1:
                continue
        elif T.ENG.branch(zi(d) == 1):
            continue
        keep.append(j)
    key = tuple(slice(None) if j in keep else 0 for j in range(a.ndim))
    if len(keep) == 0:
        v = a.at(*([0] * a.ndim))
        return Arr.new(a.kind, (), lambda idx: v)
    return a[key]


def expand_dims(x, axis):
    a = as_arr(x)
    n = a.ndim + 1
    axis = axis % n
    key = tuple([slice(None)] * axis + [None])
    return a[key]


def atleast_1d(x):
    a = as_arr(x)
    return a if a.ndim else _reshape(a, (1,))


def broadcast_to(x, sh):
    a = as_arr(x)
    sh = _shape(sh)
    bp = T.ENG.bcast_plan(a.shape, sh)
    rd = a.reader()
    r = Arr.new(a.kind, sh, lambda idx: rd(bp(idx)))
    r.maybe_view = True
    return r


def concatenate(xs, axis=0):
    xs = [as_arr(x) for x in xs]
    k = "b"
    for x in xs:
        k = T.kmax(k, x.kind)
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for x in xs:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for j in range(nd):
            if j != axis and not A.same_dim(x.shape[j], xs[0].shape[j]):
                if not T.ENG.branch(zi(x.shape[j]) == zi(xs[0].shape[j])):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [z3.IntVal(0)]
    for x in xs:
        offs.append(T._add(offs[-1], zi(x.shape[axis])))
    rds = [x.reader() for x in xs]

    def fn(idx):
        i = idx[axis]
        r = None
        for j in range(len(xs) - 1, -1, -1):
            loc = tuple(idx[:axis]) + (T._sub(i, offs[j]),) + tuple(idx[axis + 1:])
            if r is None:
                r = T.cast(rds[j](loc), k) if j == 0 or not T.is_true(A._cmp(i, offs[j], "<")) else None
                continue
            c = A._cmp(i, offs[j + 1], "<")
            if T.is_false(c):
                continue
            r = T.site(c, T.cast(rds[j](loc), k), r)
        return r

    return Arr.new(k, xs[0].shape[:axis] + (mkdim(offs[-1]),) + xs[0].shape[axis + 1:], fn)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if isinstance(xs, Arr):
        xs = [xs[i] for i in range(xs.shape[0])]
    ys = []
    for x in xs:
        a = as_arr(x)
        if a.ndim == 0:
            a = _reshape(a, (1, 1))
        elif a.ndim == 1:
            a = _reshape(a, (1, a.shape[0]))
        ys.append(a)
    return concatenate(ys, 0)


def stack(xs, axis=0):
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([as_arr(a).ravel(), as_arr(b).ravel()])
    return concatenate([a, b], axis)


def insert(a, pos, v, axis=None):
    a = as_arr(a)
    if a.ndim != 1 or axis not in (None, 0):
        raise Unsupported("insert nd")
    v = as_arr(v)
    if v.ndim == 0:
        v = _reshape(v, (1,))
    v = v.astype(a.dtype)
    p = pos
    return concatenate([a[:p], v, a[p:]])


def delete(*a, **k):
    raise Unsupported("delete")


def tile(x, reps):
    a = as_arr(x)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = tuple(reps)
    nd = builtins_max(a.ndim, len(reps))
    if a.ndim < nd:
        a = _reshape(a, (1,) * (nd - a.ndim) + a.shape)
    reps = (1,) * (nd - len(reps)) + reps
    rd = a.reader()
    osh = tuple(A.dmul(d, r) for d, r in zip(a.shape, reps))
    ash = a.shape

    def fn(idx):
        t = []
        for i, d, r in zip(idx, ash, reps):
            if isinstance(r, int) and r == 1:
                t.append(i)
            elif isinstance(d, int) and d == 1:
                t.append(z3.IntVal(0))
            else:
                t.append(T.imod(i, zi(d)))
        return rd(tuple(t))

    return Arr.new(a.kind, osh, fn)


import builtins as _b

builtins_max = _b.max


def repeat(x, n, axis=None):
    a = as_arr(x)
    if isinstance(n, Arr):
        raise Unsupported("repeat with array counts")
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = axis % a.ndim
    rd = a.reader()
    nn = zi(n)
    osh = tuple(A.dmul(d, mkdim(nn)) if j == axis else d for j, d in enumerate(a.shape))
    return Arr.new(a.kind, osh, lambda idx: rd(tuple(T.idiv(i, nn) if j == axis else i for j, i in enumerate(idx))))


def flip(x, axis=None):
    a = as_arr(x)
    axes = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, (tuple, list)) else (axis,))
    axes = [z % a.ndim for z in axes]
    return a[tuple(slice(None, None, -1) if j in axes else slice(None) for j in range(a.ndim))]


def roll(x, shift, axis=None):
    a = as_arr(x)
    if axis is None:
        f = a.ravel()
        r = roll(f, shift, 0)
        return _reshape(r, a.shape)
    sh = shift if isinstance(shift, (tuple, list)) else (shift,) * (len(axis) if isinstance(axis, (tuple, list)) else 1)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    tot = {}
    for s, ax in zip(sh, axes):
        tot[ax % a.ndim] = T.binop("+", tot.get(ax % a.ndim, 0), s)
    rd = a.reader()
    E = T.ENG

    def fn(idx):
        t = list(idx)
        for ax, s in tot.items():
            n = zi(a.shape[ax])
            u = T._sub(idx[ax], zi(s))
            if E.must(z3.And(zi(s) >= 0, zi(s) <= n)):
                t[ax] = z3.If(u < 0, u + n, u) if T.num_val(u) is None else (u if T.num_val(u) >= 0 else T._add(u, n))
            elif E.must(z3.And(zi(s) <= 0, zi(s) >= -n)):
                t[ax] = z3.If(u >= n, u - n, u)
            else:
                t[ax] = T.imod(u, n)
        return rd(tuple(t))

    return Arr.new(a.kind, a.shape, fn)


def meshgrid(x, y, indexing="xy"):
    x, y = as_arr(x), as_arr(y)
    rx, ry = x.reader(), y.reader()
    if indexing == "xy":
        sh = (y.shape[0], x.shape[0])
        return [Arr.new(x.kind, sh, lambda idx: rx((idx[1],))), Arr.new(y.kind, sh, lambda idx: ry((idx[0],)))]
    sh = (x.shape[0], y.shape[0])
    return [Arr.new(x.kind, sh, lambda idx: rx((idx[0],))), Arr.new(y.kind, sh, lambda idx: ry((idx[1],)))]


def pad(x, width, mode="constant", **kw):
    a = as_arr(x)
    if mode != "constant" or a.ndim != 1:
        raise Unsupported("pad")
    v = kw.get("constant_values", 0)
    lo, hi = width if isinstance(width, (tuple, list)) else (width, width)
    rd = a.reader()
    n = zi(a.shape[0])
    return Arr.new(a.kind, (mkdim(T._add(T._add(n, zi(lo)), zi(hi))),), lambda idx: T.site(And(idx[0] >= zi(lo), idx[0] < n + zi(lo)), rd((T._sub(idx[0], zi(lo)),)), T.cast(v, a.kind)))


def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not T.ENG.branch(zi(x) == zi(y)):
            return False
    return all(A.binop("==", a, b))


def interp(*a, **k):
    raise Unsupported("interp")


def isin(a, b):
    a, b = as_arr(a), as_arr(b)
    rb = b.ravel().reader()
    n = b.size
    ra = a.reader()
    return Arr.new("b", a.shape, lambda idx: _anyall("any", (n,), lambda j: T.binop("==", ra(idx), rb(j))))


def _order(tag, a):
    a = as_arr(a)
    if a.ndim != 1:
        a = a.ravel()
    if a.kind == "c":
        raise Unsupported("order of complex values")
    n = a.shape[0]
    rd = a.reader()
    k = "i" if a.kind == "b" else a.kind

    def elem(i):
        v = rd((i,))
        if getattr(v, "nan", False) is not False and not T.is_false(v.nan):
            if not T.ENG.must(Not(v.nan)):
                raise Unsupported("order of possibly NaN values")
        return T.lift(T.cast(v, k), k).re

    return (k,) + T.ENG.order_of(tag, n, elem, k)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported("unique with more results")
    k, cnt, at, src, who = _order("uq", a)
    T.ENG.assume(cnt >= 0)
    n = as_arr(a).size
    T.ENG.assume(cnt <= zi(n))
    T.ENG.assume(z3.Implies(zi(n) > 0, cnt > 0))
    return Arr.new(k, (mkdim(cnt),), lambda idx: mk(k, at(idx[0])))


def sort(a, axis=-1):
    if as_arr(a).ndim != 1 or axis not in (-1, 0):
        raise Unsupported("sort along an axis")
    k, cnt, at, src, who = _order("so", a)
    return Arr.new(k, (mkdim(cnt),), lambda idx: mk(k, at(idx[0])))


def argsort(a, axis=-1, kind=None, stable=None):
    if as_arr(a).ndim != 1 or axis not in (-1, 0):
        raise Unsupported("argsort along an axis")
    if kind not in ("stable", "mergesort") and not stable:
        raise Unsupported("argsort that is not stable")
    k, cnt, at, src, who = _order("so", a)
    r = Arr.new("i", (mkdim(cnt),), lambda idx: mk("i", src(idx[0])))
    r.meta = {"range": (z3.IntVal(0), cnt)}
    return r


def vectorize(f):
    raise Unsupported("vectorize")


class _NS:
    def __init__(self, name, real):
        self.__name, self.__real = name, real

    def __getattr__(self, n):
        if hasattr(self.__real, n):
            raise Unsupported(f"np.{self.__name}.{n}")
        raise AttributeError(n)


class NP:
    """module facade: names absent from the shim are Unsupported if numpy has them, AttributeError otherwise"""

    def __getattr__(self, n):
        if n == "pi":
            return S("f", T.ENG.pi)
        g = globals()
        if n == "prod":
            return prod_
        if n == "bool":
            return bool_
        if n == "polynomial":
            return _Poly()
        if n in ("fft", "linalg", "random"):
            return _NS(n, getattr(_np, n))
        if n in g and not n.startswith("_") and n not in ("T", "A", "z3", "S", "Unsupported", "emap", "bshape", "mkdim", "zi", "mk", "And", "Or", "Not", "as_arr", "DT", "NP", "Polynomial"):
            return g[n]
        if hasattr(_np, n):
            raise Unsupported(f"np.{n}")
        raise AttributeError(f"module 'numpy' has no attribute '{n}'")


np = NP()
