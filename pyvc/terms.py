"""Symbolic scalars for the verifier.

A scalar is either a plain Python number (bool, int, float, complex) or an ``S``:
a kind ('b','i','f','c'), a real/int/bool z3 term, an imaginary term for complex
values and two flags (nan, inf) that extend the mathematical reals for floats.
Floats are mathematical reals extended with NaN and +-inf; rounding is dropped
(stated in the trusted base).
"""
from fractions import Fraction
import math
import z3

ENG = None  # the active engine (set by engine.py)


class Unsupported(BaseException):
    """The front end cannot translate a construct; the function falls back to a bounded check."""


def is_num(x):
    return isinstance(x, (bool, int, float, complex))


_np_scalar = None


def unwrap(x):
    """numpy scalars -> python numbers"""
    if type(x).__module__ == "numpy" and hasattr(x, "item"):
        return x.item()
    return x


KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


def kind_of(x):
    if isinstance(x, S):
        return x.kind
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, float):
        return "f"
    if isinstance(x, complex):
        return "c"
    raise Unsupported(f"scalar kind of {type(x).__name__}")


def kmax(a, b):
    return a if KORD[a] >= KORD[b] else b


def is_false(t):
    return t is False or (isinstance(t, z3.ExprRef) and z3.is_false(t))


def is_true(t):
    return t is True or (isinstance(t, z3.ExprRef) and z3.is_true(t))


# ---- boolean helpers over python bools / z3 bools -------------------------------------
def Or(*a):
    r = []
    for t in a:
        if is_true(t):
            return True
        if is_false(t):
            continue
        r.append(t)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def And(*a):
    r = []
    for t in a:
        if is_false(t):
            return False
        if is_true(t):
            continue
        r.append(t)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Not(a):
    if is_true(a):
        return False
    if is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if is_false(a) or is_true(b):
        return True
    if is_true(a):
        return b
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def zb(t):
    """to z3 Bool"""
    if isinstance(t, bool):
        return z3.BoolVal(t)
    return t


def zi(t):
    """to z3 Int (term) from int / S / z3"""
    if isinstance(t, S):
        if t.kind == "i":
            return t.re
        if t.kind == "b":
            return z3.If(t.re, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("float used as index")
    if isinstance(t, bool):
        return z3.IntVal(int(t))
    if isinstance(t, int):
        return z3.IntVal(t)
    if isinstance(t, float) and t == int(t):
        return z3.IntVal(int(t))
    return t


def num_val(t):
    """z3 numeral -> python number, else None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def real_val(x):
    if isinstance(x, Fraction):
        f = x
    else:
        f = Fraction(x)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def to_real(t):
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def ite_t(c, a, b):
    """If over raw z3 terms with folding"""
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    return z3.If(c, a, b)


def _add(a, b):
    va, vb = num_val(a), num_val(b)
    if va is not None and va == 0:
        return b
    if vb is not None and vb == 0:
        return a
    if va is not None and vb is not None:
        return z3.IntVal(va + vb) if z3.is_int(a) else real_val(va + vb)
    return a + b


def _sub(a, b):
    va, vb = num_val(a), num_val(b)
    if vb is not None and vb == 0:
        return a
    if va is not None and vb is not None:
        return z3.IntVal(va - vb) if z3.is_int(a) else real_val(Fraction(va) - vb)
    if a.eq(b):
        return z3.IntVal(0) if z3.is_int(a) else z3.RealVal(0)
    return a - b


def _mul(a, b):
    va, vb = num_val(a), num_val(b)
    if va is not None and vb is not None:
        return z3.IntVal(va * vb) if z3.is_int(a) else real_val(Fraction(va) * vb)
    if va is not None:
        if va == 0:
            return a
        if va == 1:
            return b
    if vb is not None:
        if vb == 0:
            return b
        if vb == 1:
            return a
    return a * b


def _neg(a):
    va = num_val(a)
    if va is not None:
        return z3.IntVal(-va) if z3.is_int(a) else real_val(-va)
    return -a


class S:
    """symbolic scalar"""

    __slots__ = ("kind", "re", "im", "nan", "inf")
    __array_priority__ = 1000

    def __init__(self, kind, re, im=None, nan=False, inf=False):
        self.kind = kind
        self.re = re
        self.im = im
        self.nan = nan
        self.inf = inf

    def __repr__(self):
        return f"S<{self.kind}:{self.re}{'' if self.im is None else ' + j ' + str(self.im)}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # --- control flow
    def __bool__(self):
        return ENG.branch(truth(self))

    def __index__(self):
        v = num_val(z3.simplify(self.re)) if self.kind == "i" else None
        if v is not None:
            return int(v)
        raise Unsupported("symbolic integer used where a concrete index is needed")

    def __int__(self):
        raise Unsupported("int() of symbolic value outside the shim")

    def __float__(self):
        raise Unsupported("float() of symbolic value outside the shim")

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __hash__(self):
        return id(self)

    def __iter__(self):
        raise TypeError("iteration over a 0-d value")

    # --- arithmetic
    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        return binop("*", self, o)

    def __rmul__(self, o):
        return binop("*", o, self)

    def __truediv__(self, o):
        return binop("/", self, o)

    def __rtruediv__(self, o):
        return binop("/", o, self)

    def __floordiv__(self, o):
        return binop("//", self, o)

    def __rfloordiv__(self, o):
        return binop("//", o, self)

    def __mod__(self, o):
        return binop("%", self, o)

    def __rmod__(self, o):
        return binop("%", o, self)

    def __pow__(self, o):
        return binop("**", self, o)

    def __rpow__(self, o):
        return binop("**", o, self)

    def __neg__(self):
        return sneg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __invert__(self):
        return snot(self)

    def __and__(self, o):
        return binop("&", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return binop("|", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return binop("^", self, o)

    __rxor__ = __xor__

    def __eq__(self, o):
        return binop("==", self, o)

    def __ne__(self, o):
        return binop("!=", self, o)

    def __lt__(self, o):
        return binop("<", self, o)

    def __le__(self, o):
        return binop("<=", self, o)

    def __gt__(self, o):
        return binop(">", self, o)

    def __ge__(self, o):
        return binop(">=", self, o)

    # --- numpy scalar api
    @property
    def real(self):
        return sreal(self)

    @property
    def imag(self):
        return simag(self)

    def conjugate(self):
        return sconj(self)

    conj = conjugate

    @property
    def shape(self):
        return ()

    ndim = 0
    size = 1

    def astype(self, dt):
        from . import npshim

        return cast(self, npshim.dtype_kind(dt))

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def dtype(self):
        from . import npshim

        return npshim.DT(self.kind)

    def __getitem__(self, k):
        raise Unsupported("indexing a scalar")

    def round(self, *a):
        raise Unsupported("round")


def truth(x):
    """python/z3 bool of a scalar"""
    if isinstance(x, S):
        if x.kind == "b":
            return x.re
        z = Not(eq_t(x, 0))
        return z
    if isinstance(x, z3.BoolRef):
        return x
    if is_num(x):
        return bool(x)
    raise Unsupported(f"truth of {type(x)}")


def mk(kind, re, im=None, nan=False, inf=False):
    """S, collapsing exact concrete ints/bools to python values"""
    if kind == "b":
        if isinstance(re, bool):
            return re
        if z3.is_true(re):
            return True
        if z3.is_false(re):
            return False
    elif kind == "i":
        v = num_val(re)
        if v is not None:
            return int(v)
    return S(kind, re, im, nan, inf)


def lift(x, kind=None):
    """python number / S -> S of (at least) given kind"""
    if isinstance(x, S):
        s = x
    else:
        x = unwrap(x)
        k = kind_of(x)
        if k == "b":
            s = S("b", z3.BoolVal(x))
        elif k == "i":
            s = S("i", z3.IntVal(x))
        elif k == "f":
            if math.isnan(x):
                s = S("f", z3.RealVal(0), nan=True)
            elif math.isinf(x):
                s = S("f", z3.RealVal(1 if x > 0 else -1), inf=True)
            else:
                s = S("f", real_val(x))
        else:
            if math.isfinite(x.real) and math.isfinite(x.imag):
                s = S("c", real_val(x.real), real_val(x.imag))
            else:
                s = S("c", z3.RealVal(0), z3.RealVal(0), nan=True)
    if kind is not None and s.kind != kind and KORD[s.kind] < KORD[kind]:
        s = up(s, kind)
    return s


def up(s, kind):
    """promote S to a wider kind"""
    k = s.kind
    if KORD[k] >= KORD[kind]:
        return s
    if k == "b":
        s = S("i", ite_t(s.re, z3.IntVal(1), z3.IntVal(0)))
        k = "i"
    if k == kind:
        return s
    if k == "i":
        s = S("f", to_real_s(s.re))
        k = "f"
    if k == kind:
        return s
    return S("c", s.re, z3.RealVal(0), Or(s.nan, s.inf))


def to_real_s(t):
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), to_real_s(t.arg(1)), to_real_s(t.arg(2)))
    return z3.ToReal(t)


def finite(x):
    """z3/py bool: value is finite"""
    if isinstance(x, S):
        return And(Not(x.nan), Not(x.inf))
    x = unwrap(x)
    if isinstance(x, complex):
        return math.isfinite(x.real) and math.isfinite(x.imag)
    return math.isfinite(x)


def cast(x, kind):
    x = unwrap(x)
    k = kind_of(x)
    if k == kind:
        return x
    if kind == "b":
        t = truth(x)
        return mk("b", t) if not isinstance(t, bool) else t
    if KORD[kind] > KORD[k]:
        if not isinstance(x, S):
            return {"i": int, "f": float, "c": complex}[kind](x)
        return up(x, kind)
    if k == "c":
        x = sreal(x)
        k = "f"
        if kind == "f":
            return x
    if kind == "i":
        return trunc_int(x)
    raise Unsupported("cast")


def trunc_int(x):
    """int(x): truncation toward zero"""
    x = unwrap(x)
    if not isinstance(x, S):
        return int(x)
    if x.kind in "bi":
        return up(x, "i") if x.kind == "b" else x
    if x.kind == "c":
        x = sreal(x)
    v = num_val(x.re)
    if v is not None:
        return int(v)
    t = x.re
    # int -> real -> int
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return mk("i", t.arg(0))
    if is_true(x.nan):
        return S("i", ENG.fresh_const("i", "nan2int"))
    lo = floor_t(t)
    if ENG is not None and ENG.must(t >= 0):
        return mk("i", lo)
    return mk("i", z3.If(t >= 0, lo, -floor_t(-t)))


def floor_t(t):
    """floor of a real term, as Int term"""
    v = num_val(t)
    if v is not None:
        return z3.IntVal(math.floor(v))
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    q = _ratio_of_ints(t)
    if q is not None:
        return idiv(q[0], q[1])
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), floor_t(t.arg(1)), floor_t(t.arg(2)))
    return z3.ToInt(t)


def _ratio_of_ints(t):
    """t = ToReal(a)/ToReal(b) (b known positive) -> (a,b)"""
    if not z3.is_app_of(t, z3.Z3_OP_DIV):
        return None
    a, b = t.arg(0), t.arg(1)
    ia, ib = _as_int(a), _as_int(b)
    if ia is None or ib is None:
        return None
    if ENG is not None and ENG.must(ib > 0):
        return ia, ib
    return None


def _as_int(t):
    """Int term equal to a real term, or None"""
    v = num_val(t)
    if v is not None:
        return z3.IntVal(int(v)) if v == int(v) else None
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ADD) or z3.is_app_of(t, z3.Z3_OP_MUL) or z3.is_app_of(t, z3.Z3_OP_SUB):
        ch = [_as_int(c) for c in t.children()]
        if any(c is None for c in ch):
            return None
        r = ch[0]
        for c in ch[1:]:
            if z3.is_app_of(t, z3.Z3_OP_ADD):
                r = _add(r, c)
            elif z3.is_app_of(t, z3.Z3_OP_MUL):
                r = _mul(r, c)
            else:
                r = _sub(r, c)
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        c = _as_int(t.arg(0))
        return None if c is None else -c
    return None


def split_multiple(a, n):
    """write Int term a as q*n + r syntactically; returns (q, r) or None"""
    if n is None:
        return None
    terms = []

    def flat(t, sign):
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            for c in t.children():
                flat(c, sign)
        elif z3.is_app_of(t, z3.Z3_OP_SUB):
            ch = t.children()
            flat(ch[0], sign)
            for c in ch[1:]:
                flat(c, -sign)
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            flat(t.arg(0), -sign)
        elif z3.is_app_of(t, z3.Z3_OP_MUL):
            # distribute over sums
            ch = list(t.children())
            for j, c in enumerate(ch):
                if z3.is_app_of(c, z3.Z3_OP_ADD) or z3.is_app_of(c, z3.Z3_OP_SUB):
                    rest = ch[:j] + ch[j + 1:]
                    parts = c.children()
                    for m, p in enumerate(parts):
                        s = sign if (m == 0 or z3.is_app_of(c, z3.Z3_OP_ADD)) else -sign
                        pr = p
                        for r in rest:
                            pr = _mul(pr, r)
                        flat(pr, s)
                    return
            terms.append((sign, t))
        else:
            terms.append((sign, t))

    flat(a, 1)
    nv = num_val(n)
    # factors of n (product of symbols)
    nf = _factors(n)
    q = z3.IntVal(0)
    r = z3.IntVal(0)
    for sign, t in terms:
        v = num_val(t)
        got = None
        if nv is not None and v is not None:
            qq = v * sign // nv
            rr = v * sign - qq * nv
            q = _add(q, z3.IntVal(qq))
            r = _add(r, z3.IntVal(rr))
            continue
        tf = _factors(t)
        if nv is not None:
            coef = 1
            rest = []
            for f in tf:
                fv = num_val(f)
                if fv is not None:
                    coef *= fv
                else:
                    rest.append(f)
            if coef % nv == 0:
                got = z3.IntVal(coef // nv)
                for f in rest:
                    got = _mul(got, f)
        else:
            rest = list(tf)
            ok = True
            for f in nf:
                for j, g in enumerate(rest):
                    if g.eq(f):
                        rest.pop(j)
                        break
                else:
                    ok = False
                    break
            if ok:
                got = z3.IntVal(1)
                for f in rest:
                    got = _mul(got, f)
        if got is None:
            r = _add(r, t) if sign > 0 else _sub(r, t)
        else:
            q = _add(q, got) if sign > 0 else _sub(q, got)
    return q, r


def _factors(t):
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        out = []
        for c in t.children():
            out += _factors(c)
        return out
    return [t]


def idiv(a, n):
    """floor(a/n) for n>0, with syntactic/semantic simplification"""
    va, vn = num_val(a), num_val(n)
    if va is not None and vn is not None and vn != 0:
        return z3.IntVal(va // vn)
    if vn == 1:
        return a
    sp = split_multiple(a, n)
    if sp is not None:
        q, r = sp
        vr = num_val(r)
        if vr == 0:
            return q
        if ENG.must(z3.And(r >= 0, r < n)):
            return q
        if ENG.must(z3.And(r >= -n, r < 0)):
            return _sub(q, z3.IntVal(1))
        if num_val(q) is None or num_val(q) != 0:
            return _add(q, r / n)
    return a / n


def imod(a, n):
    va, vn = num_val(a), num_val(n)
    if va is not None and vn is not None and vn != 0:
        return z3.IntVal(va % vn)
    if vn == 1:
        return z3.IntVal(0)
    sp = split_multiple(a, n)
    if sp is not None:
        q, r = sp
        if num_val(r) == 0:
            return z3.IntVal(0)
        if ENG.must(z3.And(r >= 0, r < n)):
            return r
        if ENG.must(z3.And(r >= -n, r < 0)):
            return _add(r, n)
        if num_val(q) is None or num_val(q) != 0:
            return r % n
    return a % n


# ---------------------------------------------------------------------------------------
def eq_t(a, b):
    """raw equality (numpy ==) as py/z3 bool"""
    a, b = unwrap(a), unwrap(b)
    if not isinstance(a, S) and not isinstance(b, S):
        return a == b
    k = kmax(kind_of(a), kind_of(b))
    a, b = lift(a, k), lift(b, k)
    if k == "b":
        if is_true(a.re):
            return b.re
        if is_true(b.re):
            return a.re
        if is_false(a.re):
            return Not(b.re)
        if is_false(b.re):
            return Not(a.re)
        return a.re == b.re
    if k == "i":
        va, vb = num_val(a.re), num_val(b.re)
        if va is not None and vb is not None:
            return va == vb
        if a.re.eq(b.re):
            return True
        return a.re == b.re
    core = a.re == b.re if not a.re.eq(b.re) else True
    va, vb = num_val(a.re), num_val(b.re)
    if va is not None and vb is not None:
        core = va == vb
    if k == "c":
        ci = a.im == b.im if not a.im.eq(b.im) else True
        va, vb = num_val(a.im), num_val(b.im)
        if va is not None and vb is not None:
            ci = va == vb
        core = And(core, ci)
    bad = Or(a.nan, b.nan)
    if is_false(a.inf) and is_false(b.inf):
        return And(Not(bad), core)
    # inf handling: both inf with same sign, or both finite and equal
    both = And(a.inf, b.inf, Or(And(zb(a.re > 0), zb(b.re > 0)), And(zb(a.re < 0), zb(b.re < 0))))
    fin = And(Not(a.inf), Not(b.inf), core)
    return And(Not(bad), Or(both, fin))


def same_t(a, b):
    """identity of values: like ==, but NaN is the same as NaN (used by specifications)"""
    a, b = unwrap(a), unwrap(b)
    ka, kb = kind_of(a), kind_of(b)
    la, lb = lift(a), lift(b)
    e = eq_t(a, b)
    if is_false(la.nan) and is_false(lb.nan):
        return e
    return Or(And(la.nan, lb.nan), e)


def lt_t(a, b, strict=True):
    a, b = unwrap(a), unwrap(b)
    if not isinstance(a, S) and not isinstance(b, S):
        return a < b if strict else a <= b
    k = kmax(kind_of(a), kind_of(b))
    if k == "c":
        # numpy compares complex lexicographically
        a, b = lift(a, "c"), lift(b, "c")
        bad = Or(a.nan, b.nan)
        c = Or(a.re < b.re, And(a.re == b.re, (a.im < b.im) if strict else (a.im <= b.im)))
        return And(Not(bad), c)
    if k == "b":
        k = "i"
    a, b = lift(a, k), lift(b, k)
    va, vb = num_val(a.re), num_val(b.re)
    if va is not None and vb is not None:
        core = va < vb if strict else va <= vb
    elif a.re.eq(b.re):
        core = not strict
    else:
        core = a.re < b.re if strict else a.re <= b.re
    if k == "i":
        return core
    bad = Or(a.nan, b.nan)
    if is_false(a.inf) and is_false(b.inf):
        return And(Not(bad), core)
    aneg, apos = And(a.inf, zb(a.re < 0)), And(a.inf, zb(a.re > 0))
    bneg, bpos = And(b.inf, zb(b.re < 0)), And(b.inf, zb(b.re > 0))
    fin = And(Not(a.inf), Not(b.inf), core)
    lt = Or(fin, And(aneg, Not(bneg)), And(bpos, Not(apos)))
    if not strict:
        lt = Or(lt, And(aneg, bneg), And(apos, bpos))
    return And(Not(bad), lt)


def wrapb(t):
    if isinstance(t, bool):
        return t
    return mk("b", t)


_BITOP = {o: z3.Function("bit" + n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for o, n in (("&", "and"), ("|", "or"))}


def binop(op, a, b):
    a, b = unwrap(a), unwrap(b)
    if not isinstance(a, S) and not is_num(a):
        return NotImplemented
    if not isinstance(b, S) and not is_num(b):
        return NotImplemented
    if op == "==":
        return wrapb(eq_t(a, b))
    if op == "!=":
        return wrapb(Not(eq_t(a, b)))
    if op == "<":
        return wrapb(lt_t(a, b))
    if op == "<=":
        return wrapb(lt_t(a, b, False))
    if op == ">":
        return wrapb(lt_t(b, a))
    if op == ">=":
        return wrapb(lt_t(b, a, False))
    ka, kb = kind_of(a), kind_of(b)
    if op in "&|^":
        if ka == "b" and kb == "b":
            x, y = truth(a), truth(b)
            if op == "&":
                return wrapb(And(x, y))
            if op == "|":
                return wrapb(Or(x, y))
            return wrapb(Or(And(x, Not(y)), And(Not(x), y)))
        if not isinstance(a, S) and not isinstance(b, S):
            return {"&": a & b, "|": a | b, "^": a ^ b}[op]
        if op in "&|" and ka in "ib" and kb in "ib":
            # exact for operands that are 0 or 1 (and for a zero operand); anything else stays unspecified
            x, y = zi(a), zi(b)
            o = _BITOP[op](x, y)
            one = z3.And(x == 1, y == 1)
            if op == "&":
                t = z3.If(z3.Or(x == 0, y == 0), z3.IntVal(0), z3.If(one, z3.IntVal(1), o))
            else:
                t = z3.If(x == 0, y, z3.If(y == 0, x, z3.If(one, z3.IntVal(1), o)))
            return mk("i", t)
        raise Unsupported(f"bitwise {op} on integers")
    k = kmax(ka, kb)
    if k == "b":
        # numpy bool arithmetic
        if op == "+":
            return wrapb(Or(truth(a), truth(b)))
        if op == "*":
            return wrapb(And(truth(a), truth(b)))
        if op == "-":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        k = "i"
    if op == "**":
        return spow(a, b)
    if op == "/":
        k = kmax(k, "f")
        return sdiv(lift(a, k), lift(b, k))
    if op in ("//", "%"):
        return sfloordiv(a, b, op)
    a, b = lift(a, k), lift(b, k)
    if k == "i":
        f = {"+": _add, "-": _sub, "*": _mul}[op]
        return mk("i", f(a.re, b.re))
    if k == "f":
        if is_false(a.nan) and is_false(b.nan) and is_false(a.inf) and is_false(b.inf):
            f = {"+": _add, "-": _sub, "*": _mul}[op]
            return S("f", f(a.re, b.re))
        return _ext(op, a, b)
    nan = Or(a.nan, b.nan)
    if op == "+":
        return S("c", _add(a.re, b.re), _add(a.im, b.im), nan)
    if op == "-":
        return S("c", _sub(a.re, b.re), _sub(a.im, b.im), nan)
    return S(
        "c",
        _sub(_mul(a.re, b.re), _mul(a.im, b.im)),
        _add(_mul(a.re, b.im), _mul(a.im, b.re)),
        nan,
    )


def _ext(op, a, b):
    if op == "-":
        return _ext("+", a, sneg(b))
    if op == "+":
        clash = And(a.inf, b.inf, Not(z3.simplify((a.re > 0) == (b.re > 0))))
        nan = Or(a.nan, b.nan, clash)
        inf = And(Or(a.inf, b.inf), Not(nan))
        re = ite_t(a.inf, a.re, ite_t(b.inf, b.re, _add(a.re, b.re)))
        return S("f", re, None, nan, inf)
    if op == "*":
        zero = Or(And(a.inf, Not(b.inf), zb(b.re == 0)), And(b.inf, Not(a.inf), zb(a.re == 0)))
        nan = Or(a.nan, b.nan, zero)
        inf = And(Or(a.inf, b.inf), Not(nan))
        return S("f", _mul(a.re, b.re), None, nan, inf)
    raise Unsupported(op)


def sdiv(a, b):
    """true division, floats (extended) or complex (poisoned on zero divisor)"""
    if a.kind == "f":
        vb = num_val(b.re)
        plain = is_false(a.nan) and is_false(a.inf) and is_false(b.nan) and is_false(b.inf)
        if plain and vb is not None and vb != 0:
            va = num_val(a.re)
            if va is not None:
                return S("f", real_val(Fraction(va) / Fraction(vb)))
            return S("f", _mul(a.re, real_val(1 / Fraction(vb))))
        if plain and ENG.must(b.re != 0):
            return S("f", a.re / b.re)
        bz = And(Not(b.inf), Not(b.nan), zb(b.re == 0) if vb is None else vb == 0)
        az = And(Not(a.inf), zb(a.re == 0) if num_val(a.re) is None else num_val(a.re) == 0)
        nan = Or(a.nan, b.nan, And(bz, az), And(a.inf, b.inf))
        inf = And(Not(nan), Or(And(bz, Not(az)), And(a.inf, Not(b.inf))))
        # quotient: b inf -> 0 ; b zero -> sign of a (as inf) ; a inf -> sign product
        if is_true(bz):
            q = a.re
        else:
            q = a.re / b.re
        q = ite_t(b.inf, z3.RealVal(0), ite_t(bz, a.re, ite_t(a.inf, a.re * b.re, q)))
        return S("f", q, None, nan, inf)
    # complex
    bi = num_val(b.im)
    nan = Or(a.nan, b.nan)
    if bi == 0:
        vb = num_val(b.re)
        if vb is not None and vb != 0:
            inv = real_val(1 / Fraction(vb))
            return S("c", _mul(a.re, inv), _mul(a.im, inv), nan)
        if vb == 0:
            return S("c", a.re, a.im, True)
        if not ENG.must(b.re != 0):
            nan = Or(nan, b.re == 0)
        return S("c", a.re / b.re, a.im / b.re, nan)
    d = _add(_mul(b.re, b.re), _mul(b.im, b.im))
    if not ENG.must(z3.Or(b.re != 0, b.im != 0)):
        nan = Or(nan, z3.And(b.re == 0, b.im == 0))
    re = _add(_mul(a.re, b.re), _mul(a.im, b.im))
    im = _sub(_mul(a.im, b.re), _mul(a.re, b.im))
    return S("c", re / d, im / d, nan)


def sfloordiv(a, b, op):
    ka, kb = kind_of(a), kind_of(b)
    k = kmax(ka, kb)
    if k == "b":
        k = "i"
    if k == "c":
        raise TypeError("floor division of complex")
    if not isinstance(a, S) and not isinstance(b, S):
        if b == 0:
            raise ZeroDivisionError
        return a // b if op == "//" else a % b
    a, b = lift(a, k), lift(b, k)
    if k == "i":
        vb = num_val(b.re)
        pos = (vb is not None and vb > 0) or ENG.must(b.re > 0)
        if pos:
            return mk("i", idiv(a.re, b.re) if op == "//" else imod(a.re, b.re))
        if (vb is not None and vb < 0) or ENG.must(b.re < 0):
            q = idiv(_neg(a.re), _neg(b.re))
            if op == "//":
                return mk("i", q)
            return mk("i", _sub(a.re, _mul(q, b.re)))
        ENG.require(b.re != 0, "integer division by zero")
        q = z3.If(b.re > 0, a.re / b.re, (-a.re) / (-b.re))
        return mk("i", q if op == "//" else a.re - q * b.re)
    q = sdiv(a, b)
    fl = floor_t(q.re)
    r = S("f", to_real_s(fl), None, Or(q.nan, q.inf))
    if op == "//":
        return r
    return binop("-", a, binop("*", r, b))


def spow(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if not isinstance(a, S) and not isinstance(b, S):
        return a**b
    if not isinstance(b, S):
        if b == 2:
            return binop("*", a, a)
        if b == 1:
            return a
        if b == 0:
            return 1
        if b == 0.5:
            return ENG.fn_sqrt(lift(a, "f"))
        if isinstance(b, int) or (isinstance(b, float) and b == int(b)):
            n = int(b)
            if n > 0 and n <= 8:
                r = a
                for _ in range(n - 1):
                    r = binop("*", r, a)
                return r
            if n < 0 and n >= -8:
                if ka in "bi":
                    raise ValueError("Integers to negative integer powers are not allowed.")
                r = a
                for _ in range(-n - 1):
                    r = binop("*", r, a)
                return binop("/", 1.0, r)
    k = kmax(kmax(ka, kb), "f")
    if kb == "i" and ka != "c":
        return ENG.ufun("powi_" + ("i" if ka == "i" else "f"), [lift(a), lift(b)], "i" if ka in "ib" else "f")
    return ENG.ufun("pow", [lift(a, "f"), lift(b, "f")], "f")


def sneg(a):
    if not isinstance(a, S):
        return -a
    if a.kind == "b":
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    if a.kind == "i":
        return mk("i", _neg(a.re))
    if a.kind == "f":
        return S("f", _neg(a.re), None, a.nan, a.inf)
    return S("c", _neg(a.re), _neg(a.im), a.nan)


def snot(a):
    if kind_of(a) == "b":
        return wrapb(Not(truth(a)))
    if not isinstance(a, S):
        return ~a
    if a.kind == "i":
        return mk("i", _sub(_neg(a.re), z3.IntVal(1)))
    raise TypeError("~ on float")


def sreal(a):
    a = unwrap(a)
    if not isinstance(a, S):
        return a.real
    if a.kind == "c":
        return S("f", a.re, None, a.nan)
    return a


def simag(a):
    a = unwrap(a)
    if not isinstance(a, S):
        return a.imag
    if a.kind == "c":
        return S("f", a.im, None, a.nan)
    return 0.0 if a.kind == "f" else 0


def sconj(a):
    a = unwrap(a)
    if not isinstance(a, S):
        return a.conjugate()
    if a.kind == "c":
        return S("c", a.re, _neg(a.im), a.nan)
    return a


def sabs(a):
    a = unwrap(a)
    if not isinstance(a, S):
        return abs(a)
    if a.kind == "b":
        return a
    if a.kind == "c":
        sq = S("f", _add(_mul(a.re, a.re), _mul(a.im, a.im)), None, a.nan)
        return ENG.fn_sqrt(sq)
    if a.kind == "i":
        if ENG.must(a.re >= 0):
            return a
        return mk("i", z3.If(a.re >= 0, a.re, -a.re))
    if ENG.must(a.re >= 0):
        return a
    return S("f", ite_t(zb(a.re >= 0), a.re, _neg(a.re)), None, a.nan, a.inf)


def site(c, a, b):
    """if-then-else over scalars; c py/z3 bool or S"""
    if isinstance(c, S):
        c = truth(c)
    if is_true(c):
        return a
    if is_false(c):
        return b
    a, b = unwrap(a), unwrap(b)
    if a is b:
        return a
    if not (isinstance(a, S) or is_num(a)) or not (isinstance(b, S) or is_num(b)):
        raise Unsupported("ite over non-scalars")
    k = kmax(kind_of(a), kind_of(b))
    if not isinstance(a, S) and not isinstance(b, S) and type(a) is type(b) and a == b:
        return a
    a, b = lift(a, k), lift(b, k)
    re = ite_t(c, a.re, b.re)
    im = None if k != "c" else ite_t(c, a.im, b.im)
    return mk(k, re, im, _fl(c, a.nan, b.nan), _fl(c, a.inf, b.inf))


def _fl(c, x, y):
    if is_false(x) and is_false(y):
        return False
    if is_true(x) and is_true(y):
        return True
    return Or(And(c, x), And(Not(c), y))
