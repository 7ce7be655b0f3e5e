"""Symbolic arrays: shape terms plus an index -> scalar function, with numpy view/copy semantics."""
import z3
from . import terms as T
from .terms import S, Unsupported, zi, And, Or, Not, site


def dt(d):
    """dimension -> z3 Int term"""
    return zi(d)


def mkdim(t):
    """z3 Int term -> python int or S"""
    if isinstance(t, (int, S)):
        return t
    v = T.num_val(t)
    if v is None:
        t2 = z3.simplify(t)
        v = T.num_val(t2)
        if v is None:
            return S("i", t)
    return int(v)


def dmul(a, b):
    return mkdim(T._mul(zi(a), zi(b)))


def prod(ds):
    r = 1
    for d in ds:
        r = dmul(r, d)
    return r


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = zi(a), zi(b)
    if ta.eq(tb):
        return True
    return T.ENG.must(ta == tb)


class Buffer:
    __slots__ = ("id", "kind", "shape", "fn", "memo", "keep", "ext")

    def __init__(self, kind, shape, fn):
        self.id = T.ENG.new_buf_id(self)
        self.kind = kind
        self.shape = tuple(shape)
        self.fn = fn
        self.memo = {}

    def reader(self):
        """frozen reader of the current contents"""
        fn, memo = self.fn, self.memo

        def rd(idx):
            key = (T.ENG.scope,) + tuple(t.get_id() for t in idx)
            hit = memo.get(key)
            if hit is not None:
                return hit[0]
            v = fn(idx)
            memo[key] = (v, idx)
            return v

        return rd

    def set_fn(self, fn):
        self.fn = fn
        self.memo = {}
        T.ENG.note_write(self)

    def write(self, cond, val):
        old = self.reader()
        kind = self.kind
        guards = tuple(T.ENG.guards)

        def fn(b):
            c = And(*guards, cond(b)) if guards else cond(b)
            if T.is_false(c):
                return old(b)
            v = T.cast(val(b), kind)
            if T.is_true(c):
                return v
            return site(c, v, old(b))

        self.set_fn(fn)


class Arr:
    __array_priority__ = 2000
    __slots__ = ("buf", "shape", "fwd", "inv", "inverse", "maybe_view", "meta", "dtype_", "pylist")

    def __init__(self, buf, shape=None, fwd=None, inv=None, inverse=None):
        self.buf = buf
        self.shape = tuple(buf.shape if shape is None else shape)
        self.fwd = fwd
        self.inv = inv
        self.inverse = inverse  # for 1-D int arrays: value -> (cond, position)
        self.maybe_view = False
        self.meta = None

    # ---- construction
    @staticmethod
    def new(kind, shape, fn, inverse=None):
        return Arr(Buffer(kind, tuple(mkdim(zi(d)) if not isinstance(d, (int, S)) else d for d in shape), fn), inverse=inverse)

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- basic properties
    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def dtype(self):
        from . import npshim

        return npshim.DT(self.kind)

    def reader(self):
        rd = self.buf.reader()
        if self.fwd is None:
            return rd
        fwd = self.fwd
        return lambda idx: rd(fwd(idx))

    def at(self, *idx):
        return self.reader()(tuple(zi(i) for i in idx))

    def frozen(self):
        """a fresh array with the current contents (copy)"""
        rd = self.reader()
        a = Arr.new(self.kind, self.shape, rd, inverse=self.inverse)
        a.meta = self.meta
        return a

    def copy(self, order=None):
        return self.frozen()

    def __len__(self):
        raise Unsupported("len() outside the shim")

    def __repr__(self):
        return f"Arr<{self.kind}{self.shape}>"

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at())
        if all(isinstance(d, int) for d in self.shape):
            n = prod(self.shape)
            if n == 1:
                return bool(self.at(*([0] * self.ndim)))
            if n == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        if T.ENG.must(zi(self.size) == 1):
            return bool(self.at(*([0] * self.ndim)))
        T.ENG.require(zi(self.size) == 1, "truth value of an array")
        return bool(self.at(*([0] * self.ndim)))

    def __hash__(self):
        return id(self)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over an array of symbolic length")

    def __index__(self):
        if self.ndim == 0:
            return self.at().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, v):
        from . import npshim

        return bool(npshim.any(binop("==", self, v)))

    def __format__(self, s):
        return "<symarr>"

    # ---- element-wise
    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        return binop("*", self, o)

    def __rmul__(self, o):
        return binop("*", o, self)

    def __truediv__(self, o):
        return binop("/", self, o)

    def __rtruediv__(self, o):
        return binop("/", o, self)

    def __floordiv__(self, o):
        return binop("//", self, o)

    def __rfloordiv__(self, o):
        return binop("//", o, self)

    def __mod__(self, o):
        return binop("%", self, o)

    def __rmod__(self, o):
        return binop("%", o, self)

    def __pow__(self, o):
        return binop("**", self, o)

    def __rpow__(self, o):
        return binop("**", o, self)

    def __neg__(self):
        return emap(T.sneg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return emap(T.sabs, self, kind="f" if self.kind == "c" else self.kind)

    def __invert__(self):
        return emap(T.snot, self)

    def __and__(self, o):
        return binop("&", self, o)

    def __rand__(self, o):
        return binop("&", o, self)

    def __or__(self, o):
        return binop("|", self, o)

    def __ror__(self, o):
        return binop("|", o, self)

    def __xor__(self, o):
        return binop("^", self, o)

    def __eq__(self, o):
        return binop("==", self, o)

    def __ne__(self, o):
        return binop("!=", self, o)

    def __lt__(self, o):
        return binop("<", self, o)

    def __le__(self, o):
        return binop("<=", self, o)

    def __gt__(self, o):
        return binop(">", self, o)

    def __ge__(self, o):
        return binop(">=", self, o)

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if not isinstance(r, Arr):
            r = as_arr(r)
        if T.KORD[r.kind] > T.KORD[self.kind]:
            raise TypeError(
                f"UFuncTypeError: Cannot cast ufunc '{op}' output from {r.kind} to {self.kind} with casting rule 'same_kind'"
            )
        if len(r.shape) > len(self.shape):
            raise ValueError("non-broadcastable output operand")
        assign(self, r)
        return self

    def __iadd__(self, o):
        return self._inplace("+", o)

    def __isub__(self, o):
        return self._inplace("-", o)

    def __imul__(self, o):
        return self._inplace("*", o)

    def __itruediv__(self, o):
        return self._inplace("/", o)

    def __ifloordiv__(self, o):
        return self._inplace("//", o)

    def __imod__(self, o):
        return self._inplace("%", o)

    def __ipow__(self, o):
        return self._inplace("**", o)

    def __iand__(self, o):
        return self._inplace("&", o)

    def __ior__(self, o):
        return self._inplace("|", o)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- numpy methods
    @property
    def T(self):
        return transpose(self, tuple(reversed(range(self.ndim))))

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, tuple(ax))

    @property
    def real(self):
        if self.kind != "c":
            return self
        r = emap(T.sreal, self, kind="f")
        r.maybe_view = True
        return r

    @property
    def imag(self):
        if self.kind != "c":
            return emap(lambda x: T.cast(T.simag(x), self.kind), self, kind=self.kind)
        r = emap(T.simag, self, kind="f")
        r.maybe_view = True
        return r

    def conj(self):
        return emap(T.sconj, self)

    conjugate = conj

    def astype(self, d, copy=True):
        from . import npshim

        k = npshim.dtype_kind(d)
        r = emap(lambda x: T.cast(x, k), self, kind=k)
        if k == self.kind:
            r.inverse, r.meta = self.inverse, self.meta
        return r

    def flatten(self, order="C"):
        return reshape_order(self, (-1,), order).frozen()

    def ravel(self, order="C"):
        return reshape_order(self, (-1,), order)

    def __matmul__(self, o):
        from . import npshim

        if self.ndim == 0 or getattr(as_arr(o), "ndim", 0) == 0 or self.ndim > 2 or as_arr(o).ndim > 2:
            raise T.Unsupported("matmul of these shapes")
        return npshim.dot(self, o)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, Arr)):
            shape = shape[0]
        if isinstance(shape, Arr):
            shape = tuple(shape)
        return reshape_order(self, tuple(shape), order)

    def squeeze(self, axis=None):
        from . import npshim

        return npshim.squeeze(self, axis)

    def fill(self, v):
        assign(self, v)

    def tolist(self):
        if all(isinstance(d, int) for d in self.shape):
            if self.ndim == 0:
                return self.at()
            if self.ndim == 1:
                return [self.at(i) for i in range(self.shape[0])]
            return [self[i].tolist() for i in range(self.shape[0])]
        raise Unsupported("tolist of symbolic array")

    def item(self):
        from . import arr

        T.ENG.require(zi(self.size) == 1, "item() of an array of size 1")
        return self.at(*([0] * self.ndim))

    @property
    def flat(self):
        return Flat(self)

    @flat.setter
    def flat(self, v):
        raise Unsupported("assignment to .flat")

    @property
    def nbytes(self):
        return self.size * 8

    def byteswap(self, *a):
        raise Unsupported("byteswap")

    def __getattr__(self, name):
        from . import npshim

        if name in ("sum", "mean", "max", "min", "any", "all", "std", "var", "prod", "cumsum", "nonzero", "argmax", "argmin", "take", "repeat", "round", "argsort"):
            f = getattr(npshim, name)
            return lambda *a, **k: f(self, *a, **k)
        if name.startswith("__"):
            raise AttributeError(name)
        if name in _NDARRAY_ATTRS:
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")


_NDARRAY_ATTRS = set(
    "argpartition base choose clip compress ctypes cumprod data device diagonal dot dump dumps flags getfield itemset itemsize newbyteorder partition ptp put resize searchsorted setfield setflags sort strides to_device tobytes tofile tostring trace view mT".split()
)


class Flat:
    """ndarray.flat"""

    def __init__(self, a):
        self.a = a

    def _v(self):
        v = reshape(self.a, (-1,), force_view=True)
        return v

    def __getitem__(self, k):
        return self._v()[k].copy() if isinstance(self._v()[k], Arr) else self._v()[k]

    def __setitem__(self, k, v):
        self._v()[k] = v

    def __iadd__(self, o):
        raise Unsupported("flat iadd")


# ---------------------------------------------------------------------------------------
def as_arr(x):
    if isinstance(x, Arr):
        return x
    x = T.unwrap(x)
    if isinstance(x, S) or T.is_num(x):
        return Arr.new(T.kind_of(x), (), lambda idx: x)
    if isinstance(x, Flat):
        return x._v().copy()
    if isinstance(x, (list, tuple)):
        return from_list(x)
    if isinstance(x, range):
        return from_list(list(x))
    if hasattr(x, "__vc_array__"):
        return x.__vc_array__()
    if type(x).__module__ == "numpy" and hasattr(x, "tolist"):
        return from_list(x.tolist(), shape=x.shape)
    raise Unsupported(f"array from {type(x).__name__}")


def pick(elems, i):
    """element i (z3 term) of a python list of scalars"""
    v = T.num_val(i)
    if v is not None:
        return elems[int(v)]
    r = elems[-1]
    for j in range(len(elems) - 2, -1, -1):
        r = site(i == j, elems[j], r)
    return r


def from_list(x, shape=None):
    x = list(x)
    if shape is not None and len(shape) == 0:
        raise Unsupported("0-d list")
    if len(x) == 0:
        return Arr.new("f", (0,), lambda idx: 0.0)
    items = []
    for e in x:
        e = T.unwrap(e)
        if isinstance(e, (list, tuple, range)):
            e = from_list(e)
        elif isinstance(e, Flat):
            e = as_arr(e)
        if e is None or isinstance(e, (str, bytes, dict)):
            raise Unsupported("object array")
        items.append(e)
    if all(not isinstance(e, Arr) or e.ndim == 0 for e in items):
        sc = [e.at() if isinstance(e, Arr) else e for e in items]
        k = "b"
        for e in sc:
            k = T.kmax(k, T.kind_of(e))
        sc = [T.cast(e, k) for e in sc]
        return Arr.new(k, (len(sc),), lambda idx: pick(sc, idx[0]))
    items = [as_arr(e) for e in items]
    k = "b"
    for e in items:
        k = T.kmax(k, e.kind)
        if e.ndim != items[0].ndim:
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        for d0, d1 in zip(e.shape, items[0].shape):
            if not same_dim(d0, d1):
                raise Unsupported("possibly ragged array")
    rds = [e.reader() for e in items]

    def fn(idx):
        v = T.num_val(idx[0])
        if v is not None:
            return T.cast(rds[int(v)](idx[1:]), k)
        return pick([T.cast(r(idx[1:]), k) for r in rds], idx[0])

    return Arr.new(k, (len(items),) + items[0].shape, fn)


def bshape(*shapes):
    """numpy broadcasting of shapes"""
    n = max((len(s) for s in shapes), default=0)
    out = []
    for ax in range(n):
        ds = []
        for s in shapes:
            j = ax - (n - len(s))
            if j >= 0:
                ds.append(s[j])
        r = 1
        for d in ds:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = d
                continue
            if same_dim(r, d):
                continue
            # symbolic mismatch: either could be 1
            if isinstance(d, S) or isinstance(r, S):
                tr, td = zi(r), zi(d)
                if T.ENG.branch(tr == td):
                    continue
                if T.ENG.branch(td == 1):
                    continue
                if T.ENG.branch(tr == 1):
                    r = d
                    continue
            raise ValueError(f"operands could not be broadcast together with shapes {shapes}")
        out.append(r)
    return tuple(out)


def bidx(shape, oshape, idx):
    """index of an operand of `shape` for a result index of a broadcast result"""
    n = len(oshape)
    off = n - len(shape)
    res = []
    for j, d in enumerate(shape):
        i = idx[off + j]
        if isinstance(d, int) and d == 1:
            res.append(z3.IntVal(0))
        elif isinstance(d, S) and not (oshape[off + j] is d) and not same_dim(d, oshape[off + j]):
            res.append(z3.IntVal(0))  # d == 1 on this path
        else:
            res.append(i)
    return tuple(res)


def emap(f, *args, kind=None):
    """element-wise map with broadcasting; f over scalars"""
    ops = [as_arr(a) for a in args]
    osh = bshape(*[o.shape for o in ops])
    rds = [o.reader() for o in ops]
    if kind is None:
        # probe the kind with a representative element
        kind = probe_kind(f, ops)

    bx = [T.ENG.bcast_plan(o.shape, osh) for o in ops]

    def fn(idx):
        return T.cast(f(*[r(p(idx)) for r, p in zip(rds, bx)]), kind)

    if len(osh) == 0 and not any(isinstance(a, Arr) for a in args):
        return fn(())
    a = Arr.new(kind, osh, fn)
    if len(osh) == 0:
        return a.at()
    return a


_REP = {"b": True, "i": 1, "f": 1.0, "c": 1 + 1j}


def probe_kind(f, ops):
    return T.kind_of(T.unwrap(f(*[_REP[o.kind] for o in ops])))


def binop(op, a, b):
    if isinstance(a, Flat):
        a = as_arr(a)
    if isinstance(b, Flat):
        b = as_arr(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == "==":
            return False
        if op == "!=":
            return True
        raise TypeError(f"unsupported operand {op}")
    if isinstance(a, dict) or isinstance(b, dict):
        raise TypeError("unsupported operand dict")
    ka, kb = as_arr(a).kind, as_arr(b).kind
    if op in ("==", "!=", "<", "<=", ">", ">="):
        kind = "b"
    elif op == "/":
        kind = T.kmax(T.kmax(ka, kb), "f")
    elif op == "**":
        kind = T.kmax(ka, kb)
        if ka in "bi" and kb in "bi" and T.is_num(T.unwrap(b)) and b < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
        if kind == "b":
            kind = "i"
    elif op in ("//", "%"):
        kind = T.kmax(T.kmax(ka, kb), "i")
    elif op == "-" and ka == "b" and kb == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    elif op in "&|^" and len(op) == 1 and (ka in "fc" or kb in "fc"):
        raise TypeError(f"ufunc bitwise {op} not supported for the input types")
    else:
        kind = T.kmax(ka, kb)
    return emap(lambda x, y: T.binop(op, x, y), a, b, kind=kind)


# ---------------------------------------------------------------------------------------
def transpose(a, axes):
    axes = tuple(int(x) % a.ndim if a.ndim else 0 for x in axes)
    if axes == tuple(range(a.ndim)):
        shape, perm = a.shape, None
    shape = tuple(a.shape[x] for x in axes)
    invp = [0] * len(axes)
    for j, x in enumerate(axes):
        invp[x] = j
    f0, i0 = a.fwd, a.inv

    def fwd(idx):
        t = tuple(idx[invp[x]] for x in range(len(axes)))
        return f0(t) if f0 else t

    def inv(b):
        c, t = i0(b) if i0 else (True, b)
        return c, tuple(t[x] for x in axes)

    r = Arr(a.buf, shape, fwd, inv)
    r.maybe_view = a.maybe_view
    return r


def ravel_idx(idx, shape):
    f = z3.IntVal(0)
    for i, d in zip(idx, shape):
        f = T._add(T._mul(f, zi(d)), i)
    return f


def unravel_idx(f, shape):
    out = []
    for d in reversed(shape[1:]):
        if isinstance(d, int) and d == 1:
            out.append(z3.IntVal(0))
            continue
        out.append(T.imod(f, zi(d)))
        f = T.idiv(f, zi(d))
    if shape:
        out.append(f)
    return tuple(reversed(out))


def _cancel(total, others):
    """total / prod(others) over dimension terms"""
    tf = []
    for d in total:
        tf += T._factors(zi(d))
    for d in others:
        for f in T._factors(zi(d)):
            for j, g in enumerate(tf):
                if g.eq(f):
                    tf.pop(j)
                    break
            else:
                # numeric?
                tot, oth = prod(total), prod(others)
                ti, oi = zi(tot), zi(oth)
                T.ENG.require(oi > 0, "reshape: inferred dimension")
                q = T.idiv(ti, oi)
                T.ENG.require(T._mul(q, oi) == ti, "reshape: size not divisible")
                return mkdim(q)
    r = z3.IntVal(1)
    for f in tf:
        r = T._mul(r, f)
    return mkdim(r)


def reshape(a, shape, force_view=False):
    shape = [T.unwrap(s) for s in shape]
    shape = [s.at() if isinstance(s, Arr) and s.ndim == 0 else s for s in shape]
    shape = [int(s) if isinstance(s, float) else s for s in shape]
    for s in shape:
        if isinstance(s, S) and s.kind != "i":
            raise TypeError("reshape with a float dimension")
    neg = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        others = [s for j, s in enumerate(shape) if j != neg[0]]
        shape[neg[0]] = _cancel(a.shape, others) if others else prod(a.shape)
    shape = tuple(mkdim(zi(s)) if not isinstance(s, int) else s for s in shape)
    old = a.shape
    # align groups of axes
    groups = []
    i = j = 0
    ok = True
    while i < len(old) or j < len(shape):
        gi, gj = [], []
        if i < len(old):
            gi.append(i)
            i += 1
        if j < len(shape):
            gj.append(j)
            j += 1
        pa, pb = prod([old[x] for x in gi]), prod([shape[x] for x in gj])
        while not same_dim(pa, pb):
            # extend the smaller side; heuristically try both
            ext = False
            if i < len(old) and not ext:
                for look in range(i, len(old)):
                    pa2 = prod([old[x] for x in gi] + [old[x] for x in range(i, look + 1)])
                    if same_dim(pa2, pb):
                        gi += list(range(i, look + 1))
                        i = look + 1
                        pa = pa2
                        ext = True
                        break
            if not ext and j < len(shape):
                for look in range(j, len(shape)):
                    pb2 = prod([shape[x] for x in gj] + [shape[x] for x in range(j, look + 1)])
                    if same_dim(pa, pb2):
                        gj += list(range(j, look + 1))
                        j = look + 1
                        pb = pb2
                        ext = True
                        break
            if not ext:
                if i < len(old):
                    gi.append(i)
                    i += 1
                elif j < len(shape):
                    gj.append(j)
                    j += 1
                else:
                    ok = False
                    break
                if j < len(shape) and i <= len(old):
                    pass
                pa, pb = prod([old[x] for x in gi]), prod([shape[x] for x in gj])
        if not ok:
            # sizes differ
            ta, tb = zi(prod(old)), zi(prod(shape))
            if not T.ENG.branch(ta == tb):
                raise ValueError(f"cannot reshape array of size {ta} into shape {shape}")
            groups = [(list(range(len(old))), list(range(len(shape))))]
            break
        groups.append((gi, gj))
    # merge degenerate groups (size-1 axes with no counterpart are fine)

    def to_old(idx):
        res = [z3.IntVal(0)] * len(old)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                res[gi[0]] = idx[gj[0]]
                continue
            f = ravel_idx([idx[x] for x in gj], [shape[x] for x in gj])
            u = unravel_idx(f, [old[x] for x in gi])
            for x, t in zip(gi, u):
                res[x] = t
        return tuple(res)

    def to_new(idx):
        res = [z3.IntVal(0)] * len(shape)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                res[gj[0]] = idx[gi[0]]
                continue
            f = ravel_idx([idx[x] for x in gi], [old[x] for x in gi])
            u = unravel_idx(f, [shape[x] for x in gj])
            for x, t in zip(gj, u):
                res[x] = t
        return tuple(res)

    trivial = all(len(g[0]) == 1 and len(g[1]) == 1 for g in groups)
    if a.fwd is None or force_view or trivial:
        f0, i0 = a.fwd, a.inv

        def fwd(idx):
            t = to_old(idx)
            return f0(t) if f0 else t

        def inv(b):
            c, t = i0(b) if i0 else (True, b)
            return c, to_new(t)

        r = Arr(a.buf, shape, fwd, inv)
        if trivial:
            r.inverse, r.meta = a.inverse, a.meta
        return r
    rd = a.reader()
    r = Arr.new(a.kind, shape, lambda idx: rd(to_old(idx)))
    r.maybe_view = True
    return r


# ---------------------------------------------------------------------------------------
def reshape_order(a, shape, order):
    if order == "C" or a.ndim <= 1 and len(shape) <= 1:
        return reshape(a, shape)
    if order != "F":
        raise T.Unsupported(f"order {order}")
    return transpose_all(reshape(transpose_all(a).frozen(), tuple(reversed(shape)))).frozen()


def transpose_all(a):
    return transpose(a, tuple(reversed(range(a.ndim))))


def norm_slice(sl, n):
    """slice -> (start, len, step) ; start/len z3 Int, step python int"""
    E = T.ENG

    def val(x):
        x = T.unwrap(x)
        if isinstance(x, Arr):
            if x.ndim == 0:
                x = x.at()
            elif all(isinstance(d, int) and d == 1 for d in x.shape):
                raise TypeError("only integer scalar arrays can be converted to a scalar index")
            else:
                raise TypeError("only integer scalar arrays can be converted to a scalar index")
        if isinstance(x, float) or (isinstance(x, S) and x.kind in "fc"):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        return zi(x)

    step = 1 if sl.step is None else T.unwrap(sl.step)
    if isinstance(step, S):
        # symbolic positive step
        st = step.re
        if not E.must(st > 0):
            raise Unsupported("symbolic slice step of unknown sign")
        start = clamp(val(sl.start), n) if sl.start is not None else z3.IntVal(0)
        stop = clamp(val(sl.stop), n) if sl.stop is not None else n
        d = T._sub(stop, start)
        ln = T.idiv(T._sub(T._add(d, st), z3.IntVal(1)), st)
        if not E.must(d >= 0):
            ln = z3.If(d >= 0, ln, 0)
        return start, ln, st
    if step == 1:
        start = clamp(val(sl.start), n) if sl.start is not None else z3.IntVal(0)
        stop = clamp(val(sl.stop), n) if sl.stop is not None else n
        ln = T._sub(stop, start)
        if T.num_val(ln) is not None:
            ln = z3.IntVal(max(0, T.num_val(ln)))
        elif sl.start is None or E.must(ln >= 0):
            pass
        else:
            ln = z3.If(ln >= 0, ln, 0)
        return start, ln, 1
    if step > 1:
        start = clamp(val(sl.start), n) if sl.start is not None else z3.IntVal(0)
        stop = clamp(val(sl.stop), n) if sl.stop is not None else n
        d = T._sub(stop, start)
        ln = T.idiv(T._add(d, z3.IntVal(step - 1)), z3.IntVal(step))
        if T.num_val(ln) is not None:
            ln = z3.IntVal(max(0, T.num_val(ln)))
        elif not E.must(d >= 0):
            ln = z3.If(d >= 0, ln, 0)
        return start, ln, step
    if step == -1 and sl.start is None and sl.stop is None:
        return T._sub(n, z3.IntVal(1)), n, -1
    if step < 0:
        def clampn(x):
            neg = E.must(x < 0)
            if neg:
                y = T._add(x, n)
            elif E.must(x >= 0):
                y = x
            else:
                y = z3.If(x < 0, x + n, x)
            y = z3.If(y < -1, z3.IntVal(-1), z3.If(y > n - 1, n - 1, y))
            y2 = z3.simplify(y)
            return y2
        start = clampn(val(sl.start)) if sl.start is not None else T._sub(n, z3.IntVal(1))
        stop = clampn(val(sl.stop)) if sl.stop is not None else z3.IntVal(-1)
        d = start - stop
        ln = T.idiv(z3.simplify(d + (-step - 1)), z3.IntVal(-step))
        ln = z3.simplify(z3.If(d > 0, ln, 0))
        return start, ln, step
    raise ValueError("slice step cannot be zero")


def clamp(x, n):
    E = T.ENG
    v, vn = T.num_val(x), T.num_val(n)
    if v is not None and vn is not None:
        if v < 0:
            v += vn
        return z3.IntVal(min(max(v, 0), vn))
    if (v is not None and v >= 0) or (v is None and E.must(x >= 0)):
        y = x
    elif (v is not None and v < 0) or E.must(x < 0):
        y = T._add(n, x)
        if E.must(y >= 0):
            return y
        return z3.If(y < 0, z3.IntVal(0), y)
    else:
        y = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
    if E.must(y <= n):
        return y
    return z3.If(y > n, n, y)


def norm_int(i, n, what="index"):
    """integer index with bounds obligation; returns z3 Int"""
    E = T.ENG
    v, vn = T.num_val(i), T.num_val(n)
    if v is not None and vn is not None:
        if v < -vn or v >= vn:
            raise IndexError(f"index {v} is out of bounds for axis with size {vn}")
        return z3.IntVal(v % vn if v < 0 else v)
    if E.in_lambda:
        pass
    ok = z3.And(i >= -n, i < n)
    if not E.must(ok):
        E.require(ok, "index in bounds", exc=IndexError)
    if E.must(i >= 0):
        return i
    if E.must(i < 0):
        return T._add(i, n)
    return z3.If(i < 0, i + n, i)


def is_adv(k):
    return isinstance(k, (Arr, list)) or (isinstance(k, tuple)) or (type(k).__module__ == "numpy" and hasattr(k, "ndim") and k.ndim > 0) or isinstance(k, range)


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [k.a if isinstance(k, Flat) else k for k in key]
    key = [T.unwrap(k) for k in key]
    out = []
    n = 0
    for k in key:
        if k is None or k is Ellipsis or isinstance(k, slice):
            out.append(k)
        elif is_adv(k):
            k = as_arr(k)
            if k.kind == "f" and k.ndim == 1 and isinstance(k.shape[0], int) and k.shape[0] == 0:
                k = Arr.new("i", (0,), lambda idx: 0)
            if k.kind in "fc":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            if k.ndim == 0:
                out.append(k.at())
            else:
                out.append(k)
        elif isinstance(k, S) or T.is_num(k):
            kk = T.kind_of(k)
            if kk in "fc":
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            if kk == "b":
                raise Unsupported("boolean scalar index")
            out.append(k)
        elif isinstance(k, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        else:
            raise Unsupported(f"index of type {type(k).__name__}")
    used = sum(0 if (k is None or k is Ellipsis) else (k.ndim if isinstance(k, Arr) and k.kind == "b" else 1) for k in out)
    if used > a.ndim:
        raise IndexError("too many indices for array")
    if any(k is Ellipsis for k in out):
        p = [j for j, k in enumerate(out) if k is Ellipsis][0]
        out = out[:p] + [slice(None)] * (a.ndim - used) + out[p + 1:]
    else:
        out = out + [slice(None)] * (a.ndim - used)
    return out


def getitem(a, key):
    out = expand_key(a, key)
    if not any(isinstance(k, Arr) for k in out):
        return basic_view(a, out)
    return adv_get(a, out)


def basic_view(a, out):
    plan = []  # per source axis: ('int', t) | ('sl', start, step, outaxis)
    shape = []
    ax = 0
    for k in out:
        if k is None:
            shape.append(1)
            continue
        n = zi(a.shape[ax])
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                plan.append(("id", len(shape)))
                shape.append(a.shape[ax])
            else:
                st, ln, step = norm_slice(k, n)
                plan.append(("sl", st, step, len(shape)))
                shape.append(mkdim(ln))
        else:
            plan.append(("int", norm_int(zi(k), n)))
        ax += 1
    f0, i0 = a.fwd, a.inv
    oshape = tuple(shape)

    def fwd(idx):
        t = []
        for p in plan:
            if p[0] == "int":
                t.append(p[1])
            elif p[0] == "id":
                t.append(idx[p[1]])
            else:
                t.append(_affine(p[1], p[2], idx[p[3]]))
        t = tuple(t)
        return f0(t) if f0 else t

    def inv(b):
        c, t = i0(b) if i0 else (True, b)
        res = [z3.IntVal(0)] * len(oshape)
        for p, x in zip(plan, t):
            if p[0] == "int":
                c = And(c, eq_ix(x, p[1]))
            elif p[0] == "id":
                res[p[1]] = x
            else:
                d = T._sub(x, p[1])
                step = p[2]
                ln = zi(oshape[p[3]])
                if isinstance(step, int) and step == 1:
                    i = d
                elif isinstance(step, int) and step == -1:
                    i = T._neg(d)
                else:
                    if isinstance(step, int) and step < 0:
                        d, stp = T._neg(d), z3.IntVal(-step)
                    else:
                        stp = zi(step)
                    c = And(c, _cmp(T.imod(d, stp), z3.IntVal(0), "=="))
                    i = T.idiv(d, stp)
                c = And(c, _cmp(i, z3.IntVal(0), ">="), _cmp(i, ln, "<"))
                res[p[3]] = i
        return c, tuple(res)

    if not oshape and all(p[0] == "int" for p in plan):
        rd = a.buf.reader()
        return rd(fwd(()))
    r = Arr(a.buf, oshape, fwd, inv)
    r.maybe_view = a.maybe_view
    # inverse of 1-D slice of an invertible array
    if a.inverse is not None and len(plan) == 1 and plan[0][0] in ("sl", "id") and len(oshape) == 1:
        p = plan[0]
        if p[0] == "id":
            r.inverse = a.inverse
        elif p[2] == 1:
            ainv = a.inverse
            st, ln = p[1], zi(oshape[0])

            def inverse(v):
                c, k = ainv(v)
                return And(c, _cmp(k, st, ">="), _cmp(k, T._add(st, ln), "<")), T._sub(k, st)

            r.inverse = inverse
    return r


def _affine(st, step, i):
    if isinstance(step, int):
        if step == 1:
            return T._add(st, i)
        return T._add(st, T._mul(z3.IntVal(step), i))
    return T._add(st, T._mul(step, i))


def _cmp(a, b, op):
    va, vb = T.num_val(a), T.num_val(b)
    if va is not None and vb is not None:
        return {"==": va == vb, ">=": va >= vb, "<": va < vb, "<=": va <= vb, ">": va > vb}[op]
    if a.eq(b):
        return op in ("==", ">=", "<=")
    return {"==": a == b, ">=": a >= b, "<": a < b, "<=": a <= b, ">": a > b}[op]


def eq_ix(a, b):
    return _cmp(a, b, "==")


def check_all_in_bounds(arr, n):
    """obligation: every element of int array arr is a valid index for size n. Returns 'nonneg' flag"""
    E = T.ENG
    rd = arr.reader()
    info = arr.meta or {}
    if "range" in info:
        lo, hi = info["range"]
        if E.must(And(_cmp(lo, z3.IntVal(0), ">="), _cmp(hi, n, "<="))):
            return True
    with E.scoped() as sc:
        idx = tuple(sc.fresh_index(d) for d in arr.shape)
        if E.scope_infeasible():
            return True
        v = zi(rd(idx))
        nonneg = E.must_strong(v >= 0)
        ok = z3.And(v >= -n, v < n) if not nonneg else v < n
        E.require_scoped(ok, "fancy index in bounds", exc=IndexError)
    return nonneg


def wrap_neg(v, n, nonneg):
    if nonneg:
        return v
    if T.num_val(v) is not None:
        return v if T.num_val(v) >= 0 else T._add(v, n)
    return z3.If(v < 0, v + n, v)


def split_adv(a, out):
    """resolve boolean arrays to nonzero tuples; returns list of (key, axis) plus adv list"""
    from . import npshim

    items = []
    ax = 0
    has_arr = True
    for k in out:
        if k is None:
            items.append(("new", None, None))
            continue
        if isinstance(k, Arr) and k.kind == "b":
            for d in range(k.ndim):
                if not same_dim(k.shape[d], a.shape[ax + d]):
                    if T.ENG.branch(zi(k.shape[d]) == zi(a.shape[ax + d])):
                        continue
                    raise IndexError("boolean index did not match indexed array")
            nz = npshim.nonzero(k)
            for d in range(k.ndim):
                items.append(("adv", nz[d], ax))
                ax += 1
        elif isinstance(k, Arr):
            items.append(("adv", k, ax))
            ax += 1
        elif isinstance(k, slice):
            items.append(("sl", k, ax))
            ax += 1
        else:
            items.append(("advint", k, ax))
            ax += 1
    return items


def adv_layout(a, items):
    advs = [(j, it) for j, it in enumerate(items) if it[0] in ("adv", "advint")]
    adv_shapes = [it[1].shape for j, it in advs if it[0] == "adv"]
    bsh = bshape(*adv_shapes)
    pos = [j for j, it in advs]
    contiguous = all(pos[x + 1] == pos[x] + 1 for x in range(len(pos) - 1))
    out_shape = []
    where = {}
    adv_at = None
    if not contiguous:
        adv_at = 0
        out_shape += list(bsh)
    for j, it in enumerate(items):
        if it[0] in ("adv", "advint"):
            if contiguous and adv_at is None:
                adv_at = len(out_shape)
                out_shape += list(bsh)
            continue
        if it[0] == "new":
            where[j] = len(out_shape)
            out_shape.append(1)
        else:
            n = zi(a.shape[it[2]])
            k = it[1]
            if k.start is None and k.stop is None and k.step is None:
                st, ln, step = z3.IntVal(0), n, 1
            else:
                st, ln, step = norm_slice(k, n)
            where[j] = (len(out_shape), st, ln, step)
            out_shape.append(mkdim(ln))
    return bsh, adv_at, tuple(out_shape), where


def adv_get(a, out):
    items = split_adv(a, out)
    bsh, adv_at, oshape, where = adv_layout(a, items)
    rd = a.reader()
    plan = []
    for j, it in enumerate(items):
        if it[0] == "adv":
            n = zi(a.shape[it[2]])
            nonneg = check_all_in_bounds(it[1], n)
            plan.append(("adv", it[1].reader(), T.ENG.bcast_plan(it[1].shape, bsh), n, nonneg))
        elif it[0] == "advint":
            plan.append(("int", norm_int(zi(it[1]), zi(a.shape[it[2]]))))
        elif it[0] == "sl":
            plan.append(("sl",) + where[j])
    nb = len(bsh)

    def src(idx):
        bi = idx[adv_at: adv_at + nb]
        t = []
        for p in plan:
            if p[0] == "adv":
                t.append(wrap_neg(zi(p[1](p[2](bi))), p[3], p[4]))
            elif p[0] == "int":
                t.append(p[1])
            else:
                t.append(_affine(p[2], p[4], idx[p[1]]))
        return tuple(t)

    r = Arr.new(a.kind, oshape, lambda idx: rd(src(idx)))
    # composition of inverses: x[idx] with both invertible, 1-D
    if a.ndim == 1 and len(oshape) == 1 and a.inverse is not None and len(items) == 1 and items[0][0] == "adv" and items[0][1].inverse is not None:
        ainv, kinv = a.inverse, items[0][1].inverse

        def inverse(v):
            c, k = ainv(v)
            c2, k2 = kinv(k)
            return And(c, c2), k2

        r.inverse = inverse
    if len(oshape) == 0:
        return r.at()
    return r


def assign(view, val):
    """view[...] = val"""
    if view.maybe_view:
        raise Unsupported("write through an array that may or may not be a view")
    v = as_arr(val)
    # strip leading 1-dims of value
    vsh = v.shape
    if len(vsh) > len(view.shape):
        extra = len(vsh) - len(view.shape)
        for d in vsh[:extra]:
            if not (isinstance(d, int) and d == 1) and not T.ENG.must(zi(d) == 1):
                raise ValueError("could not broadcast input array into shape")
        v = reshape(v, vsh[extra:])
        vsh = v.shape
    for j, d in enumerate(vsh):
        t = view.shape[len(view.shape) - len(vsh) + j]
        if isinstance(d, int) and d == 1:
            continue
        if same_dim(d, t):
            continue
        if T.ENG.branch(zi(d) == zi(t)):
            continue
        if isinstance(d, S) and T.ENG.branch(zi(d) == 1):
            continue
        raise ValueError(f"could not broadcast input array from shape {vsh} into shape {view.shape}")
    if v.kind == "c" and view.kind != "c":
        if v.ndim == 0:
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
    rd = v.reader()
    bp = T.ENG.bcast_plan(vsh, view.shape)
    inv = view.inv
    kind = view.kind
    if inv is None:
        view.buf.write(lambda b: True, lambda b: rd(bp(b)))
    else:
        view.buf.write(lambda b: inv(b)[0], lambda b: rd(bp(inv(b)[1])))
    if kind == "i" and v.kind in "fc":
        pass


def setitem(a, key, val):
    if isinstance(val, Arr) and isinstance(val, Arr) and val.buf is a.buf:
        # a[s] = a[s] after an in-place operation on the same view: copy first (numpy semantics)
        val = val.frozen()
    if isinstance(key, tuple) and (not isinstance(val, Arr) or val.ndim == 0) and not isinstance(val, (list, tuple)) and sum(is_adv(k) for k in key) == 1:
        # storing one value: an index array's extra unit axis makes no difference
        key = tuple(k[0] if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Arr) and k[0].ndim == 1 and k[0].kind == "i" else k for k in key)
    out = expand_key(a, key)
    if not any(isinstance(k, Arr) for k in out):
        if all(not isinstance(k, slice) and k is not None for k in out):
            # single element
            v = val
            if isinstance(v, Arr):
                if v.ndim == 0:
                    v = v.at()
                elif T.ENG.must(zi(v.size) == 1):
                    if v.ndim > 0:
                        raise ValueError("setting an array element with a sequence.")
                else:
                    raise ValueError("setting an array element with a sequence.")
            elif isinstance(v, (list, tuple)):
                raise ValueError("setting an array element with a sequence.")
            if v is None:
                v = float("nan")
            if T.kind_of(T.unwrap(v)) == "c" and a.kind != "c":
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            if a.maybe_view:
                raise Unsupported("write through an array that may or may not be a view")
            pos = tuple(norm_int(zi(k), zi(n)) for k, n in zip(out, a.shape))
            bpos = a.fwd(pos) if a.fwd else pos
            a.buf.write(lambda b: And(*[eq_ix(x, y) for x, y in zip(b, bpos)]), lambda b: v)
            return
        assign(basic_view(a, out), val)
        return
    adv_set(a, out, val)


def adv_set(a, out, val):
    E = T.ENG
    if a.maybe_view:
        raise Unsupported("write through an array that may or may not be a view")
    val = as_arr(val) if not isinstance(val, Arr) else val
    arrs = [k for k in out if isinstance(k, Arr)]
    # pure boolean mask with scalar-like value along mask axes
    if len(arrs) == 1 and arrs[0].kind == "b" and val.ndim == 0:
        m = arrs[0]
        mrd = m.reader()
        ax = 0
        plan = []
        for k in out:
            if isinstance(k, Arr):
                for d in range(m.ndim):
                    if not same_dim(m.shape[d], a.shape[ax + d]):
                        if not E.branch(zi(m.shape[d]) == zi(a.shape[ax + d])):
                            raise IndexError("boolean index did not match indexed array")
                plan.append(("mask", ax, m.ndim))
                ax += m.ndim
            elif isinstance(k, slice):
                st, ln, step = norm_slice(k, zi(a.shape[ax])) if not (k.start is None and k.stop is None and k.step is None) else (None, None, 1)
                plan.append(("sl", ax, st, ln, step))
                ax += 1
            elif k is None:
                raise Unsupported("newaxis in mask assignment")
            else:
                plan.append(("int", ax, norm_int(zi(k), zi(a.shape[ax]))))
                ax += 1
        i0 = a.inv
        v = val.at()

        def cond(b):
            c, t = i0(b) if i0 else (True, b)
            for p in plan:
                if p[0] == "mask":
                    c = And(c, T.truth(mrd(tuple(t[p[1]: p[1] + p[2]]))))
                elif p[0] == "int":
                    c = And(c, eq_ix(t[p[1]], p[2]))
                elif p[2] is not None:
                    if p[4] != 1:
                        raise Unsupported("strided mask assignment")
                    c = And(c, _cmp(t[p[1]], p[2], ">="), _cmp(t[p[1]], T._add(p[2], p[3]), "<"))
            return c

        a.buf.write(cond, lambda b: v)
        return
    items = split_adv(a, out)
    bsh, adv_at, oshape, where = adv_layout(a, items)
    advs = [it for it in items if it[0] == "adv"]
    nonnegs = []
    for it in advs:
        nonnegs.append(check_all_in_bounds(it[1], zi(a.shape[it[2]])))
    # value broadcast against oshape
    vsh = val.shape
    while len(vsh) > len(oshape):
        if isinstance(vsh[0], int) and vsh[0] == 1:
            val = reshape(val, vsh[1:])
            vsh = val.shape
        else:
            raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
    for j, d in enumerate(vsh):
        t = oshape[len(oshape) - len(vsh) + j]
        if isinstance(d, int) and d == 1:
            continue
        if same_dim(d, t):
            continue
        if E.branch(zi(d) == zi(t)):
            continue
        if isinstance(d, S) and E.branch(zi(d) == 1):
            continue
        raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
    vrd = val.reader()
    bp = E.bcast_plan(vsh, oshape)
    nb = len(bsh)
    # find, for a buffer coordinate, (hit, broadcast index)
    nz_group = [it for it in advs if it[1].meta and "nz" in it[1].meta]
    if len(advs) > 1 and len(nz_group) == len(advs) and len({id(it[1].meta["nz"]) for it in advs}) == 1 and len(advs) == advs[0][1].meta["nz"].ndim:
        nz = advs[0][1].meta["nz"]
        order = sorted(range(len(advs)), key=lambda x: advs[x][1].meta["axis"])
        axs = [advs[x][2] for x in order]

        def locate(t):
            coords = tuple(t[x] for x in axs)
            return nz.inverse(coords)

        def locate_b(t):
            c, k = locate(t)
            return c, (k,)
    elif all(it[1].inverse is not None and nn for it, nn in zip(advs, nonnegs)) and _distinct_axes(advs, bsh):
        axmap = [_own_axis(it[1].shape, bsh) for it in advs]

        def locate_b(t):
            c = True
            bi = [z3.IntVal(0)] * nb
            for it, ax in zip(advs, axmap):
                c1, k = it[1].inverse(t[it[2]])
                c = And(c, c1)
                bi[ax] = k
            return c, tuple(bi)
    else:
        rds = [(it[1].reader(), E.bcast_plan(it[1].shape, bsh), zi(a.shape[it[2]]), nn, it[2]) for it, nn in zip(advs, nonnegs)]

        def idxfun(bi):
            return [wrap_neg(zi(r(p(bi))), n, nn) for r, p, n, nn, _ in rds]

        lw = E.last_writer(idxfun, bsh)

        def locate_b(t):
            return lw([t[x[4]] for x in rds])

    ints = [(it[2], norm_int(zi(it[1]), zi(a.shape[it[2]]))) for it in items if it[0] == "advint"]
    slices = [(it[2],) + where[j] for j, it in enumerate(items) if it[0] == "sl"]
    i0 = a.inv

    def full(b):
        c, t = i0(b) if i0 else (True, b)
        for ax, pos in ints:
            c = And(c, eq_ix(t[ax], pos))
        oi = [z3.IntVal(0)] * len(oshape)
        for ax, o, st, ln, step in slices:
            if step != 1:
                raise Unsupported("strided advanced assignment")
            k = T._sub(t[ax], st)
            if T.num_val(st) == 0 and ln.eq(zi(a.shape[ax])):
                pass
            else:
                c = And(c, _cmp(k, z3.IntVal(0), ">="), _cmp(k, ln, "<"))
            oi[o] = k
        c2, bi = locate_b(t)
        c = And(c, c2)
        for x in range(nb):
            oi[adv_at + x] = bi[x]
        return c, tuple(oi)

    a.buf.write(lambda b: full(b)[0], lambda b: vrd(bp(full(b)[1])))


def _own_axis(shape, bsh):
    """the single broadcast axis along which this index array varies"""
    off = len(bsh) - len(shape)
    var = [off + j for j, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(shape) == 1:
        return off
    return var[0] if len(var) == 1 else None


def _distinct_axes(advs, bsh):
    own = []
    for it in advs:
        if it[1].ndim != 1 and it[1].inverse is None:
            return False
        ax = _own_axis(it[1].shape, bsh)
        if ax is None or ax in own:
            return False
        own.append(ax)
    return len(own) == len(bsh)
