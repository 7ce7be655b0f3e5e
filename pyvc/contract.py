"""Contracts: one text, two readings.

A contract names a function of /repo and states preconditions, postconditions, frame conditions and loop
invariants through the small assertion language `c` below. The symbolic reading (symctx.py, under z3) turns
them into proof obligations over the real body; the concrete reading (this file) evaluates the same clauses
on the real function running in the repository's own interpreter, and is what replays counterexamples and
what stands in (labelled bounded) for functions outside the verifier's reach. This file imports no solver."""
import math
import os
import copy
import random
import numpy as np

REGISTRY = {}


class Skip(Exception):
    """the generated input does not satisfy the precondition"""


class NSp:
    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]


class Contract:
    target = None
    prop = None
    level = "proof"  # 'proof' or 'bounded'
    cases = ({},)
    invariants = {}
    models = {}
    inline_only = True
    bound = "random inputs"
    n_quick = 150  # concrete runs in the quick tier
    n_thorough = 3000
    tol = 1e-7
    prove_ms = 8000
    budget_s = 120
    why_bounded = ""
    cfg = {}

    def inputs(self, b, case):
        raise NotImplementedError

    def requires(self, c, a):
        return ()

    def call(self, f, a):
        return f(**a.__dict__)

    def ensures(self, c, a, old, r):
        return ()

    def may_raise(self, c, a, exc):
        """formula under which exception `exc` is allowed"""
        return False

    def known(self, c, a, clause):
        """id of a known finding that explains the failing clause on this input, or None"""
        return None


def contract(cls):
    o = cls()
    o.name = cls.__name__
    assert o.name not in REGISTRY, o.name
    REGISTRY[o.name] = o
    return cls


def load_all():
    import importlib, pkgutil, os, sys

    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    sys.path.insert(0, os.path.dirname(here))
    for m in sorted(pkgutil.iter_modules([here]), key=lambda m: m.name):
        importlib.import_module("contracts." + m.name)
    return REGISTRY


# ------------------------------------------------------------------------------ concrete assertions
class Ctx:
    symbolic = False
    pi = math.pi

    def __init__(self, tol=1e-7):
        self.tol = tol
        self.fail = None

    # access
    def __call__(self, x, *i):
        v = x[tuple(int(k) for k in i)] if i else x
        return v.item() if hasattr(v, "item") and getattr(v, "ndim", 0) == 0 else v

    at = __call__

    def shape(self, x):
        return tuple(np.shape(x))

    def dim(self, x, k=0):
        return np.shape(x)[k]

    def size(self, x):
        return int(np.size(x))

    def ndim(self, x):
        return np.ndim(x)

    def kind(self, x):
        return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(np.asarray(x).dtype.kind, "o")

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    # logic
    def _b(self, p):
        return bool(p() if callable(p) else p)

    def and_(self, *ps):
        return all(self._b(p) for p in ps)

    def or_(self, *ps):
        return any(self._b(p) for p in ps)

    def not_(self, p):
        return not self._b(p)

    def implies(self, p, q):
        return (not self._b(p)) or self._b(q)

    def iff(self, p, q):
        return self._b(p) == self._b(q)

    def ite(self, p, x, y):
        r = x if self._b(p) else y
        return r() if callable(r) else r

    def ranges(self, dims):
        if not isinstance(dims, (list, tuple)) or (len(dims) == 2 and isinstance(dims, tuple) and False):
            dims = [dims]
        return [range(int(d[0]), int(d[1])) if isinstance(d, tuple) else range(int(d)) for d in dims]

    def forall(self, dims, f):
        import itertools

        for idx in itertools.product(*self.ranges(dims)):
            if not self._b(f(*idx)):
                if self.fail is None:
                    self.fail = idx
                return False
        return True

    def exists(self, dims, f, witness=None):
        import itertools

        return any(self._b(f(*idx)) for idx in itertools.product(*self.ranges(dims)))

    # arithmetic
    def sum(self, lo, hi, f):
        t = 0
        for k in range(int(lo), int(hi)):
            t = t + f(k)
        return t

    def reduce(self, tag, n, f, extra, conc):
        import numpy as np

        return conc(np.array([f(k) for k in range(int(n))], dtype=float), *extra)

    def where(self, n, f):
        import numpy as np

        return np.array([k for k in range(int(n)) if self._b(f(k))], dtype=int)

    def std(self, n, f):
        import numpy as np

        return float(np.std([f(k) for k in range(int(n))])) if n else float("nan")

    def num(self, x):
        return x

    def median(self, n, f):
        import numpy as np

        return float(np.median([f(k) for k in range(int(n))]))

    def count(self, lo, hi, f):
        return sum(1 for k in range(int(lo), int(hi)) if self._b(f(k)))

    def eq(self, x, y, scale=0.0):
        x, y = complex(x), complex(y)
        if x != x or y != y:
            return False
        if x == y:
            return True
        d = abs(x - y)
        return d <= self.tol * max(abs(x), abs(y), abs(scale), 1.0)

    def same(self, x, y, scale=0.0):
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            return x == y
        cx, cy = complex(x), complex(y)
        if cx != cx or cy != cy:
            return (cx != cx) == (cy != cy)
        return self.eq(x, y, scale)

    def le(self, x, y):
        return x <= y + self.tol * max(abs(x), abs(y), 1.0)

    def lt(self, x, y):
        return x < y

    def approx_boundary(self, x, y):
        """x and y are so close that rounding decides a comparison"""
        return abs(x - y) <= self.tol * max(abs(x), abs(y), 1.0)

    def isnan(self, x):
        x = complex(x)
        return x != x

    def finite(self, x):
        x = complex(x)
        return math.isfinite(x.real) and math.isfinite(x.imag)

    def floor(self, x):
        return math.floor(x)

    def trunc(self, x):
        return math.trunc(x)

    def abs(self, x):
        return abs(x)

    def re(self, x):
        return complex(x).real

    def im(self, x):
        return complex(x).imag

    def conj(self, x):
        return complex(x).conjugate() if isinstance(x, (complex, np.complexfloating)) else x

    def cplx(self, re, im):
        return complex(re, im)

    @property
    def pi(self):
        return math.pi

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def tan(self, x):
        return math.tan(x)

    def radians(self, x):
        return math.radians(x)

    def exp(self, x):
        return math.exp(x)

    def div(self, a, b):
        return a // b

    def mod(self, a, b):
        return a % b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    # composite
    def same_shape(self, x, y):
        return self.shape(x) == self.shape(y)

    def is_shape(self, x, *dims):
        return self.shape(x) == tuple(int(d) for d in dims)

    def all_same(self, x, y):
        """same shape and identical elements (NaN = NaN)"""
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            self.fail = ("shape", x.shape, y.shape)
            return False
        return self.forall(list(x.shape), lambda *i: self.same(self(x, *i), self(y, *i)))

    def all_is(self, x, f):
        """forall idx: x[idx] = f(idx)"""
        x = np.asarray(x)
        return self.forall(list(x.shape), lambda *i: self.same(self(x, *i), f(*i)))

    def unchanged(self, x, old):
        """deep frame condition"""
        return deep_same(x, old)

    def no_alias(self, x, y):
        return not np.shares_memory(x, y)

    def assume_lemma(self, *a):
        return True


def deep_same(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and x.keys() == y.keys() and all(deep_same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(deep_same(p, q) for p, q in zip(x, y))
    if isinstance(x, np.ndarray):
        if not isinstance(y, np.ndarray) or x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype == object:
            return all(deep_same(p, q) for p, q in zip(x.ravel(), y.ravel()))
        if x.dtype.names:
            return all(deep_same(x[n], y[n]) for n in x.dtype.names)
        if x.dtype.kind in "fc":
            return bool(np.array_equal(x, y, equal_nan=True))
        return bool(np.array_equal(x, y))
    if isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
        return x == y or (x != x and y != y)
    if hasattr(x, "__dict__") and type(x).__module__ in ("types",):
        return deep_same(vars(x), vars(y))
    try:
        return bool(x == y) or x is y
    except Exception:
        return x is y


# ------------------------------------------------------------------------------ concrete input builder
class Builder:
    """random (or replayed) concrete inputs"""

    symbolic = False
    DT = {"i": np.int64, "f": np.float64, "c": np.complex128, "b": np.bool_}

    def __init__(self, rng, given=None, size=4):
        self.rng = rng
        self.given = given or {}
        self.size = size
        self.log = {}
        self.c = Ctx()

    def int(self, name, lo=0, hi=None, size=None):
        if name in self.given:
            v = int(self.given[name])
        else:
            lo_ = int(lo) if lo is not None else -3
            h = lo_ + (self.size if size is None else size)
            if hi is not None:
                h = min(h, int(hi))
            if h < lo_:
                raise Skip
            v = self.rng.randint(lo_, h)
        self.log[name] = v
        return v

    def real(self, name, lo=None, hi=None, vals=None):
        if name in self.given:
            v = float(self.given[name])
        elif vals:
            v = float(self.rng.choice(vals))
        else:
            l, h = (-4 if lo is None else lo), (6 if hi is None else hi)
            if hi is None and lo is not None:
                h = l + 6
            if lo is None and hi is not None:
                l = h - 6
            v = self.rng.uniform(l, h) if self.rng.random() < 0.6 else round(self.rng.uniform(l, h) * 2) / 2
            v = min(max(v, l), h)
        self.log[name] = v
        return v

    def cplx(self, name):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def bool(self, name):
        v = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        self.log[name] = v
        return v

    def choice(self, name, opts):
        k = int(self.given[name]) if name in self.given else self.rng.randrange(len(opts))
        self.log[name] = k
        return opts[k]

    def arr(self, name, kind, shape, lo=None, hi=None, nan=False, where=None, vals=None, gen=None):
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        if any(s < 0 for s in shape):
            raise Skip
        if name in self.given:
            g = self.given[name]
            a = decode_arr(g, kind, shape)
        elif gen is not None:
            a = np.asarray(gen(self.rng, shape), dtype=self.DT[kind]).reshape(shape)
        else:
            a = np.empty(shape, dtype=self.DT[kind])
            style = self.rng.choice(["rand", "rand", "rand", "const", "sparse", "mono"])
            const = None
            prev = None
            for idx in np.ndindex(*shape):
                for t in range(200):
                    if style == "const" and const is not None and t == 0:
                        v = const
                    elif style == "sparse" and t == 0 and self.rng.random() < 0.6:
                        v = 0 if kind != "b" else False
                        if lo is not None and v < lo or hi is not None and v > hi:
                            v = self.elem(kind, lo, hi, vals, nan)
                    elif style == "mono" and prev is not None and kind in "if" and t < 3 and prev == prev:
                        v = prev + self.rng.choice([0, 1, 1, 2]) * (1 if kind == "i" else 0.5)
                        if hi is not None and v > hi:
                            v = hi
                    else:
                        v = self.elem(kind, lo, hi, vals, nan)
                    if where is None or where(self.c, v, *idx):
                        break
                else:
                    raise Skip
                const = v
                prev = v
                a[idx] = v
        if where is not None and name in self.given:
            for idx in np.ndindex(*shape):
                if not where(self.c, self.c(a, *idx), *idx):
                    raise Skip
        self.log[name] = encode_arr(a)
        return a

    def elem(self, kind, lo, hi, vals, nan):
        r = self.rng
        if vals is not None:
            return r.choice(vals)
        if kind == "b":
            return r.random() < 0.5
        if kind == "i":
            l = -3 if lo is None else int(lo)
            h = l + 8 if hi is None else int(hi)
            if h < l:
                raise Skip
            return r.randint(l, h)
        if nan and r.random() < 0.1:
            return float("nan")

        def one():
            l = -4.0 if lo is None else float(lo)
            h = l + 8 if hi is None else float(hi)
            q = r.random()
            if q < 0.15 and l <= 0 <= h:
                return 0.0
            if q < 0.5:
                return min(max(round(r.uniform(l, h) * 4) / 4, l), h)
            return r.uniform(l, h)

        if kind == "f":
            return one()
        return complex(one(), one() if r.random() < 0.85 else 0.0)

    def opaque(self, name, fn):
        """value without a symbolic counterpart (bounded contracts)"""
        if name in self.given:
            return fn(random.Random(self.given[name]))
        s = self.rng.getrandbits(32)
        self.log[name] = s
        return fn(random.Random(s))

    def assume(self, p):
        if not (p() if callable(p) else p):
            raise Skip

    def logger(self):
        import logging

        l = logging.getLogger("pyvc")
        l.setLevel(logging.CRITICAL + 1)
        return l


def encode_arr(a):
    def e(v):
        if isinstance(v, complex):
            return [repr(v.real), repr(v.imag)]
        if isinstance(v, float):
            return repr(v)
        return v

    return dict(shape=list(a.shape), flat=[e(v) for v in a.ravel().tolist()])


def decode_arr(g, kind, shape):
    fl = []
    for v in g["flat"]:
        if kind == "c":
            fl.append(complex(float(v[0]), float(v[1])))
        elif kind == "f":
            fl.append(float(v))
        else:
            fl.append(v)
    a = np.array(fl, dtype=Builder.DT[kind])
    if a.size != int(np.prod(shape)):
        raise Skip
    return a.reshape(shape)


def deep_copy(x):
    return copy.deepcopy(x)


# ------------------------------------------------------------------------------ inputs that leave entries out
# Contracts give the structures they are about, not every entry a real one has. Reading an entry that every real structure has, but the
# input of the contract has not, says nothing about the code: such a run is skipped (or the case not decided), never a violation.
ENTRIES = dict(
    obs="n_pol n_tile n_freq n_freq_flag instrument obsname n_time n_baselines n_vis n_vis_raw n_vis_in nf_vis freq_res beam_nfreq_avg freq_center kpix dimension elements degpix max_baseline min_baseline n_time_flag n_tile_flag time_res dft_threshold degrid_spectral_terms grid_spectral_terms alpha pol_names residual healpix baseline_info astr obsx obsy phasera phasedec orig_phasera orig_phasedec zenra zendec zenx zeny obsra obsdec lat lon alt jd0 delays obsalt obsaz vis_noise",
    baseline_info="bin_offset freq fbin_i tile_a tile_b freq_use time_use tile_use jdate tile_names tile_height tile_flag",
    params="uu vv ww time antenna1 antenna2 baseline_arr",
    psf="dim resolution id beam_ptr freq n_freq image_info beam_mask_threshold xvals yvals pix_horizon interpolate_kernel fbin_i",
    cal="n_pol gain conv_thresh ref_antenna ref_antenna_name",
)
ENTRIES = {k: set(v.split()) for k, v in ENTRIES.items()}


def config_entries():
    """the options of the program, read from its source"""
    import re

    try:
        with open(os.path.join(os.environ.get("PYVC_REPO", "/repo"), "PyFHD/pyfhd_tools/pyfhd_setup.py")) as f:
            return {x.replace("-", "_") for x in re.findall(r"""["']--([A-Za-z0-9_-]+)["']""", f.read())}
    except OSError:
        return set()


def left_out(e, a):
    """does the exception come from an entry that real structures have and the input `a` leaves out?"""
    if type(e).__name__ != "KeyError" or len(e.args) != 1 or not isinstance(e.args[0], str):
        return False
    k = e.args[0]
    g = a.__dict__
    roles = {r: g.get(r) for r in ("obs", "params", "psf", "cal", "pyfhd_config")}
    roles["baseline_info"] = roles["obs"].get("baseline_info") if isinstance(roles["obs"], dict) else None
    for r, d in roles.items():
        if isinstance(d, dict) and k not in d and k in (config_entries() if r == "pyfhd_config" else ENTRIES[r]):
            return True
    return False


def complete(a):
    """add the numbers of tiles, frequencies, times, ... that follow from the arrays of an observation"""
    o = a.__dict__.get("obs")
    bi = o.get("baseline_info") if isinstance(o, dict) else None
    if not isinstance(bi, dict):
        return

    def put(k, *names):
        for n in names:
            if k not in o and isinstance(bi.get(n), np.ndarray) and bi[n].ndim == 1:
                o[k] = int(bi[n].size)

    put("n_freq", "freq", "freq_use", "fbin_i")
    put("n_tile", "tile_use", "tile_names")
    put("n_time", "time_use", "bin_offset")
    if "n_baselines" not in o and o.get("n_time") and isinstance(bi.get("tile_a"), np.ndarray) and bi["tile_a"].size % o["n_time"] == 0:
        o["n_baselines"] = bi["tile_a"].size // o["n_time"]
    for w in ("freq", "tile", "time"):
        u = bi.get(w + "_use")
        if f"n_{w}_flag" not in o and isinstance(u, np.ndarray):
            o[f"n_{w}_flag"] = int(np.count_nonzero(u == 0))
    for k in ("vis_arr", "vis_weights", "vis_weight_arr", "vis_model_arr"):
        v = a.__dict__.get(k)
        if "n_pol" not in o and isinstance(v, np.ndarray) and v.ndim == 3:
            o["n_pol"] = v.shape[0]


# ------------------------------------------------------------------------------ concrete execution
def resolve(target):
    import importlib

    mod, fn = target.split(":")
    return getattr(importlib.import_module(mod), fn)


def run_once(con, case, builder):
    """returns (status, info): 'ok', 'skip', 'fail'"""
    c = Ctx(con.tol)
    try:
        d = con.inputs(builder, case)
    except Skip:
        return "skip", None
    a = NSp(d)
    for p in con.requires(c, a):
        nm, f = p
        if not c._b(f):
            return "skip", nm
    complete(a)
    old = NSp({k: deep_copy_arg(v) for k, v in a.__dict__.items()})
    fnc = resolve(con.target)
    try:
        with np.errstate(all="ignore"):
            r = con.call(fnc, a)
    except Skip:
        return "skip", None
    except (Exception, SystemExit) as e:
        try:
            ok = c._b(con.may_raise(c, old, e))
        except Skip:
            return "skip", None
        except Exception:
            ok = False
        if ok:
            return "ok", "raised"
        if left_out(e, old):
            return "skip", "input"
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{f.filename}:{f.lineno}" for f in tb if "/repo" in f.filename or "PyFHD" in f.filename]
        return "fail", dict(clause="no exception", detail=f"{type(e).__name__}: {e} at {loc[-1] if loc else '?'}", known=con.known(c, old, "no exception"))
    return evaluate(con, c, a, old, r)


def evaluate(con, c, a, old, r):
    if getattr(con, "raises_required", None) is not None and c._b(con.raises_required(c, old)):
        return "fail", dict(clause="raises when it must", detail="returned normally", known=con.known(c, old, "raises when it must"))
    n = 0
    try:
        for nm, f in con.ensures(c, a, old, r):
            n += 1
            c.fail = None
            try:
                ok = c._b(f)
            except Skip:
                continue
            if not ok:
                return "fail", dict(clause=nm, detail=f"clause false; first failing index {c.fail}", known=con.known(c, old, nm))
    except Skip:
        return "skip", None
    except Exception as e:
        import traceback

        return "fail", dict(clause="postcondition evaluable", detail=f"{type(e).__name__}: {e}; {traceback.format_exc()[-400:]}", known=con.known(c, old, "postcondition evaluable"))
    return "ok", n


def deep_copy_arg(v):
    import logging

    if isinstance(v, logging.Logger):
        return v
    try:
        return copy.deepcopy(v)
    except Exception:
        return v
