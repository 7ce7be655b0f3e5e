"""Contracts on PyFHD/pyfhd_tools/pyfhd_utils.py: histogram, resizing, inversion, matching, statistics, geometry."""
import math
import random
from pyvc.contract import contract, Contract, NSp, Ctx

U = "PyFHD.pyfhd_tools.pyfhd_utils:"


# ------------------------------------------------------------------ histogram and reverse indices
@contract
class get_bins(Contract):
    target = U + "get_bins"
    prop = "U01"
    cases = (dict(kind="i"), dict(kind="f"))

    def inputs(self, b, case):
        if case["kind"] == "i":
            lo = b.int("min", None)
            return dict(min=lo, max=lo + b.int("range", 0, 40), bin_size=b.int("bin_size", 1, 5))
        lo = b.real("min")
        return dict(min=lo, max=lo + b.real("range", 0, 20), bin_size=b.real("bin_size", 0.125, 5))

    def ensures(self, c, a, old, r):
        n = c.dim(r)
        yield "at least one bin", n >= 1
        yield "edges are min + k*bin_size", c.forall([n], lambda k: c.eq(c(r, k), old.min + k * old.bin_size))


PYC = Ctx(1e-9)


def in_range(c, a, i):
    return c.and_(c(a.data, i) >= a.min, c(a.data, i) <= a.max)


def in_bin(c, a, i, k):
    return c.and_(in_range(c, a, i), lambda: c.eq(bin_index(c, a, c(a.data, i)), k))


def bin_index(c, old, v):
    """the bin of an in-range value: equal-width bins from the first to the last edge, values past the last edge in the last bin"""
    n = c.dim(old.bins) - 1
    b0, b1 = c(old.bins, 0), c(old.bins, n)
    k = c.ite(c.eq(b0, b1) if c.symbolic else b0 == b1, lambda: c.trunc(n * (v - b0)), lambda: c.trunc(n * (v - b0) / (b1 - b0)))
    return c.min(k, n)


@contract
class get_hist(Contract):
    target = U + "get_hist"
    prop = "U01"
    cases = (dict(kind="f"), dict(kind="i"))

    def inputs(self, b, case):
        n = b.int("n_data", 0, size=12)
        nb = b.int("n_bins", 1, size=8)
        k = case["kind"]
        lo = b.real("min") if k == "f" else b.int("min", None)
        step = b.real("bin_size", 0.25, 4) if k == "f" else 1
        gen = (lambda r, s: [lo + step * r.uniform(-1, nb + 1) if r.random() < 0.7 else lo + step * r.randint(0, nb) for _ in range(s[0])]) if k == "f" else (lambda r, s: [r.randint(lo - 2, lo + nb + 2) for _ in range(s[0])])
        data = b.arr("data", k, n, gen=gen)
        edges = b.arr("bins", k, nb, where=lambda c, v, j: c.and_(v >= lo, c.implies(c.eq(j, 0), c.eq(v, lo)), c.implies(j > 0, v > lo)), gen=lambda r, s: [lo + j * step for j in range(s[0])])
        return dict(data=data, bins=edges, min=lo, max=lo + b.int("over", 0, size=9) * step)

    def ensures(self, c, a, old, r):
        n, nb = c.dim(old.data), c.dim(old.bins)
        d = old.data
        yield "one count per bin", c.is_shape(r, nb)
        yield "each bin counts exactly the in-range values that fall in it", c.forall([nb], lambda k: c.eq(c(r, k), c.count(0, n, lambda i: c.and_(c(d, i) >= old.min, c(d, i) <= old.max, lambda: c.eq(bin_index(c, old, c(d, i)), k)))))
        yield "inputs unchanged", c.and_(c.unchanged(a.data, old.data), c.unchanged(a.bins, old.bins))


@contract
class get_ri(Contract):
    target = U + "get_ri"
    prop = "U01"
    level = "bounded"
    why_bounded = "the disjointness of the bins' places needs nested prefix sums"
    cases = (dict(kind="f"), dict(kind="i"))

    def inputs(self, b, case):
        n = b.int("n_data", 0, size=12)
        nb = b.int("n_bins", 1, size=8)
        k = case["kind"]
        lo = b.real("min") if k == "f" else b.int("min", None)
        step = b.real("bin_size", 0.25, 4) if k == "f" else 1
        gen = (lambda r, s: [lo + step * r.uniform(-1, nb + 1) if r.random() < 0.7 else lo + step * r.randint(0, nb) for _ in range(s[0])]) if k == "f" else (lambda r, s: [r.randint(lo - 2, lo + nb + 2) for _ in range(s[0])])
        data = b.arr("data", k, n, gen=gen)
        edges = b.arr("bins", k, nb, where=lambda c, v, j: c.and_(v >= lo, c.implies(c.eq(j, 0), c.eq(v, lo)), c.implies(j > 0, v > lo)), gen=lambda r, s: [lo + j * step for j in range(s[0])])
        hi = lo + b.int("over", 0, size=9) * step
        ns = NSp(dict(data=data, bins=edges, min=lo, max=hi))
        members = lambda c, v, j: c.eq(v, c.count(0, c.dim(data), lambda i: in_bin(c, ns, i, j)))
        hist = b.arr("hist", "i", nb, where=members, gen=lambda r, s: [sum(bool(in_bin(PYC, ns, i, j)) for i in range(len(data))) for j in range(s[0])])
        return dict(data=data, bins=edges, hist=hist, min=lo, max=hi)

    def requires(self, c, a):
        n, nb = c.dim(a.data), c.dim(a.bins)
        yield "the histogram counts every in-range value once", c.eq(c.sum(0, nb, lambda k: c(a.hist, k)), c.count(0, n, lambda i: in_range(c, a, i)))

    def ensures(self, c, a, old, r):
        n, nb = c.dim(old.data), c.dim(old.bins)
        first = lambda k: nb + 1 + c.sum(0, k, lambda j: c(old.hist, j))
        yield "one entry per bin edge and per counted value", c.is_shape(r, nb + 1 + c.count(0, n, lambda i: in_range(c, old, i)))
        yield "offsets are the running counts", c.forall([nb + 1], lambda k: c.eq(c(r, k), first(k)))
        rank = lambda i: c.count(0, i, lambda j: in_bin(c, old, j, bin_index(c, old, c(old.data, i))))
        yield "every counted value is listed in its own bin, in data order", c.forall([n], lambda i: c.implies(in_range(c, old, i), lambda: c.eq(c(r, first(bin_index(c, old, c(old.data, i))) + rank(i)), i)))
        yield "inputs unchanged", c.and_(c.unchanged(a.data, old.data), c.unchanged(a.bins, old.bins), c.unchanged(a.hist, old.hist))


def hist_clauses(c, old, r, data, lo, hi, step, nbins):
    hist, bins, ri = r
    n = len(data)
    lo, hi = float(lo), float(hi)
    use = [i for i in range(n) if lo <= data[i] <= hi]
    from pyvc.contract import Skip

    B = c.dim(hist)
    where = {}
    for i in use:
        q = (float(data[i]) - lo) / step
        if abs(q - round(q)) < 1e-9 and not float(q).is_integer():
            raise Skip
        if abs(q - round(q)) < 1e-9 and not (float(lo).is_integer() and float(step * 8).is_integer()) and round(q) not in (0,):
            if round(q) < B:
                raise Skip  # a value on an interior edge up to rounding: either side is right
        where[i] = min(int(math.floor(q + 1e-12)), B - 1)
    cnt = [0] * B
    for i in use:
        cnt[where[i]] += 1
    yield "as many edges as bins", c.dim(bins) == B
    yield "edges are min + k*bin_size", c.forall([B], lambda k: c.eq(c(bins, k), lo + k * step))
    if nbins is not None:
        yield "the requested number of bins", B == nbins
    else:
        eps = 0 if all(float(8 * x).is_integer() for x in (lo, hi, step)) else 1e-9
        yield "the edges reach the maximum and stop there", c.and_(lo + (B - 1) * step <= hi + eps, hi < lo + B * step + eps)
    yield "every in-range value is counted in exactly the bin that contains it", c.forall([B], lambda k: hist[k] == cnt[k])
    yield "reverse indices have length nbins + 1 + number of in-range values", c.dim(ri) == B + 1 + len(use)
    yield "reverse index offsets are the running counts", c.forall([B + 1], lambda k: ri[k] == B + 1 + sum(cnt[:k]))
    yield "reverse indices of a bin are exactly its members in data order", c.forall([B], lambda k: list(ri[ri[k] : ri[k + 1]]) == [i for i in use if where[i] == k])


@contract
class histogram(Contract):
    target = U + "histogram"
    prop = "U01"
    level = "bounded"
    why_bounded = "reverse-index construction needs prefix-sum disjointness lemmas; int(float) binning of user bin sizes"
    cases = (dict(kind="i", mode="auto"), dict(kind="i", mode="minmax"), dict(kind="f", mode="auto"), dict(kind="f", mode="minmax"), dict(kind="f", mode="nbins"), dict(kind="i2", mode="minmax"), dict(kind="i", mode="nbins"), dict(kind="i", mode="default"), dict(kind="f", mode="default"))
    n_quick = 1500
    bound = "up to 24 values, integer and real data, explicit and implicit limits, bin sizes and bin counts"

    def inputs(self, b, case):
        n = b.int("n", 1, size=14)
        kw = {}
        if case["kind"].startswith("i"):
            lo = b.int("lo", -6)
            sp = b.int("spread", 0, size=9)
            data = b.arr("data", "i", (2, n) if case["kind"] == "i2" else n, lo=lo, hi=lo + sp)
            kw["bin_size"] = b.choice("bs", [1, 1, 2, 3])
            if case["mode"] == "minmax":
                kw["min"] = b.int("min", lo - 2, lo + 3)
                kw["max"] = b.int("max", kw["min"], kw["min"] + 12)
        else:
            lo = b.real("lo")
            data = b.arr("data", "f", n, lo=lo, hi=lo + 5)
            kw["bin_size"] = b.choice("bs", [1, 0.5, 0.25, 0.3, 1.7])
            if case["mode"] == "minmax":
                kw["min"] = b.real("min", lo - 1, lo + 2)
                kw["max"] = kw["min"] + b.real("width", 0, 6)
        if case["mode"] == "nbins":
            kw["num_bins"] = b.int("num_bins", 1, size=7)
            if data.max() == data.min():
                from pyvc.contract import Skip

                raise Skip
        if case["mode"] == "default":
            del kw["bin_size"]
        return dict(data=data, **kw)

    def ensures(self, c, a, old, r):
        d = old.data.ravel()
        lo = old.min if "min" in old.__dict__ else d.min()
        hi = old.max if "max" in old.__dict__ else d.max()
        nb = old.__dict__.get("num_bins")
        step = old.__dict__.get("bin_size", 1) if nb is None else (float(hi) - float(lo)) / nb
        yield from hist_clauses(c, old, r, d, lo, hi, step, nb)
        yield "data unchanged", c.unchanged(a.data, old.data)


# ------------------------------------------------------------------ resizing
@contract
class rebin_sample(Contract):
    target = U + "rebin"
    prop = "U02"
    cases = tuple(dict(kind=k, rows=r, cols=q) for k in "if" for r in (1, 3, -2) for q in (1, 2, -3)) + (dict(kind="f", rows="n", cols="n"),)
    n_quick = 200

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 1)
        R, C = case["rows"], case["cols"]
        if R == "n":
            R, C = b.int("R", 1), b.int("C", 1)
            src, dst = (m, n), (m * R, n * C)
        else:
            src = (m if R > 0 else m * -R, n if C > 0 else n * -C)
            dst = (m * R if R > 0 else m, n * C if C > 0 else n)
        return dict(a=b.arr("a", case["kind"], src), shape=dst, sample=True)

    def ensures(self, c, a, old, r):
        (m, n), (M, N) = c.shape(old.a), old.shape
        yield "shape", c.is_shape(r, M, N)
        # nearest-sample: output (i, j) is the input at (floor(i*m/M), floor(j*n/N)) for integral factors
        yield "each output element is the input sample at its scaled position", c.forall([M, N], lambda i, j: c.same(c(r, i, j), c(old.a, c.div(i * m, M), c.div(j * n, N))))
        yield "argument not modified", c.unchanged(a.a, old.a)


@contract
class rebin_sample_line(Contract):
    """one-dimensional input: a row"""

    target = U + "rebin"
    prop = "U02"
    cases = tuple(dict(cols=q, rows=r) for q in (1, 2, 3, -2, -3) for r in (1,))

    def inputs(self, b, case):
        n, C = b.int("n", 1), case["cols"]
        return dict(a=b.arr("a", "f", n if C > 0 else n * -C), shape=(1, n * C if C > 0 else n), sample=True)

    def ensures(self, c, a, old, r):
        n, N = c.dim(old.a), old.shape[1]
        r2 = (lambda j: c(r, 0, j)) if c.ndim(r) == 2 else lambda j: c(r, j)
        yield "as many elements", c.eq(c.size(r), N)
        yield "each output element is the input sample at its scaled position", c.forall([N], lambda j: c.same(r2(j), c(old.a, c.div(j * n, N))))


def lin(c, x, i, f, n, integer):
    """linear interpolation of the length-n sequence x at output position i with expansion factor f (last value held)"""
    k, t = c.div(i, f), c.mod(i, f)
    nxt = c.ite(k + 1 < n, lambda: x(k + 1), lambda: x(k))
    d = (nxt - x(k)) * t / f
    return x(k) + (c.floor(d) if integer else d)


def rebin_py(c, x, m, n, M, N, integer):
    """reference: rows then columns, as documented"""
    import numpy as np

    x = np.asarray(x)
    return x


@contract
class rebin_general(Contract):
    target = U + "rebin"
    prop = "U02"
    level = "bounded"
    why_bounded = "np.pad/np.tile/np.array_split on two axes with symbolic factors is outside the axiomatisation"
    cases = tuple(dict(kind=k, r=r, q=q) for k in "if" for r in (1, 2, 3, -2, -3) for q in (1, 2, 4, -2, -3)) + tuple(dict(kind=k, r=r, q=q, line=True) for k in "if" for r in (1, 2, 3) for q in (1, 2, 4))
    n_quick = 1700
    bound = "arrays up to 12x12, factors up to 4, integer and real"

    def inputs(self, b, case):
        m, n = b.int("m", 1, size=4), b.int("n", 1, size=4)
        R, C = case["r"], case["q"]
        src = (m if R > 0 else m * -R, n if C > 0 else n * -C)
        dst = (m * R if R > 0 else m, n * C if C > 0 else n)
        if case.get("line"):
            return dict(a=b.arr("a", case["kind"], src[1], lo=-20, hi=20), shape=(R, dst[1]))
        return dict(a=b.arr("a", case["kind"], src, lo=-20, hi=20), shape=dst)

    def ensures(self, c, a, old, r):
        import numpy as np

        x = old.a if old.a.ndim == 2 else old.a.reshape(1, -1)
        (m, n), (M, N) = x.shape, old.shape
        integer = x.dtype.kind == "i"
        if M >= m and N >= n:
            y = np.empty((M, n), dtype=x.dtype)
            for i in range(M):
                for j in range(n):
                    y[i, j] = lin(c, lambda k: x[k, j], i, M // m, m, integer) if not integer else int(lin(c, lambda k: int(x[k, j]), i, M // m, m, True))
            z = np.empty((M, N), dtype=x.dtype)
            for i in range(M):
                for j in range(N):
                    z[i, j] = lin(c, lambda k: y[i, k], j, N // n, n, integer) if not integer else int(lin(c, lambda k: int(y[i, k]), j, N // n, n, True))
        else:
            # average every contracted axis (columns first, truncating integers), interpolate every expanded one
            y = x
            if N < n:
                y = y.reshape(m, N, n // N).mean(-1)
                y = np.trunc(y) if integer else y
            if M < m:
                y = y.reshape(M, m // M, y.shape[1]).mean(1)
                y = np.trunc(y) if integer else y
            z = np.empty((M, N))
            for i in range(M):
                for j in range(N):
                    if M > m:
                        z[i, j] = lin(c, lambda k: y[k, j], i, M // m, m, integer)
                    elif N > n:
                        z[i, j] = lin(c, lambda k: y[i, k], j, N // n, n, integer)
                    else:
                        z[i, j] = y[i, j]
        out = np.asarray(r).reshape(1, -1) if np.ndim(r) == 1 else r
        yield "shape", c.is_shape(out, M, N)
        yield "averages where it shrinks and interpolates linearly where it grows", c.forall([M, N], lambda i, j: c.eq(out[i, j], z[i, j]))
        yield "integer input gives integer output", c.implies(integer, lambda: out.dtype.kind == "i")
        yield "argument not modified", c.unchanged(a.a, old.a)


@contract
class rebin_shrink(Contract):
    """averaging is proved for every shape, for concrete shrink factors"""

    target = U + "rebin"
    prop = "U02"
    cases = tuple(dict(R=r, C=q) for r, q in ((1, 2), (2, 1), (2, 2), (3, 2)))

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 1)
        return dict(a=b.arr("a", "f", (m * case["R"], n * case["C"])), shape=(m, n))

    def requires(self, c, a):
        yield "more than one output row", a.shape[0] > 1

    def ensures(self, c, a, old, r):
        (m, n), (M, N) = c.shape(old.a), old.shape
        yield "shape", c.is_shape(r, M, N)
        # the case is visible only through the shapes; the factors are concrete
        for R, C in ((1, 2), (2, 1), (2, 2), (3, 2)):
            yield f"block mean {R}x{C}", c.implies(c.and_(c.eq(m, M * R), c.eq(n, N * C)), lambda: c.forall([M, N], lambda i, j: c.eq(c(r, i, j) * (R * C), c.sum(0, R, lambda p: c.sum(0, C, lambda q: c(old.a, R * i + p, C * j + q))))))
        yield "argument not modified", c.unchanged(a.a, old.a)


@contract
class rebin_rejects(Contract):
    target = U + "rebin"
    prop = "U02"
    level = "bounded"
    why_bounded = "divisibility of symbolic shapes"
    bound = "shapes up to 9x9"
    n_quick = 300

    def inputs(self, b, case):
        m, n, M, N = b.int("m", 2, size=6), b.int("n", 2, size=6), b.int("M", 1, size=8), b.int("N", 1, size=8)
        ok = (m % M == 0 or M % m == 0) and (n % N == 0 or N % n == 0)
        b.assume(not ok)
        return dict(a=b.arr("a", "f", (m, n)), shape=(M, N))

    def raises_required(self, c, old):
        return True

    def may_raise(self, c, a, exc):
        return isinstance(exc, ValueError)


# ------------------------------------------------------------------ weight inversion
@contract
class weight_invert(Contract):
    target = U + "weight_invert"
    prop = "U03"
    cases = tuple(dict(kind=k, nd=nd, thr=t, use_abs=ua) for k in "fc" for nd in (1, 2, "row") for t in (False, True) for ua in (False, True))
    n_quick = 400

    def inputs(self, b, case):
        sh = (b.int("n", 1),) if case["nd"] == 1 else (b.int("n", 2), b.int("m", 1)) if case["nd"] == 2 else (1, b.int("m", 1))
        d = dict(weights=b.arr("weights", case["kind"], sh, nan=case["kind"] == "f"))
        if case["use_abs"]:
            d["use_abs"] = True
        if case["thr"]:
            d["threshold"] = b.real("threshold")
        return d

    def ensures(self, c, a, old, r):
        w = old.weights
        sh = c.shape(w)
        thr = old.__dict__.get("threshold")
        nd_r = c.ndim(r) if c.is_array(r) else 0

        def want(*i):
            v = c(w, *i)
            mag = c.abs(v) if (c.kind(w) == "c" or "use_abs" in old.__dict__) else v
            zero = c.eq(v, 0) if c.symbolic else v == 0
            use = c.and_(c.not_(c.isnan(v)), c.not_(zero))
            if thr is not None:
                use = c.and_(use, mag >= thr)
            if not c.symbolic and not c.isnan(v) and (0 < abs(v) < 1e-300 or thr is not None and abs(mag - thr) < 1e-12 and mag != thr):
                return True
            res = (lambda: c(r, *i)) if c.is_array(r) else (lambda: r)
            return c.ite(use, lambda: c.eq(res() * v, 1), lambda: c.eq(res(), 0))

        if c.symbolic or c.is_array(r):
            if c.is_array(r) and c.ndim(r) == len(sh):
                yield "shape preserved", c.same_shape(r, w)
                yield "reciprocal of every usable weight, zero everywhere else", c.forall(list(sh), want)
            else:
                # a single weight comes back without its last axes
                yield "scalar only for a single weight", c.eq(c.size(w), 1)
                r0 = c(r, *[0] * c.ndim(r)) if c.is_array(r) else r
                r = r0
                yield "reciprocal of a usable weight, zero otherwise", want(*[0] * len(sh))
        else:
            yield "scalar only for a single weight", c.size(w) == 1
            yield "reciprocal of a usable weight, zero otherwise", want(*[0] * len(sh))
        yield "a single weight loses its first axis", c.implies(c.eq(c.size(w), 1), nd_r == len(sh) - 1)
        yield "never NaN or infinite", c.forall(list(sh), lambda *i: c.finite(c(r, *i))) if c.is_array(r) else c.finite(r)
        yield "weights not modified", c.unchanged(a.weights, old.weights)


@contract
class weight_invert_number(Contract):
    """one weight given as a number"""

    target = U + "weight_invert"
    prop = "U03"
    cases = tuple(dict(kind=k, thr=t, use_abs=ua) for k in "fc" for t in (False, True) for ua in (False, True))
    n_quick = 240

    def inputs(self, b, case):
        d = dict(weights=b.real("x") if case["kind"] == "f" else b.cplx("x"))
        if case["thr"]:
            d["threshold"] = b.real("threshold")
        if case["use_abs"]:
            d["use_abs"] = True
        return d

    def ensures(self, c, a, old, r):
        x = old.weights
        use = c.not_(c.eq(x, 0))
        if "threshold" in old.__dict__:
            mag = c.abs(x) if "use_abs" in old.__dict__ or c.kind(x) == "c" else x
            use = c.and_(use, mag >= old.threshold)
        yield "a number", not c.is_array(r) or c.ndim(r) == 0
        yield "reciprocal of a usable weight, zero otherwise", c.ite(use, lambda: c.eq(r * x, 1), lambda: c.eq(r, 0))


# ------------------------------------------------------------------ index matching, grids
@contract
class array_match(Contract):
    target = U + "array_match"
    prop = "U04"
    level = "bounded"
    why_bounded = "built on the reverse indices of histogram"
    bound = "up to 20 baselines, 8 values, duplicates and values absent from the arrays"
    cases = (dict(two=True), dict(two=False))
    n_quick = 1000

    def inputs(self, b, case):
        n = b.int("n", 1, size=16)
        lo = b.int("lo", -3, 4)
        hi = lo + b.int("spread", 0, size=8)
        d = dict(array_1=b.arr("array_1", "i", n, lo=lo, hi=hi), value_match=b.arr("value_match", "i", b.int("k", 1, size=6), lo=lo - 2, hi=hi + 2))
        if case["two"]:
            d["array_2"] = b.arr("array_2", "i", n, lo=lo, hi=hi + 1)
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        want = np.isin(old.array_1, old.value_match)
        if "array_2" in old.__dict__:
            want = want | np.isin(old.array_2, old.value_match)
        want = np.nonzero(want)[0]
        if len(want) == 0:
            yield "minus one when nothing matches", np.size(r) == 1 and int(np.ravel(r)[0]) == -1
        else:
            yield "exactly the positions where either array holds one of the values", list(np.ravel(r)) == list(want)
        yield "arguments not modified", c.and_(c.unchanged(a.array_1, old.array_1), c.unchanged(a.value_match, old.value_match))


@contract
class meshgrid(Contract):
    target = U + "meshgrid"
    prop = "U04"
    cases = tuple(dict(axis=x, short=s, ri=ri) for x in (1, 2) for s in (False, True) for ri in (False, True))

    def inputs(self, b, case):
        d = dict(dimension=b.int("dimension", 1))
        if case["short"]:
            d["elements"] = case["axis"]
        else:
            d["elements"] = b.int("elements", 1)
            d["axis"] = case["axis"]
        if case["ri"]:
            d["return_integer"] = True
        d["_case"] = case
        return d

    def call(self, f, a):
        return f(**{k: v for k, v in a.__dict__.items() if k != "_case"})

    def ensures(self, c, a, old, r):
        ax = old._case["axis"]
        nx = old.dimension
        ny = nx if old._case["short"] else old.elements
        yield "shape is (elements, dimension)", c.is_shape(r, ny, nx)
        yield "integers when they are asked for or need no division", c.kind(r) == ("i" if old._case["ri"] or ax == 1 else "f")
        yield "value is the index along the requested axis", c.forall([ny, nx], lambda i, j: c.eq(c(r, i, j), i if ax == 2 else j))


@contract
class idl_argunique(Contract):
    target = U + "idl_argunique"
    prop = "U04"
    level = "bounded"
    why_bounded = "np.unique and np.searchsorted are outside the axiomatisation"
    bound = "sorted arrays up to 30 elements"
    n_quick = 400

    def inputs(self, b, case):
        n = b.int("n", 1, size=20)
        x = b.arr("arr", "i", n, lo=-5, hi=9)
        x.sort()
        return dict(arr=x)

    def ensures(self, c, a, old, r):
        x = list(old.arr)
        want = [i for i in range(len(x)) if i + 1 == len(x) or x[i + 1] != x[i]]
        yield "the last position of every distinct value, in order", list(r) == want


@contract
class deriv_coefficients(Contract):
    target = U + "deriv_coefficients"
    prop = "U04"
    level = "bounded"
    why_bounded = "products over a symbolic degree"
    bound = "degrees 0..12"
    cases = (dict(f=False), dict(f=True))
    n_quick = 60

    def inputs(self, b, case):
        d = dict(n=b.int("n", -1, 12, size=13))
        if case["f"]:
            d["divide_factorial"] = True
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        n = old.n
        if n <= 0:
            yield "zero for degree below one", c.eq(r, 0)
            return
        p = np.array([1.0])
        for m in range(1, n):
            p = np.convolve(p, [1.0, -m])
        if "divide_factorial" in old.__dict__:
            p = p / np.array([math.factorial(m + 1) for m in range(n)])
        yield "coefficients of the falling factorial", c.all_same(np.asarray(r, float), p)


# ------------------------------------------------------------------ robust statistics
@contract
class resistant_mean(Contract):
    target = U + "resistant_mean"
    prop = "U05"
    level = "bounded"
    why_bounded = "order statistics followed by data-dependent subsetting: no closed form within the axiomatisation"
    bound = "real and complex arrays of 3 to 60 values with planted outliers"
    cases = (dict(kind="f"), dict(kind="c"), dict(kind="i"))
    n_quick = 600

    def inputs(self, b, case):
        n = b.int("n", 3, size=30)
        x = b.arr("array", case["kind"], n)
        if b.bool("tail"):
            # a heavy tail: the second threshold matters for large numbers of deviations
            x = x**3 / (1 + abs(x) ** 2) if case["kind"] != "i" else x * abs(x)
        return dict(array=x, deviations=b.choice("deviations", [2, 3, 1, 5, 2.5, 8, 4]))

    def ensures(self, c, a, old, r):
        import numpy as np

        x, dv = old.array, old.deviations
        med = np.median(x.real)
        ad = np.abs(x - med)
        mad = np.median(ad) / 0.6745
        if np.any(np.abs(ad - dv * mad) < 1e-9 * (1 + ad)) and mad > 0:
            from pyvc.contract import Skip

            raise Skip
        keep = x[ad <= dv * mad]
        sig = abs(complex(np.std(keep.real), np.std(keep.imag)))
        d1 = max(dv, 1.0)
        if d1 <= 4.5:
            sig = sig / (((0.020142 * d1 - 0.23584) * d1 + 0.90723) * d1 - 0.15405)
        if np.any((np.abs(ad - dv * sig) < 1e-9 * (1 + ad)) & (sig > 0)):
            from pyvc.contract import Skip

            raise Skip
        sub = x[ad <= dv * sig]
        if sub.size == 0:
            from pyvc.contract import Skip

            raise Skip
        yield "mean of exactly the values within the two-stage outlier threshold of the median", c.eq(r, np.mean(sub))
        lo, hi = x.real.min(), x.real.max()
        yield "within the range of the data", c.and_(c.le(lo, complex(r).real), c.le(complex(r).real, hi))
        yield "data not modified", c.unchanged(a.array, old.array)


@contract
class resistant_mean_far_outlier(Contract):
    """values arbitrarily far away do not move the result"""

    target = U + "resistant_mean"
    prop = "U05"
    level = "bounded"
    why_bounded = "relational over two runs of an order-statistics function"
    bound = "9 to 40 values, one or two outliers"
    n_quick = 200

    def inputs(self, b, case):
        n = b.int("n", 9, size=20)
        x = b.arr("array", "f", n, lo=0, hi=1)
        return dict(array=x, deviations=3, k=b.int("k", 0, n - 1), far=b.choice("far", [1e3, 1e6, -1e5]))

    def call(self, f, a):
        import numpy as np

        y, z = np.array(a.array), np.array(a.array)
        y[a.k] = a.far
        z[a.k] = a.far * 7
        return f(y, a.deviations), f(z, a.deviations)

    def ensures(self, c, a, old, r):
        yield "moving a far outlier further does not change the mean", c.eq(r[0], r[1])


@contract
class idl_median(Contract):
    target = U + "idl_median"
    prop = "U05"
    level = "bounded"
    why_bounded = "np.sort and scipy median_filter are outside the axiomatisation"
    bound = "1 to 30 values, every width from 2 to the array length"
    cases = (dict(mode="plain"), dict(mode="even"), dict(mode="width"))
    n_quick = 900

    def inputs(self, b, case):
        n = b.int("n", 1, size=18)
        d = dict(x=b.arr("x", "f", n))
        if case["mode"] == "even":
            d["even"] = True
        if case["mode"] == "width":
            d["width"] = b.int("width", 1, n, size=n)
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        x = old.x
        n = len(x)
        if "width" in old.__dict__:
            w = old.width
            hw = w // 2
            yield "same length", c.is_shape(r, n)
            # values within half a window of either end are copied, the rest are the median of the window
            yield "ends are copied", c.forall([n], lambda i: c.implies(i < hw or i >= n - hw, lambda: c.eq(r[i], x[i])))
            yield "interior values are medians of their window", c.forall([(hw, n - hw)], lambda i: c.eq(r[i], np.sort(x[i - hw : i - hw + w])[w // 2]))
        elif "even" in old.__dict__:
            yield "mean of the two central values for even length", c.eq(r, np.median(x))
        else:
            yield "upper central value", c.eq(r, np.sort(x)[n // 2])
        yield "data not modified", c.unchanged(a.x, old.x)


@contract
class reshape_and_average_in_time(Contract):
    target = U + "reshape_and_average_in_time"
    prop = "C07"
    cases = (dict(kind="c"), dict(kind="f"))

    def inputs(self, b, case):
        nf, nt, nb = b.int("n_freq", 1), b.int("n_time", 1), b.int("n_baselines", 1)
        return dict(vis_array=b.arr("vis", case["kind"], (nf, nt * nb)), n_freq=nf, n_time=nt, n_baselines=nb, vis_weights=b.arr("w", "f", (nf, nt, nb)))

    def ensures(self, c, a, old, r):
        nf, nt, nb = old.n_freq, old.n_time, old.n_baselines
        yield "shape", c.is_shape(r, nf, nb)
        yield "weighted sum over time", c.forall([nf, nb], lambda f, k: c.eq(c(r, f, k), c.sum(0, nt, lambda t: c(old.vis_array, f, t * nb + k) * c(old.vis_weights, f, t, k))))
        yield "arguments not modified", c.and_(c.unchanged(a.vis_array, old.vis_array), c.unchanged(a.vis_weights, old.vis_weights))


# ------------------------------------------------------------------ region growing
@contract
class region_grow(Contract):
    target = U + "region_grow"
    prop = "U07"
    level = "bounded"
    why_bounded = "connected components (scipy.ndimage.label) are outside the axiomatisation"
    bound = "images up to 10x10 and lines up to 14, explicit and implicit thresholds, several seeds"
    cases = (dict(nd=2), dict(nd=1), dict(nd=2, nan=True), dict(nd=1, nan=True))
    n_quick = 1200

    def inputs(self, b, case):
        import numpy as np

        if case["nd"] == 2:
            m, n = b.int("m", 3, size=6), b.int("n", 3, size=6)
            im = b.arr("image", "f", (m, n), vals=[0.0, 1.0, 1.0, 2.0, 3.0])
            k = b.int("k", 1, 3)
            seeds = np.array([b.int(f"r{j}", 1, m - 2) * n + b.int(f"c{j}", 1, n - 2) for j in range(k)])
        else:
            n = b.int("n", 3, size=10)
            im = b.arr("image", "f", n, vals=[0.0, 1.0, 1.0, 2.0, 3.0])
            k = b.int("k", 1, 3)
            seeds = np.array([b.int(f"r{j}", 1, n - 2) for j in range(k)])
        if case.get("nan"):
            # some pixels hold no value; never the seeds
            g = random.Random(b.int("seed", 0, 10**6))
            im = np.where(np.array([g.random() < 0.15 for _ in range(im.size)]).reshape(im.shape), np.nan, im)
            im.flat[seeds] = 1.0
        if len(seeds) == 1 and b.bool("number"):
            seeds = int(seeds[0])
        d = dict(image=im, roiPixels=seeds)
        if b.bool("thr"):
            d["low"] = b.choice("low", [0.5, 1.0, 1.5, 0.0])
            d["high"] = d["low"] + b.choice("high", [0.0, 1.0, 5.0])
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        im, seeds = old.image, np.atleast_1d(old.roiPixels)
        lo = old.__dict__.get("low", im.flat[seeds].min())
        hi = old.__dict__.get("high", im.flat[seeds].max())
        # components on the whole image, then the border is removed
        th = (im >= lo) & (im <= hi)
        im2 = th if im.ndim == 2 else th.reshape(1, -1)
        lab = np.zeros(im2.shape, int)
        nl = 0
        for i in range(im2.shape[0]):
            for j in range(im2.shape[1]):
                if im2[i, j] and not lab[i, j]:
                    nl += 1
                    st = [(i, j)]
                    lab[i, j] = nl
                    while st:
                        p, q = st.pop()
                        for u, v in ((p + 1, q), (p - 1, q), (p, q + 1), (p, q - 1)):
                            if 0 <= u < im2.shape[0] and 0 <= v < im2.shape[1] and im2[u, v] and not lab[u, v]:
                                lab[u, v] = nl
                                st.append((u, v))
        if im.ndim == 2:
            lab[0, :] = lab[-1, :] = 0
            lab[:, 0] = lab[:, -1] = 0
        else:
            lab[0, 0] = lab[0, -1] = 0
        fl = lab.ravel()
        labs = {int(fl[s]) for s in seeds} - {0}
        want = sorted(int(p) for p in np.nonzero(np.isin(fl, list(labs)))[0]) if labs else []
        got = [] if r is None else sorted(int(p) for p in np.ravel(r))
        yield "exactly the interior pixels in range that are connected to a seed", got == want
        yield "None when nothing grows", c.implies(len(want) == 0, r is None)
        ok = ~np.isnan(im)
        yield "pixels that hold a value are not modified", c.all_same(a.image[ok], im[ok])


# ------------------------------------------------------------------ sky geometry
@contract
class l_m_n(Contract):
    target = U + "l_m_n"
    prop = "U06"
    cases = (dict(explicit=True), dict(explicit=False))

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 1)
        dec, ra = b.arr("dec_arr", "f", (m, n), lo=-90, hi=90, nan=True), b.arr("ra_arr", "f", (m, n), lo=0, hi=360)
        d0, r0 = b.real("obsdec", -90, 90), b.real("obsra", 0, 360)
        if case["explicit"]:
            return dict(obs=dict(obsdec=0.0, obsra=0.0), psf=dict(image_info=dict(dec_arr=None, ra_arr=None)), obsdec=d0, obsra=r0, declination_arr=dec, right_ascension_arr=ra)
        return dict(obs=dict(obsdec=d0, obsra=r0), psf=dict(image_info=dict(dec_arr=dec, ra_arr=ra)))

    def ensures(self, c, a, old, r):
        l, m, n = r
        ex = "obsdec" in old.__dict__
        dec = old.declination_arr if ex else old.psf["image_info"]["dec_arr"]
        ra = old.right_ascension_arr if ex else old.psf["image_info"]["ra_arr"]
        d0 = old.obsdec if ex else old.obs["obsdec"]
        r0 = old.obsra if ex else old.obs["obsra"]
        k = c.pi / 180
        sh = list(c.shape(dec))

        def cl(*i):
            d, al = c(dec, *i) * k, c(ra, *i) * k - r0 * k
            bad = c.isnan(c(dec, *i))
            L = lambda: c.sin(al) * c.cos(d)
            M = lambda: c.cos(d0 * k) * c.sin(d) - c.cos(d) * c.sin(d0 * k) * c.cos(al)
            N = lambda: c.sin(d) * c.sin(d0 * k) + c.cos(d) * c.cos(d0 * k) * c.cos(al) - 1
            return c.ite(bad, lambda: c.and_(c.eq(c(l, *i), 0), c.eq(c(m, *i), 0), c.eq(c(n, *i), 0)), lambda: c.and_(c.eq(c(l, *i), L()), c.eq(c(m, *i), M()), c.eq(c(n, *i), N())))

        yield "direction cosines of every pixel; zero below the horizon", c.forall(sh, cl)
        yield "arrays not modified", c.unchanged(a.psf, old.psf) if not ex else c.unchanged(a.declination_arr, old.declination_arr)


@contract
class l_m_n_sphere(Contract):
    target = U + "l_m_n"
    prop = "U06"
    level = "bounded"
    why_bounded = "nonlinear identity of four trigonometric arguments"
    bound = "random directions"
    n_quick = 200

    def inputs(self, b, case):
        n = b.int("n", 1)
        return dict(obs={}, psf={}, obsdec=b.real("d0", -90, 90), obsra=b.real("r0", 0, 360), declination_arr=b.arr("dec", "f", n, lo=-90, hi=90), right_ascension_arr=b.arr("ra", "f", n, lo=0, hi=360))

    def ensures(self, c, a, old, r):
        l, m, n = r
        yield "direction cosines lie on the unit sphere", c.forall([c.dim(l)], lambda i: c.eq(l[i] ** 2 + m[i] ** 2 + (n[i] + 1) ** 2, 1))


@contract
class angle_difference(Contract):
    target = U + "angle_difference"
    prop = "U06"
    level = "bounded"
    why_bounded = "astropy SkyCoord is outside the verifier"
    bound = "random sky positions"
    cases = tuple(dict(deg=d, near=n) for d in (True, False) for n in (False, True))
    n_quick = 60

    def inputs(self, b, case):
        s = 1 if case["deg"] else math.pi / 180
        d = dict(ra1=b.real("ra1", 0, 360) * s, dec1=b.real("dec1", -90, 90) * s, ra2=b.real("ra2", 0, 360) * s, dec2=b.real("dec2", -90, 90) * s)
        if case["deg"]:
            d["degree"] = True
        if case["near"]:
            d["nearest"] = True
        return d

    def ensures(self, c, a, old, r):
        # the separation is reported in degrees (astropy Angle.value of a separation)
        s = math.pi / 180 if "degree" in old.__dict__ else 1
        d1, d2, da = old.dec1 * s, old.dec2 * s, (old.ra1 - old.ra2) * s
        x = math.sin(d1) * math.sin(d2) + math.cos(d1) * math.cos(d2) * math.cos(da)
        sep = math.degrees(math.acos(max(-1, min(1, x))))
        yield "great-circle separation in degrees", abs(float(r) - sep) < 1e-5


@contract
class simple_deproject_w_term(Contract):
    target = U + "simple_deproject_w_term"
    prop = "U06"
    cases = tuple(dict(np=p, extra=e) for p in (2, 4) for e in (False,))

    def inputs(self, b, case):
        nf, nb = b.int("n_freq", 1), b.int("n_baselines", 1)
        return dict(obs=dict(n_pol=case["np"], baseline_info=dict(freq=b.arr("freq", "f", nf))), params=dict(ww=b.arr("ww", "f", nb)), vis_arr=b.arr("vis", "c", (case["np"], nf, nb)), direction=b.real("direction"), logger=b.logger())

    def ensures(self, c, a, old, r):
        P, nf, nb = c.shape(old.vis_arr)

        def ph(f, k):
            t = old.direction * c(old.obs["baseline_info"]["freq"], f) * c(old.params["ww"], k)
            return c.cplx(c.cos(t), c.sin(t))

        yield "shape", c.same_shape(r, old.vis_arr)
        yield "every visibility is rotated by the phase of its own baseline and frequency", c.forall([P, nf, nb], lambda p, f, k: c.eq(c(r, p, f, k), c(old.vis_arr, p, f, k) * ph(f, k)))


@contract
class crosspol_split_real_imaginary(Contract):
    target = U + "crosspol_split_real_imaginary"
    prop = "G03"
    cases = (dict(names=True), dict(names=False))

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 1)
        d = dict(image=b.arr("image", "c", (4, m, n)))
        d["pol_names"] = ["XX", "YY", "XY", "YX"] if case["names"] else None
        return d

    def ensures(self, c, a, old, r):
        im, names = r
        _, m, n = c.shape(old.image)
        yield "shape", c.same_shape(im, old.image)
        yield "planes 0 and 1 are unchanged", c.forall([m, n], lambda i, j: c.and_(c.same(c(im, 0, i, j), c(old.image, 0, i, j)), c.same(c(im, 1, i, j), c(old.image, 1, i, j))))
        yield "planes 2 and 3 become the real and imaginary part of plane 2", c.forall([m, n], lambda i, j: c.and_(c.eq(c(im, 2, i, j), c.re(c(old.image, 2, i, j))), c.eq(c(im, 3, i, j), c.im(c(old.image, 2, i, j)))))
        if old.pol_names is None:
            yield "no names", names is None
        else:
            yield "names", list(names) == ["XX", "YY", "XY_real", "XY_imag"]
