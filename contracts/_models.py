"""Call-site contracts: what a caller may assume about a callee. Each one restates the postcondition of a contract that is
itself discharged (or, where marked, checked within bounds) in this directory; the precondition is whatever the callee's
contract requires. Solver-side imports stay inside the functions: this module is also loaded by the concrete checker."""


def weight_invert(prog, weights, threshold=None, use_abs=False):
    """contract `weight_invert` (discharged): reciprocal where usable, zero elsewhere, weights untouched"""
    from pyvc import arr as A, terms as T, npshim

    def f(v):
        v = T.unwrap(v)
        use = T.And(T.Not(T.eq_t(v, 0)), T.Not(getattr(v, "nan", False)))
        if threshold is not None:
            mag = T.sabs(v) if (use_abs or T.kind_of(v) == "c") else v
            use = T.And(use, T.lt_t(threshold, mag, False))
        k = "c" if T.kind_of(v) == "c" else "f"
        return T.site(use, T.cast(T.binop("/", 1, v), k), T.cast(0, k))

    if not isinstance(weights, A.Arr):
        return f(weights)
    k = "c" if weights.kind == "c" else "f"
    r = A.emap(f, weights.copy(), kind=k)
    if npshim.size(r) == 1:
        return r[0]
    return r


def array_match_positions(prog, array_1, value_match, array_2=None):
    """contract `array_match` (checked within bounds): the positions at which either array holds one of the values, in order; -1
    where there is none"""
    from pyvc import arr as A, terms as T, npshim

    E = T.ENG
    hit = npshim.isin(array_1, value_match)
    if array_2 is not None:
        hit = npshim.logical_or(hit, npshim.isin(array_2, value_match))
    r = npshim.nonzero(hit)[0]
    if npshim.size(r) == 0:
        return -1
    return r


def histogram_opaque(prog, data, bin_size=1, num_bins=None, min=None, max=None):
    """`histogram` where nothing is claimed about the result but its form"""
    from pyvc import arr as A, terms as T, loops

    n = T.ENG.fresh_const("i", "bins")
    T.ENG.assume(n >= 0)
    d = A.mkdim(n)
    return tuple(loops.fresh_arr(T.ENG.fresh_name("hist"), k, (d,)) for k in "ffi")


def resistant_mean(prog, array, deviations, mad_scale=None, sigma_coeff=None):
    """contract `resistant_mean` (bounded): a function of the values and the number of deviations alone, a number for finite values"""
    from pyvc import terms as T

    rd = array.reader()
    if array.kind == "c" or array.ndim != 1:
        from pyvc.engine import Unsupported
        raise Unsupported("robust mean of this array")
    return T.S("f", T.ENG.opaque_reduce("robust", array.shape, lambda i: T.S("f", T.lift(T.cast(rd(i), "f")).re), "f", (deviations,)), None, False)


def histogram_layout(prog, data, bin_size=1, num_bins=None, min=None, max=None):
    """contract `histogram` (checked within bounds), the part about its form: a bin at least, the reverse indices list positions of the
    data, those of a bin after those of the bin before"""
    from pyvc import arr as A, terms as T, loops

    E = T.ENG
    nb = E.fresh_const("i", "bins")
    E.assume(nb >= 1)
    n = T.zi(data.shape[0])
    d = A.mkdim(nb)
    m = E.fresh_const("i", "listed")
    E.assume(m >= 0)
    raw = loops.fresh_arr(E.fresh_name("ri"), "i", (A.mkdim(nb + 1 + m),))
    rd = raw.reader()

    def ri(idx):
        v = rd(idx)
        k = idx[0]
        import z3
        E.assume(z3.If(k <= nb, z3.And(v.re >= nb + 1, v.re <= nb + 1 + m), z3.And(v.re >= 0, v.re < n)))
        return v

    h, b = (loops.fresh_arr(E.fresh_name("hist"), k, (d,)) for k in "if")
    return h, b, A.Arr.new("i", raw.shape, ri)


def median_opaque(prog, data, width=0, even=False):
    """`idl_median` where nothing is claimed about the result but its form"""
    from pyvc import terms as T, loops

    if isinstance(width, int) and width == 0:
        return T.S("f", T.ENG.fresh_const("f", "median"), None, False)
    return loops.fresh_arr(T.ENG.fresh_name("median"), "f", data.shape)
