"""Contracts on PyFHD/io: saving, loading and converting data."""
import math
import os
import shutil
import tempfile
from pyvc.contract import contract, Contract, Skip, deep_same
from contracts.c_calibration2 import rng_of

IO = "PyFHD.io.pyfhd_io:"
WORDS = ["", "a", "XX", "Tile011", "some longer text", "0.5"]


def number_array(g, shape=None):
    import numpy as np

    shape = tuple(g.integers(0, 4, size=g.integers(0, 4))) if shape is None else shape
    k = g.integers(0, 8)
    if k < 3:
        return g.integers(-100, 100, size=shape).astype([np.int64, np.int16, np.uint8, np.int8, np.int32][k if g.random() < 0.6 else g.integers(0, 5)]) if shape else np.asarray(g.integers(0, 100), np.int64)
    if k == 3:
        return np.asarray(g.random(shape) < 0.5)
    x = g.normal(size=shape)
    x = np.asarray(np.where(g.random(shape) < 0.1, [np.nan, np.inf][g.integers(0, 2)], x))
    return x.astype([np.float64, np.float32][k % 2] if g.random() < 0.8 else np.float16) if k < 6 else np.asarray(x + 1j * g.normal(size=shape)).astype([np.complex128, np.complex64][k % 2])


def value(g, depth=0):
    """a value and what loading it gives"""
    import numpy as np
    from pathlib import Path

    k = g.integers(0, 15 if depth < 3 else 13)
    if k == 0:
        v = int(g.integers(-(10**12), 10**12))
        return v, v
    if k == 1:
        v = float(g.normal())
        return v, v
    if k == 2:
        v = complex(g.normal(), g.normal())
        return v, v
    if k == 3:
        v = bool(g.random() < 0.5)
        return v, v
    if k == 4:
        v = WORDS[g.integers(0, len(WORDS))]
        return (np.str_(v) if g.random() < 0.3 else v), v
    if k == 5:
        return None, None
    if k == 6:
        v = Path("/some/where", WORDS[g.integers(1, 4)])
        return v, str(v)
    if k in (7, 8):
        v = number_array(g)
        return v, v
    if k == 9:
        v = np.array([WORDS[i] for i in g.integers(0, len(WORDS), g.integers(0, 5))], dtype=str)
        if g.random() < 0.3:
            v = np.array([[WORDS[i] for i in g.integers(0, len(WORDS), 3)] for _ in range(g.integers(1, 3))], dtype=str)
        return v, v
    if k == 10:
        n = g.integers(1, 5)
        if g.random() < 0.5:
            v = [WORDS[i] for i in g.integers(0, len(WORDS), n)]
            return v, np.array(v)
        v = [float(x) for x in g.normal(size=n)]
        return v, np.array(v)
    if k == 11:  # entries without a value
        n = g.integers(1, 5)
        w = g.integers(0, 3)
        v = np.array([[float(g.normal()), complex(g.normal(), g.normal()), WORDS[g.integers(1, 5)]][w] if g.random() < 0.6 else None for _ in range(n)], dtype=object)
        if w == 2:
            e = np.array([x or "" for x in v]) if any(v) else np.full(n, np.nan)
        elif w == 1 and any(x is not None for x in v):
            e = np.array([complex(np.nan, np.nan) if x is None else x for x in v])
        else:
            e = np.array([np.nan if x is None else x for x in v], float)
        return v, e
    if k == 12:
        mixed = g.random() < 0.5
        v = [number_array(g, (int(g.integers(0, 4)),)) for _ in range(3)]
        if not mixed:
            v = [x.real.astype(float) for x in v]
        t = np.result_type(*v)
        if len({len(x) for x in v}) == 1:
            return v, np.array(v)
        e = np.empty(3, object)
        e[:] = [x.astype(t) for x in v]
        return ([list(x) for x in v] if g.random() < 0.3 and all(len(x) for x in v) and t.kind != "b" else v), e
    d, e = {}, {}
    for i in range(g.integers(0, 4)):
        d[f"k{i}"], e[f"k{i}"] = value(g, depth + 1)
    return d, e


def same(x, y):
    import numpy as np

    if isinstance(y, dict):
        return isinstance(x, dict) and x.keys() == y.keys() and all(same(x[k], y[k]) for k in y)
    if y is None or isinstance(y, (str, bool)):
        return (x is None) == (y is None) and x == y
    if not isinstance(y, np.ndarray):
        return not isinstance(x, (dict, str)) and np.ndim(x) == 0 and bool(np.array_equal(x, y, equal_nan=True))
    x = np.asarray(x)
    if x.shape != y.shape:
        return False
    if y.dtype == object:
        return all(same(p, q) for p, q in zip(x, y))
    if y.dtype.kind in "fc":
        t = np.complex128 if y.dtype.kind == "c" else np.float64
        return x.dtype == t and bool(np.array_equal(x, y.astype(t), equal_nan=True))
    if y.dtype.kind == "U":
        return x.dtype.kind == "U" and bool(np.all(x == y))
    return x.dtype.kind == ("b" if y.dtype.kind == "b" else "i") and bool(np.array_equal(x, y))


@contract
class save_load_dict(Contract):
    target = IO + "save"
    prop = "I01"
    level = "bounded"
    why_bounded = "the file format is library code (h5py); values are written and read back"
    bound = "nested dictionaries of numbers, texts, paths, missing values, arrays of all types, ragged lists; depth up to 4"
    cases = (dict(chunk=False), dict(chunk=True))
    n_quick = 500

    def inputs(self, b, case):
        g = rng_of(b)
        d, e = {}, {}
        for i in range(g.integers(2, 7)):
            d[f"x{i}"], e[f"x{i}"] = value(g)
        o = dict(to_save=d, dataset_name="d", logger=b.logger() if g.random() < 0.7 else None, expected=e)
        if case["chunk"]:
            v = number_array(g, (3, 4, 2))
            d["chunked"] = e["chunked"] = v
            o["to_chunk"] = dict(chunked=dict(shape=v.shape, chunk=(1, 2, 2)))
        return o

    def call(self, f, a):
        from PyFHD.io.pyfhd_io import load

        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "a.h5")
            if a.logger is not None:
                with open(p, "w") as t:  # whatever was there before is replaced
                    t.write("left over")
            f(p, **{k: v for k, v in a.__dict__.items() if k not in ("expected",)})
            r = load(p, a.logger)
            z = load(p, lazy_load=True)
            keys = set(z)
            z.close()
            return r, keys
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np

        r, keys = r
        yield "loading gives back every entry", r.keys() == old.expected.keys()
        for k, v in old.expected.items():
            yield f"{k} is what was saved, in double precision", same(r[k], v)
        yield "opening without reading shows the same entries", keys == set(old.expected)
        keep = lambda v: not (isinstance(v, np.ndarray) and v.dtype == object) and not isinstance(v, (dict, list))
        yield "what was saved is not modified", all(deep_same(v, old.to_save[k]) for k, v in a.to_save.items() if keep(v))


@contract
class save_load_array(Contract):
    target = IO + "save"
    prop = "I01"
    level = "bounded"
    why_bounded = "the file format is library code (h5py); values are written and read back"
    bound = "a file with one entry: an array of up to three axes and all types, or a dictionary of one number, text, missing value, list or dictionary"
    n_quick = 300

    def inputs(self, b, case):
        from numpy import ndarray

        g = rng_of(b)
        if g.random() < 0.5:
            if g.random() < 0.3:
                while True:
                    v, e = value(g, 9)
                    if isinstance(v, ndarray) and v.dtype.kind in "UO":
                        break
            else:
                v = e = number_array(g, tuple(int(x) for x in g.integers(1, 5, size=g.integers(0, 4))))
            return dict(to_save=v, dataset_name="vis", logger=b.logger(), expected=e)
        v, e = value(g)
        return dict(to_save=dict(x0=v), dataset_name="vis", logger=b.logger(), expected=dict(x0=e) if isinstance(e, dict) else e)

    def call(self, f, a):
        from PyFHD.io.pyfhd_io import load

        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "a.h5")
            f(p, a.to_save, a.dataset_name, a.logger)
            return load(p, a.logger)
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np

        yield "the only entry is loaded as what was saved, in double precision", same(r, old.expected)
        if isinstance(a.to_save, np.ndarray) and a.to_save.dtype != object:
            yield "the array is not modified", deep_same(a.to_save, old.to_save)


@contract
class load_foreign(Contract):
    target = IO + "load"
    prop = "I01"
    level = "bounded"
    why_bounded = "the file format is library code (h5py)"
    bound = "files with up to five arrays of up to three axes, written without the marks of missing values"
    n_quick = 100

    def inputs(self, b, case):
        g = rng_of(b)
        return dict(arrays={f"x{i}": number_array(g, tuple(int(x) for x in g.integers(1, 5, size=g.integers(0, 4)))) for i in range(g.integers(1, 6))})

    def call(self, f, a):
        import h5py

        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "a.h5")
            with h5py.File(p, "w") as h:
                for k, v in a.arrays.items():
                    h.create_dataset(k, data=v)
            return f(p)
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np

        if len(old.arrays) == 1:
            yield "the array as written", deep_same(r, old.arrays["x0"]) or np.array_equal(r, old.arrays["x0"], equal_nan=True)
        else:
            yield "every array by its name, as written", r.keys() == old.arrays.keys() and all(np.asarray(r[k]).dtype == v.dtype and np.array_equal(r[k], v, equal_nan=True) for k, v in old.arrays.items())


@contract
class format_array(Contract):
    target = IO + "format_array"
    prop = "I01"
    level = "bounded"
    why_bounded = "object arrays and vectorised Python functions"
    bound = "arrays of up to 8 entries of all types"
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        while True:
            v, e = value(g, 9)
            if isinstance(v, np.ndarray):
                break
        return dict(array=v, expected=e)

    def call(self, f, a):
        return f(a.array)

    def ensures(self, c, a, old, r):
        import numpy as np

        e = old.expected
        if e.dtype.kind == "U":
            yield "texts become bytes, missing ones empty", r.dtype.kind == "S" and [x.decode() for x in r.ravel()] == [str(x) for x in e.ravel()]
        elif old.array.dtype == object:
            yield "missing numbers become NaN, numbers double precision", same(r, e)
            if e.dtype.kind == "c":
                yield "missing complex numbers are NaN in both parts", bool(np.all(np.isnan(r[np.isnan(e)].imag)))
        else:
            yield "other arrays are left alone", c.unchanged(r, old.array)


@contract
class recarray_to_dict(Contract):
    target = IO + "recarray_to_dict"
    prop = "I02"
    level = "bounded"
    why_bounded = "object arrays and record arrays"
    bound = "record arrays as read from IDL save files: numbers, texts, nested structures, pointer arrays with missing entries"
    n_quick = 400

    def record(self, g, depth=0):
        """a one element record array as scipy's readsav returns it, and the dictionary it means"""
        import numpy as np

        names, vals, exp = [], [], {}
        for i in range(g.integers(1, 6)):
            k = g.integers(0, 8 if depth < 2 else 7)
            nm = f"F{i}" if g.random() < 0.8 else f"fX{i}"
            if k == 0:
                v = g.normal()
                e = v
            elif k == 1:
                v = WORDS[g.integers(1, 5)].encode()
                e = v.decode()
            elif k == 2:
                v = g.normal(size=g.integers(2, 5))
                e = v
            elif k == 3:
                w = [WORDS[j] for j in g.integers(1, 5, g.integers(2, 5))]
                v = np.empty(len(w), object)
                v[:] = [b" " * g.integers(0, 2) + x.encode() + b"  " for x in w]
                e = w
            elif k == 4:  # pointers to arrays of one shape
                n, m = g.integers(2, 5), g.integers(2, 4)
                e = g.normal(size=(n, m)) if g.random() < 0.7 else g.normal(size=(n, m, 2))
                v = np.empty(n, object)
                for j in range(n):
                    v[j] = e[j].copy()
                h = g.random()
                if h < 0.2:  # of different types
                    e[0] = np.rint(e[0])
                    v[0] = e[0].astype(np.int16)
                elif h < 0.4:  # and null pointers
                    j = g.integers(1, n)
                    v[j], e[j] = None, np.nan
            elif k == 5:  # null pointers
                v = np.full(g.integers(2, 4), None, object)
                e = np.full(len(v), np.nan)
                if g.random() < 0.4:  # the first one, the others point to arrays
                    v[1:] = [None] * (len(v) - 1)
                    v[-1] = g.normal(size=3)
                    e = [np.nan] * (len(v) - 1) + [v[-1].copy()]
            elif k == 6:  # pointers to arrays of different shapes
                lens = [[2, 3, 2], [3, 1, 3], [1, 2, 4]][g.integers(0, 3)]
                v = np.empty(3, object)
                v[:] = [g.normal(size=m) for m in lens]
                e = [x.copy() for x in v]
            else:
                v, e = self.record(g, depth + 1)
            names.append(nm)
            vals.append(v)
            exp[nm.lower()] = e
        r = np.recarray((1,), dtype=[(n, object) for n in names])
        for n, v in zip(names, vals):
            x = np.empty(1, object)
            x[0] = v
            r[n] = x
        return r, exp

    def inputs(self, b, case):
        g = rng_of(b)
        r, e = self.record(g)
        return dict(data=r, expected=e)

    def call(self, f, a):
        return f(a.data)

    def match(self, x, y):
        import numpy as np

        if isinstance(y, dict):
            return isinstance(x, dict) and x.keys() == y.keys() and all(self.match(x[k], y[k]) for k in y)
        if isinstance(y, list):
            return len(x) == len(y) and all(self.match(p, q) for p, q in zip(x, y))
        if isinstance(y, str):
            return x == y
        return np.shape(x) == np.shape(y) and (np.ndim(y) == 0 or np.asarray(x).dtype == np.asarray(y).dtype) and bool(np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True))

    def ensures(self, c, a, old, r):
        yield "every field by its lower case name", isinstance(r, dict) and r.keys() == old.expected.keys()
        for k, v in old.expected.items():
            yield f"{k} has the value of the field", self.match(r[k], v)
