"""Contracts on the visibility-weight functions of pyfhd_utils.py."""
import math
from pyvc.contract import contract, Contract, Skip

U = "PyFHD.pyfhd_tools.pyfhd_utils:"


def layout(b, sizes=(3, 3, 3)):
    """a time-major list of visibilities: time t occupies samples [t*nbl, (t+1)*nbl), every time the same baselines"""
    nt, nbl = b.int("n_time", 1, size=sizes[0]), b.int("n_baselines", 1, size=sizes[1])
    return nt, nbl


@contract
class vis_weights_update(Contract):
    target = U + "vis_weights_update"
    prop = "W01"
    level = "bounded"
    why_bounded = "index arrays of np.where reused to store into several arrays, and array_match/histogram (themselves bounded)"
    bound = "1-2 polarizations, up to 4 frequencies, 5 times, 6 tiles, grids up to 40x40"
    n_quick = 700

    def inputs(self, b, case):
        np_, nf = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=4)
        nt, nbl = b.int("n_time", 1, size=5), b.int("n_baselines", 1, size=5)
        ntile = b.int("n_tile", 2, size=6)
        nb = nt * nbl
        dimx, dimy = b.int("dimx", 4, 20) * 2, b.int("dimy", 4, 20) * 2
        psf_dim = b.choice("psf_dim", [2, 4, 6])
        kpix = b.choice("kpix", [0.5, 1.0, 0.25])
        freq = b.arr("freq", "f", nf, gen=lambda r, s: [r.choice([100.0, 120.0, 150.0]) for _ in range(s[0])])
        span = max(dimx, dimy) * kpix / 200.0
        g = lambda r, s: [r.uniform(-span, span) if r.random() < 0.9 else 0.0 for _ in range(s[0])]
        uu, vv = b.arr("uu", "f", nb, gen=g), b.arr("vv", "f", nb, gen=g)
        used = lambda r, s: [int(r.random() < 0.75) for _ in range(s[0])]
        ta = b.arr("tile_a", "i", nbl, gen=lambda r, s: [r.randint(1, ntile) for _ in range(s[0])])
        tb = b.arr("tile_b", "i", nbl, gen=lambda r, s: [r.randint(1, ntile) for _ in range(s[0])])
        import numpy as np

        lo = b.real("min_baseline", 0, span * 30)
        obs = dict(kpix=kpix, dimension=dimx, elements=dimy, n_pol=np_, n_vis=-1, n_time_flag=0, n_tile_flag=0, n_freq_flag=0, min_baseline=lo, max_baseline=lo + b.real("bspan", 0, span * 150),
                   baseline_info=dict(freq=freq, freq_use=b.arr("freq_use", "i", nf, gen=used), tile_use=b.arr("tile_use", "i", ntile, gen=used), time_use=b.arr("time_use", "i", nt, gen=used),
                                      tile_a=np.tile(ta, nt), tile_b=np.tile(tb, nt), bin_offset=np.arange(nt) * nbl))
        w = b.arr("w", "f", (np_, nf, nb), gen=lambda r, s: np.array([r.choice([1.0, 1.0, 1.0, 0.0, 2.5, -1.0]) for _ in range(s[0] * s[1] * s[2])]).reshape(s))
        return dict(vis_weights=w, obs=obs, psf=dict(dim=psf_dim), params=dict(uu=uu, vv=vv))

    def ensures(self, c, a, old, r):
        w, obs = r
        o, bi, p, w0 = old.obs, old.obs["baseline_info"], old.params, old.vis_weights
        nt = len(bi["time_use"])
        npol, nf, nb = w0.shape
        nbl = nb // nt
        P = old.psf["dim"]

        def edge(x, dim):
            if abs(x - round(x)) < 1e-9 and x != 0:
                raise Skip
            lo = math.floor(x) + dim / 2 - (P / 2 - 1)
            return lo <= 0 or lo + P - 1 >= dim - 1

        def kept(f, i):
            u, v = p["uu"][i] * bi["freq"][f], p["vv"][i] * bi["freq"][f]
            d = math.hypot(u, v)
            for lim in (o["min_baseline"], o["max_baseline"]):
                if abs(d - lim) < 1e-9 * max(1, d):
                    raise Skip
            s = -1 if v > 0 else 1
            off = edge(s * u / o["kpix"], o["dimension"]) or edge(s * v / o["kpix"], o["elements"])
            return (o["min_baseline"] <= d <= o["max_baseline"] and not off and bi["freq_use"][f] and bi["time_use"][i // nbl]
                    and bi["tile_use"][bi["tile_a"][i] - 1] and bi["tile_use"][bi["tile_b"][i] - 1])

        yield "shape", c.same_shape(w, w0)
        yield "weight kept exactly where frequency, time and both tiles are in use, the length is in range and the footprint is inside the grid; zero elsewhere", c.forall([nf, nb], lambda f, i: c.forall([npol], lambda q: w[q, f, i] == (w0[q, f, i] if kept(f, i) else 0)))
        yield "recorded number of visibilities", c.eq(obs["n_vis"], c.count(0, nf * nb, lambda k: w[0, k // nb, k % nb] > 0))
        if obs["n_vis"] > 0:
            for k in ("time", "tile", "freq"):
                yield f"recorded number of flagged {k}s", obs[f"n_{k}_flag"] == c.count(0, len(bi[k + "_use"]), lambda j: bi[k + "_use"][j] == 0)
        yield "coordinates not modified", c.and_(c.unchanged(a.params["uu"], p["uu"]), c.unchanged(a.params["vv"], p["vv"]))


def pairs(o, nb):
    """the pairs of adjacent times that are both in use, counted from the first used time"""
    use, nt = o["baseline_info"]["time_use"], o["n_time"]
    st = min(t for t in range(nt) if use[t])
    return [(t, t + 1) for t in range(st, nt - 1, 2) if use[t] and use[t + 1]]


@contract
class split_vis_weights(Contract):
    target = U + "split_vis_weights"
    prop = "W02"
    level = "bounded"
    why_bounded = "pairing compares two np.where results of data-dependent length"
    bound = "up to 7 times, 5 baselines, 3 frequencies, 2 polarizations"
    n_quick = 500

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt, nbl = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=3), b.int("n_time", 2, size=7), b.int("n_baselines", 1, size=5)
        use = b.arr("time_use", "i", nt, gen=lambda r, s: [int(r.random() < 0.8) for _ in range(s[0])])
        if not use.any():
            raise Skip
        w = b.arr("w", "f", (npol, nf, nt * nbl), gen=lambda r, s: np.array([r.choice([1.0, 1.0, 0.5, 0.0, 2.5, -1.0]) for _ in range(s[0] * s[1] * s[2])]).reshape(s))
        return dict(obs=dict(n_time=nt, n_pol=npol, baseline_info=dict(bin_offset=np.arange(nt) * nbl, time_use=use)), vis_weights=w)

    def ensures(self, c, a, old, r):
        import numpy as np

        w, bi = r
        w0 = old.vis_weights
        npol, nf, nb = w0.shape
        nbl = nb // old.obs["n_time"]
        ps = pairs(old.obs, nb)
        first = sorted((min(t, key=lambda x: x % 2) * nbl + k, max(t, key=lambda x: x % 2) * nbl + k) for t in ps for k in range(nbl))
        yield "two lists of equal length", len(bi) == 2 and len(bi[0]) == len(bi[1])
        yield "entries pair the same baseline in adjacent used times (even sample, odd sample)", sorted(zip(list(bi[0]), list(bi[1]))) == first
        want = np.zeros_like(w0)
        for i, j in zip(*bi):
            v = np.minimum(np.maximum(w0[:, :, i], 0), np.minimum(w0[:, :, j], 1))
            want[:, :, i] = v
            want[:, :, j] = v
        yield "both samples of a pair get the combined weight, everything else zero", c.all_same(w, want)


@contract
class vis_noise_calc(Contract):
    target = U + "vis_noise_calc"
    prop = "W03"
    level = "bounded"
    why_bounded = "standard deviation over a data-dependent selection"
    bound = "up to 7 times, 5 baselines, 3 frequencies, 2 polarizations"
    cases = (dict(bi=True), dict(bi=False))
    n_quick = 500

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt, nbl = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=3), b.int("n_time", 1, size=7), b.int("n_baselines", 1, size=5)
        use = b.arr("time_use", "i", nt, gen=lambda r, s: [int(r.random() < 0.8) for _ in range(s[0])])
        if not use.any():
            raise Skip
        w = b.arr("w", "f", (npol, nf, nt * nbl), gen=lambda r, s: np.array([r.choice([1.0, 1.0, 0.5, 0.0, 2.5, -1.0]) for _ in range(s[0] * s[1] * s[2])]).reshape(s))
        d = dict(obs=dict(n_time=nt, n_pol=npol, n_freq=nf, baseline_info=dict(bin_offset=np.arange(nt) * nbl, time_use=use)), vis_arr=b.arr("vis", "c", (npol, nf, nt * nbl)), vis_weights=w)
        if case["bi"] and nt > 1:
            ps = pairs(d["obs"], nt * nbl)
            d["bi_use"] = [np.array([t[e] * nbl + k for t in ps for k in range(nbl)], dtype=int) for e in (0, 1)]
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        o, v, w = old.obs, old.vis_arr, old.vis_weights
        npol, nf, nb = w.shape
        yield "one value per polarization and frequency", c.is_shape(r, npol, nf)
        if o["n_time"] < 2:
            yield "zero when there are no pairs of times", c.forall([npol, nf], lambda p, f: r[p, f] == 0)
            return
        nbl = nb // o["n_time"]
        ps = [(x * nbl + k, y * nbl + k) for x, y in pairs(o, nb) for k in range(nbl)]

        def want(p, f):
            d = [(v[p, f, i] - v[p, f, j]).imag for i, j in ps if w[p, f, i] > 0 and w[p, f, j] > 0]
            return np.std(d) / math.sqrt(2) if d else 0.0

        yield "standard deviation of the even-odd imaginary differences of unflagged pairs over sqrt 2", c.forall([npol, nf], lambda p, f: c.eq(r[p, f], want(p, f)))
        yield "visibilities not modified", c.unchanged(a.vis_arr, v)
