"""Contracts on PyFHD/flagging/flagging.py."""
import math
from pyvc.contract import contract, Contract, Skip

FL = "PyFHD.flagging.flagging:"


def tiles(b, nt, nbl, ntile, lo=1):
    """tile numbers (1 based) of nbl baselines repeated for nt times"""
    import numpy as np

    ta = b.arr("tile_a", "i", nbl, gen=lambda r, s: [r.randint(lo, ntile) for _ in range(s[0])])
    tb = b.arr("tile_b", "i", nbl, gen=lambda r, s: [r.randint(lo, ntile) for _ in range(s[0])])
    return np.tile(ta, nt), np.tile(tb, nt)


def weights(b, shape, vals=(1.0, 1.0, 1.0, 0.0, 2.5, -1.0)):
    import numpy as np

    return b.arr("w", "f", shape, gen=lambda r, s: np.array([r.choice(vals) for _ in range(int(np.prod(s)))]).reshape(s))


@contract
class vis_flag_tiles(Contract):
    target = FL + "vis_flag_tiles"
    prop = "F01"
    level = "bounded"
    why_bounded = "matches tile names, which are text"
    bound = "up to 6 tiles, 8 baselines, 3 frequencies; textual and numeric names, known and unknown"
    cases = (dict(names="str"), dict(names="int"))
    n_quick = 500

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nb, ntile = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=3), b.int("nb", 1, size=8), b.int("n_tile", 1, size=6)
        ta, tb = tiles(b, 1, nb, ntile)
        perm = b.opaque("order", lambda r: r.sample(range(ntile), ntile))
        names = np.array([f"Tile{k + 11}" for k in perm]) if case["names"] == "str" else np.array([k + 11 for k in perm])
        pick = b.opaque("flags", lambda r: [r.choice([str(r.choice(list(names))), " " + str(r.choice(list(names))) + " ", "nowhere", "Tile1"]) for _ in range(r.randint(0, 3))])
        return dict(obs=dict(baseline_info=dict(tile_names=names, tile_a=ta, tile_b=tb)), vis_weight_arr=weights(b, (npol, nf, nb)), tiles_to_flag=pick, logger=b.logger())

    def ensures(self, c, a, old, r):
        bi, w0 = old.obs["baseline_info"], old.vis_weight_arr
        names = [str(x) for x in bi["tile_names"]]
        cut = {names.index(f.strip()) + 1 for f in old.tiles_to_flag if f.strip() in names}
        yield "shape", c.same_shape(r, w0)
        yield "zero for every visibility of a named tile, unchanged for the others", c.forall(list(w0.shape), lambda p, f, i: r[p, f, i] == (0 if bi["tile_a"][i] in cut or bi["tile_b"][i] in cut else w0[p, f, i]))


@contract
class vis_flag_basic(Contract):
    target = FL + "vis_flag_basic"
    prop = "F01"
    level = "bounded"
    why_bounded = "np.where index tuples of data-dependent length used for stores and repeated per polarization"
    bound = "up to 4 polarizations, 768 frequencies, 4 times, 4 baselines, 6 tiles"
    cases = tuple(dict(freq=f, tiles=t) for f in (True, False) for t in (False, True))
    n_quick = 600

    def inputs(self, b, case):
        import numpy as np

        npol, nt, nbl, ntile = (1, 2, 2, 4)[b.choice("n_pol", [0, 1, 2, 3])], b.int("n_time", 1, size=4), b.int("n_baselines", 1, size=4), b.int("n_tile", 2, size=6)
        nf = (24, 32, 48, 96, 96, 192, 384, 768)[b.choice("n_freq", list(range(8)))] if case["freq"] else b.int("n_freq", 1, size=5)
        if nf > 48:
            nt, nbl = min(nt, 2), min(nbl, 2)
        nb = nt * nbl
        ta, tb = tiles(b, nt, nbl, ntile)
        used = lambda r, s: [int(r.random() < 0.8) for _ in range(s[0])]
        w = weights(b, (npol, nf, nb), (1.0, 1.0, 1.0, 0.0, 1.0, -1.0))
        dead = b.opaque("dead", lambda r: [(r.random() < 0.5, r.random() < 0.3, r.randrange(npol)) for _ in range(nf + nb)])
        for k, (x, y, p) in enumerate(dead):
            if x and y and k < nf:
                w[p, k, :] = 0
            elif y and k >= nf:
                w[p, :, k - nf] = 0
        freq = np.array([160e6 + k * 1e6 for k in range(nf)])
        cfg = dict(flag_freq_start=b.opaque("fstart", lambda r: r.choice([None, None, 161.5, 160.0])), flag_freq_end=b.opaque("fend", lambda r: r.choice([None, None, 162.5, 200.0])),
                   flag_tiles=[["T2"], ["T1", "T9"]][b.choice("ft", [0, 1])] if case["tiles"] else [], flag_frequencies=case["freq"])
        vis = b.arr("vis", "c", (npol, nf, nb))
        vis[b.arr("hole", "f", (npol, nf, nb), 0, 1) < 0.3] = 0
        obs = dict(n_pol=npol, n_freq=nf, n_time=nt, n_tile=ntile, baseline_info=dict(freq=freq, tile_names=np.array([f"T{k}" for k in range(ntile)]), tile_a=ta, tile_b=tb, bin_offset=np.arange(nt) * nbl,
                   time_use=b.arr("time_use", "i", nt, gen=used), tile_use=b.arr("tile_use", "i", ntile, gen=used), freq_use=b.arr("freq_use", "i", nf, gen=used)))
        return dict(vis_weight_arr=w, vis_arr=vis, obs=obs, pyfhd_config=cfg, logger=b.logger())

    def ensures(self, c, a, old, r):
        import numpy as np

        w, obs = r
        o, bi, cfg, w0 = old.obs, old.obs["baseline_info"], old.pyfhd_config, old.vis_weight_arr
        npol, nf, nb = w0.shape
        nbl = nb // o["n_time"]
        bad = {k + 1 for k, n in enumerate(bi["tile_names"]) if n in cfg["flag_tiles"]}
        fmhz = bi["freq"] / 1e6

        def edge(f):
            avg = 768 // nf
            width, cc = math.ceil(2 / avg), 32 // avg
            k = f % cc
            return min(k, cc - 1 - k) < width

        f_off = [bool((cfg["flag_freq_start"] and fmhz[f] < cfg["flag_freq_start"]) or (cfg["flag_freq_end"] and fmhz[f] > cfg["flag_freq_end"]) or (cfg["flag_frequencies"] and edge(f))) for f in range(nf)]
        b_off = [bi["tile_a"][i] in bad or bi["tile_b"][i] in bad for i in range(nb)]
        w1 = np.where(np.array(f_off)[None, :, None] | np.array(b_off)[None, None, :], 0, w0)
        alive_f = [[(w1[p, f] > 0).any() for f in range(nf)] for p in range(npol)]
        alive_b = [[(w1[p, :, i] > 0).any() for i in range(nb)] for p in range(npol)]
        t_off = [bi["time_use"][i // nbl] <= 0 for i in range(nb)]

        def want(p, f, i):
            if t_off[i]:
                return 0
            if not cfg["flag_frequencies"] and not alive_f[p][f] and alive_b[p][i] and abs(old.vis_arr[p, f, i]) > 0:
                return 1
            return w1[p, f, i]

        t_alive = lambda t: all(any(alive_b[p][i] and t + 1 in (bi["tile_a"][i], bi["tile_b"][i]) for i in range(nb)) for p in range(npol))
        nbi = obs["baseline_info"]
        yield "shape", c.same_shape(w, w0)
        yield "weights are zero outside the frequency limits, on channel edges, for named tiles and for unused times, and otherwise kept", c.forall([npol, nf, nb], lambda p, f, i: w[p, f, i] == want(p, f, i))
        yield "a tile stays in use exactly while every polarization has unflagged data on it", c.forall([o["n_tile"]], lambda t: nbi["tile_use"][t] == int(bi["tile_use"][t] and t_alive(t)))
        yield "a frequency stays in use exactly while every polarization has unflagged data in it", c.forall([nf], lambda f: nbi["freq_use"][f] == int(bi["freq_use"][f] and (not cfg["flag_frequencies"] or all(alive_f[p][f] for p in range(npol)))))
        for k in ("time", "tile", "freq"):
            yield f"recorded number of flagged {k}s", obs[f"n_{k}_flag"] == c.count(0, len(nbi[k + "_use"]), lambda j: nbi[k + "_use"][j] == 0)
        yield "visibilities not modified", c.unchanged(a.vis_arr, old.vis_arr)


@contract
class vis_flag(Contract):
    target = FL + "vis_flag"
    prop = "F02"
    level = "bounded"
    why_bounded = "medians and standard deviations over data-dependent selections"
    bound = "up to 4 polarizations, 60 frequencies, 7 times and 9 tiles, or 51 times or 49 tiles"
    n_quick = 250

    def inputs(self, b, case):
        import numpy as np

        npol = (1, 2, 4)[b.choice("n_pol", [0, 1, 2])]
        nf, nt, ntile = (4, 25, 12, 42, 39, 60)[b.choice("nf", [0, 1, 2, 3, 4, 5])], b.int("n_time", 2, size=6), b.int("n_tile", 3, 7)
        many = b.choice("many", [0, 0, 0, 0, 1, 2])  # enough times or tiles for one of them to stand out by six deviations
        if many == 1:
            nf, nt, ntile = 4, 45 + nt, 4
        elif many == 2:
            nf, nt, ntile = 4, 2, 42 + ntile
        pr = [(i, j) for i in range(1, ntile + 1) for j in range(i, ntile + 1)]
        nbl = len(pr)
        nb = nt * nbl
        ta, tb = np.tile([x for x, _ in pr], nt), np.tile([y for _, y in pr], nt)
        seed = b.int("seed", 0, 10**6, size=10**6)
        rg = np.random.default_rng(seed)
        vis = rg.normal(size=(npol, nf, nb)) + 1j * rg.normal(size=(npol, nf, nb)) + 3
        # outliers in one tile, one frequency, one time
        if rg.random() < 0.6:
            t = rg.integers(1, ntile + 1)
            vis[:, :, (ta == t) | (tb == t)] *= 40
        if rg.random() < 0.6:
            vis[:, rg.integers(nf)] *= 60
        if rg.random() < 0.6:
            t = rg.integers(nt)
            vis[:, :, t * nbl : (t + 1) * nbl] *= 50
        if rg.random() < 0.4:
            vis[:, rg.random(size=(nf, nb)) < 0.1] = 0
        w = rg.choice([1.0, 1.0, 1.0, 0.0] if rg.random() < 0.5 else [1.0, 2.0, 0.5, 0.0, -1.0], size=(npol, nf, nb))
        if rg.random() < 0.4:
            w[:, rg.integers(nf)] = 0
        if rg.random() < 0.4:
            t = rg.integers(1, ntile + 1)
            w[:, :, (ta == t) | (tb == t)] = 0
        if rg.random() < 0.4:
            t = rg.integers(nt)
            w[:, :, t * nbl : (t + 1) * nbl] = 0
        uu, vv = np.tile(rg.normal(size=nbl), nt), np.tile(rg.normal(size=nbl), nt)
        obs = dict(n_pol=npol, n_freq=nf, n_time=nt, n_tile=ntile, min_baseline=20.0, max_baseline=300.0, n_vis=-1,
                   baseline_info=dict(freq=np.linspace(100.0, 110.0, nf), tile_a=ta, tile_b=tb, tile_names=np.arange(ntile), tile_use=np.ones(ntile, int), freq_use=np.ones(nf, int), time_use=np.ones(nt, int), bin_offset=np.arange(nt) * nbl))
        return dict(vis_arr=vis, vis_weights=w, obs=obs, params=dict(uu=uu, vv=vv), logger=b.logger())

    def stages(self, old):
        """the expected cuts, stage by stage; discards inputs with too little data or a value on a threshold"""
        import numpy as np

        o, bi, w0 = old.obs, old.obs["baseline_info"], old.vis_weights
        npol, nf, nb = w0.shape
        nt, ntile = o["n_time"], o["n_tile"]
        nbl = nb // nt
        d = np.abs(old.vis_arr[0]) if npol == 1 else np.sqrt(np.abs(old.vis_arr[0]) ** 2 + np.abs(old.vis_arr[1]) ** 2)

        def umed(x):
            if len(x) == 0:
                raise Skip
            return np.sort(x)[len(x) // 2]

        length = np.hypot(old.params["uu"], old.params["vv"]) * umed(bi["freq"])
        w1 = w0.copy()
        w1[:, :, (length < o["min_baseline"]) | (length > o["max_baseline"])] = 0

        def fom(ww, sel, positive):
            t = 0.0
            for p in range(min(npol, 2)):
                m = ww[p][sel] > 0
                if positive:
                    m = m & (d[sel] > 0)
                if m.sum() > 10:
                    t += np.std(d[sel][m])
            return t

        def tsel(t):
            return np.ix_(np.arange(nf), np.concatenate([np.where(bi["tile_a"] == t)[0], np.where(bi["tile_b"] == t)[0]]))

        def far(x, y):
            if (np.abs(x - y) < 1e-9 * max(1.0, abs(y))).any():
                raise Skip

        def cut(x, k):
            m, s = umed(x[x != 0]), np.std(x[x != 0])
            far(np.abs(m - x[x != 0]), 6 * s)
            keep = (np.abs(m - x) <= 6 * s) & (x != 0)
            m2, s2 = umed(x[keep]), np.std(x[keep])
            far(np.abs(m2 - x)[x != 0], k * s2)
            return (np.abs(m2 - x) > k * s2) | (x == 0)

        tf = np.array([fom(w1, tsel(t + 1), True) for t in range(ntile)])
        ff = np.array([fom(w1, np.ix_([f], np.arange(nb)), True) for f in range(nf)])
        tcut = cut(tf, 3)

        def running(x, width):
            # centred running median, ends within half a window copied
            if width < 1:
                return np.full(len(x), umed(x))
            hw = width // 2
            return np.array([x[i] if i < hw or i >= len(x) - hw else umed(x[i - hw : i - hw + width]) for i in range(len(x))])

        nz = ff[ff != 0]
        if len(nz) < max(1, nf // 20):
            raise Skip
        m1 = np.zeros(nf)
        m1[ff != 0] = running(nz, nf // 20)
        fdev = np.std(nz - m1[ff != 0])
        far(np.abs(m1[ff != 0] - nz), 6 * fdev)
        keep = (np.abs(m1 - ff) <= 6 * fdev) & (ff != 0)
        if not keep.any():
            raise Skip
        m2 = running(ff, nf // 20)
        s2 = np.std((ff - m2)[keep])
        far(np.abs(m2 - ff)[ff != 0], 3 * s2)
        fcut = (np.abs(m2 - ff) > 3 * s2) | (ff == 0)
        w2 = w1.copy()
        w2[:, :, tcut[bi["tile_a"] - 1] | tcut[bi["tile_b"] - 1]] = 0
        w2[:, fcut] = 0
        mf = np.array([fom(w2, np.ix_(np.arange(nf), np.arange(t * nbl, (t + 1) * nbl)), False) for t in range(nt)])
        mcut = cut(mf, 6)
        w2[:, :, np.repeat(mcut, nbl)] = 0
        return tcut, fcut, w2

    def may_raise(self, c, a, exc):
        self.stages(a)
        return False

    def ensures(self, c, a, old, r):
        w, obs = r
        tcut, fcut, want = self.stages(old)
        bi = obs["baseline_info"]
        yield "tiles whose spread is an outlier, or that lack data, are no longer in use", c.forall([len(tcut)], lambda t: (bi["tile_use"][t] == 0) == bool(tcut[t]))
        yield "frequencies whose spread is an outlier, or that lack data, are no longer in use", c.forall([len(fcut)], lambda f: (bi["freq_use"][f] == 0) == bool(fcut[f]))
        yield "weights are zero for cut tiles, frequencies, times and lengths, and otherwise kept", c.all_same(w, want)
        yield "recorded number of visibilities", obs["n_vis"] == int((w[0] > 0).sum())
        yield "visibilities not modified", c.unchanged(a.vis_arr, old.vis_arr)
