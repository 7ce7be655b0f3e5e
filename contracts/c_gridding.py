"""Contracts on PyFHD/gridding: locations, gridding, counting, filters, imaging."""
import math
from pyvc.contract import contract, Contract, Skip
from contracts.c_calibration2 import rng_of

GU = "PyFHD.gridding.gridding_utils:"


def as_file(psf):
    """the beam as a lazily read HDF5 file (kept in memory)"""
    import h5py, io

    f = h5py.File(io.BytesIO(), "w")

    def put(g, d):
        for k, v in d.items():
            if isinstance(v, dict):
                put(g.create_group(k), v)
            else:
                g.create_dataset(k, data=[v] if not hasattr(v, "shape") else v)

    put(f, psf)
    return f


def call_lazy(f, a):
    d = dict(a.__dict__)
    if d.pop("lazy", False):
        with as_file(d["psf"]) as h:
            return f(**dict(d, psf=h))
    return f(**d)


def grid_inputs(b, square=True, npol=1):
    """an observation, a table of kernels, coordinates and weights for a small uv grid"""
    import numpy as np

    g = rng_of(b)
    dim = b.int("psf_dim", 1, 3) * 2
    res = b.int("resolution", 1, 4)
    nf, nbl, ntime = b.int("n_freq", 1, size=3), b.int("n_baselines", 1, size=5), b.int("n_time", 1, size=2)
    nx = 2 * b.int("half_x", dim // 2 + 1, size=8)
    ny = nx if square else 2 * b.int("half_y", dim // 2 + 1, size=8)
    nb = nbl * ntime
    nfb = b.int("n_bins", 1, nf)
    kb = b.choice("kpix", [0.5, 1.0])
    sc = b.choice("spread", [0.2, 0.5, 0.8]) * kb
    freq = np.sort(g.uniform(0.8, 1.2, nf)) * 100
    uu, vv = (g.uniform(-1, 1, nb) * n * sc / 100 for n in (nx, ny))
    if g.random() < 0.3:  # coinciding baselines
        k = g.integers(0, nb, nb)
        uu, vv = uu[k], vv[k]
    if g.random() < 0.25:  # along the horizontal axis
        vv[g.random(nb) < 0.5] = 0
    if g.random() < 0.2:  # widely spread frequencies
        freq = np.sort(g.uniform(0.3, 1.2, nf)) * 100
    ta = np.tile(g.integers(1, 5, nbl), ntime)
    tb = np.tile(g.integers(1, 5, nbl), ntime)
    w = g.choice([1.0, 1.0, 1.0, 0.0, -1.0, 0.5], size=(nf, nb))
    fu = (g.random(nf) < 0.8).astype(int)
    if not fu.any():
        raise Skip
    lo, hi = g.choice([0.0, 0.0, 1.0]), g.choice([1e4, 1e4, nx * 0.6 * kb])
    if g.random() < 0.3:  # limits between the lowest and highest frequency of one baseline
        L = math.hypot(uu[0], vv[0])
        lo, hi = (L * g.uniform(freq[0], freq[-1]), hi) if g.random() < 0.5 else (lo, L * g.uniform(freq[0], freq[-1]))
    obs = dict(n_tile=4, n_freq=nf, n_pol=npol, n_time=ntime, n_baselines=nbl, dimension=nx, elements=ny, kpix=kb, min_baseline=lo, max_baseline=hi, nf_vis=np.zeros(nf, int), baseline_info=dict(tile_a=ta, tile_b=tb, freq=freq, freq_use=fu, fbin_i=np.sort(g.integers(0, nfb, nf)), tile_use=np.ones(4, int)))
    psf = dict(dim=dim, resolution=res, id=np.zeros((npol, nfb, nbl), int), beam_ptr=g.normal(size=(npol, nfb, res + 1, res + 1, dim * dim)) + 1j * g.normal(size=(npol, nfb, res + 1, res + 1, dim * dim)))
    return g, obs, psf, dict(uu=uu, vv=vv, ww=np.zeros(nb)), w


def samples(obs, psf, params, w, fi_use=None, bi_use=None, fill=False, mirror=False):
    """for each used (frequency, baseline): corner of its footprint, sub-pixel offset and fraction, or None; raises Skip on ties"""
    import numpy as np

    bi = obs["baseline_info"]
    fs = list(range(obs["n_freq"])) if fill else [f for f in range(obs["n_freq"]) if bi["freq_use"][f]] if fi_use is None else list(fi_use)
    bs = (list(range(len(params["uu"]))) if fill else [b for b in range(len(params["uu"])) if (w[:, b] > 0).any()]) if bi_use is None else list(bi_use)
    R, D, nx, ny = psf["resolution"], psf["dim"], obs["dimension"], obs["elements"]
    out = {}

    def tie(x):
        if abs(x - round(x)) < 1e-9:
            raise Skip

    for i, f in enumerate(fs):
        for j, b in enumerate(bs):
            u, v = params["uu"][b], params["vv"][b]
            L = math.hypot(u, v)
            flip = v > 0
            if flip:
                u, v = -u, -v
            x, y = u * bi["freq"][f] / obs["kpix"], v * bi["freq"][f] / obs["kpix"]
            for z in (x * R, y * R):
                if z:
                    tie(z)
            ox, oy = math.floor((x - math.floor(x)) * R), math.floor((y - math.floor(y)) * R)
            dx, dy = (x - math.floor(x)) * R - ox, (y - math.floor(y)) * R - oy
            xm, ym = math.floor(x) + nx // 2 - (D // 2 - 1), math.floor(y) + ny // 2 - (D // 2 - 1)
            ok = xm > 0 and ym > 0 and xm + D - 1 < nx - 1 and ym + D - 1 < ny - 1
            if not fill:
                l0, l1 = L * bi["freq"].min(), L * bi["freq"].max()
                for z in (l0 - obs["min_baseline"], l1 - obs["max_baseline"]):
                    if abs(z) < 1e-9 and L:
                        raise Skip
                ok = ok and l0 >= obs["min_baseline"] and l1 <= obs["max_baseline"] and w[f, b] > 0
            if mirror and flip:
                ok = False
            out[i, j] = dict(f=f, b=b, xm=xm if ok else -1, ym=ym if ok else -1, ox=ox, oy=oy, dx=dx, dy=dy, ok=ok, flip=flip)
    return fs, bs, out


@contract
class baseline_grid_locations(Contract):
    target = GU + "baseline_grid_locations"
    prop = "G04"
    level = "bounded"
    why_bounded = "data dependent selections, histogram and its reverse indices (themselves bounded)"
    bound = "grids up to 24 pixels, kernels up to 6 pixels, 4 frequencies, 18 samples"
    cases = tuple(dict(fill=x, interp=y, mirror=z, sub=s) for x in (False, True) for y in (False, True) for z in (False, True) for s in (False, True))
    n_quick = 1200

    def inputs(self, b, case):
        g, obs, psf, params, w = grid_inputs(b, square=b.bool("square"))
        d = dict(obs=obs, psf=psf, params=params, vis_weights=w, logger=b.logger(), fill_model_visibilities=case["fill"], interp_flag=case["interp"], mask_mirror_indices=case["mirror"])
        if case["sub"]:
            import numpy as np

            nf, nb = w.shape
            d["fi_use"] = np.sort(g.permutation(nf)[: g.integers(1, nf + 1)])
            d["bi_use"] = np.sort(g.permutation(nb)[: g.integers(1, nb + 1)])
        d["lazy"] = bool(g.random() < 0.1)
        return d

    def call(self, f, a):
        return call_lazy(f, a)

    def ensures(self, c, a, old, r):
        import numpy as np

        O = old.__dict__
        fs, bs, S = samples(old.obs, old.psf, old.params, old.vis_weights, O.get("fi_use"), O.get("bi_use"), old.fill_model_visibilities, old.mask_mirror_indices)
        if old.fill_model_visibilities:
            fs, bs, S = samples(old.obs, old.psf, old.params, old.vis_weights, None, O.get("bi_use"), True, old.mask_mirror_indices)
        sh = (len(fs), len(bs))
        G = lambda k: np.array([[S[i, j][k] for j in range(sh[1])] for i in range(sh[0])], float).reshape(sh)
        yield "baselines with any positive weight are gridded", list(r["bi_use"]) == bs if "bi_use" not in O else "bi_use" not in r
        yield "corner of the footprint of each sample, -1 where flagged, out of range or off the grid", c.and_(c.all_same(r["xmin"], G("xm")), c.all_same(r["ymin"], G("ym")))
        yield "sub-pixel offset of each sample", c.and_(c.all_same(r["x_offset"], G("ox")), c.all_same(r["y_offset"], G("oy")))
        if old.interp_flag:
            for k, h in (("dx0dy0_arr", lambda x, y: (1 - x) * (1 - y)), ("dx0dy1_arr", lambda x, y: (1 - x) * y), ("dx1dy0_arr", lambda x, y: x * (1 - y)), ("dx1dy1_arr", lambda x, y: x * y)):
                yield "bilinear weights from the remaining fractions", bool(np.allclose(r[k], h(G("dx"), G("dy")), atol=1e-7))
        where = {}
        for (i, j), s in S.items():
            if s["ok"]:
                where.setdefault(s["xm"] + s["ym"] * old.obs["dimension"], []).append(i * sh[1] + j)
        yield "number of occupied positions", r["n_bin_use"] == len(where)
        if where:
            ri, bn = r["ri"], r["bin_n"]
            base = min(where)
            got = sorted(sorted(int(x) for x in ri[ri[k] : ri[k + 1]]) for k in r["bin_i"])
            yield "samples of one position are grouped together, each usable sample exactly once", got == sorted(sorted(v) for v in where.values())
            yield "counts per position", all(bn[k] == ri[k + 1] - ri[k] for k in r["bin_i"]) and int(np.sum(bn)) == sum(map(len, where.values()))
        yield "inputs not modified", c.and_(c.unchanged(a.params["uu"], old.params["uu"]), c.unchanged(a.params["vv"], old.params["vv"]), c.unchanged(a.vis_weights, old.vis_weights))


def mirror(x):
    import numpy as np

    m, n = x.shape
    return np.conj(x[np.ix_((-np.arange(m)) % m, (-np.arange(n)) % n)])


@contract
class visibility_grid(Contract):
    target = "PyFHD.gridding.visibility_grid:visibility_grid"
    prop = "G05"
    level = "bounded"
    why_bounded = "accumulation over data-dependent groups of samples"
    bound = "grids up to 24 pixels, kernels up to 6 pixels, 4 frequencies, 18 samples, with and without model, interpolation, uniform weighting, mirror masking"
    cases = tuple(dict(interp=x, model=y, uniform=z, noconj=u, spectral=s) for x in (False, True) for y in (False, True) for z in (False, True) for u in (False, True) for s in (False, True))
    n_quick = 640

    def inputs(self, b, case):
        import numpy as np

        npol = b.int("n_pol", 1, 2)
        g, obs, psf, params, w = grid_inputs(b, square=b.choice("square", [True, True, False]), npol=npol)
        if b.bool("symmetric kernels"):  # many samples share one kernel
            psf["beam_ptr"][:] = psf["beam_ptr"][:, :, :1, :1]
        if b.bool("groups"):
            psf["id"] = g.integers(0, 2, size=psf["id"].shape)
        vis = g.normal(size=w.shape) + 1j * g.normal(size=w.shape)
        vis[w <= 0] = 1e3
        d = dict(visibility=vis, vis_weights=w, obs=obs, psf=psf, params=params, polarization=npol - 1, pyfhd_config=dict(interpolate_kernel=case["interp"], mask_mirror_indices=bool(g.random() < 0.3), beam_per_baseline=False, grid_uniform=case["uniform"], grid_spectral=case["spectral"], grid_weights=True, grid_variance=True), logger=b.logger(), uniform_flag=bool(g.random() < 0.5), no_conjugate=case["noconj"])
        if case["model"]:
            m = g.normal(size=w.shape) + 1j * g.normal(size=w.shape)
            m[w <= 0] = 1e3
            d["model"] = m
        if g.random() < 0.4:
            nf, nb = w.shape
            d["fi_use"] = np.sort(g.permutation(nf)[: g.integers(1, nf + 1)])
            if g.random() < 0.5:
                d["bi_use"] = np.sort(g.permutation(nb)[: g.integers(1, nb + 1)])
        d["lazy"] = bool(g.random() < 0.1)
        return d

    def call(self, f, a):
        return call_lazy(f, a)

    def ensures(self, c, a, old, r):
        import numpy as np

        O, cfg, obs, psf = old.__dict__, old.pyfhd_config, old.obs, old.psf
        fs, bs, S = samples(obs, psf, old.params, old.vis_weights, O.get("fi_use"), O.get("bi_use"), False, cfg["mask_mirror_indices"])
        use = [(k, s) for k, s in S.items() if s["ok"]]
        if not use:
            yield "nothing is gridded when all data are flagged", len(r) == 0
            return
        ny, nx, D = obs["elements"], obs["dimension"], psf["dim"]
        n = len(use)
        yield "number of gridded visibilities", r["n_vis"] == n
        cnt = np.array(obs["nf_vis"])
        for i, f in enumerate(fs):
            cnt[f] = sum(1 for (k, s) in use if k[0] == i)
        yield "number of gridded visibilities per frequency", list(r["obs"]["nf_vis"]) == list(cnt)
        Z = lambda t=complex: np.zeros((ny, nx), t)
        im, wt, va, un, mo, sa, sb, sd, sm = Z(), Z(), Z(float), Z(float), Z(), Z(), Z(float), Z(float), Z()
        kp = psf["beam_ptr"][old.polarization]
        for (i, j), s in use:
            fb = obs["baseline_info"]["fbin_i"][s["f"]]
            if cfg["interpolate_kernel"]:
                x, y, dx, dy = s["ox"], s["oy"], s["dx"], s["dy"]
                K = kp[fb, y, x] * (1 - dx) * (1 - dy) + kp[fb, y, x + 1] * dx * (1 - dy) + kp[fb, y + 1, x] * (1 - dx) * dy + kp[fb, y + 1, x + 1] * dx * dy
            else:
                K = kp[fb, s["oy"], s["ox"]]
            K = np.conj(K).reshape(D, D)
            at = np.s_[s["ym"] : s["ym"] + D, s["xm"] : s["xm"] + D]
            cj = np.conj if s["flip"] else (lambda z: z)
            v = cj(old.visibility[s["f"], s["b"]])
            im[at] += K * v / n
            wt[at] += K / n
            va[at] += np.abs(K) ** 2 / n
            un[at] += 1
            m = cj(old.model[s["f"], s["b"]]) if "model" in O else 0
            mo[at] += K * m / n
            sa[at] += K * v * i / n
            sm[at] += K * m * i / n
            sb[at] += (K * i / n).real
            sd[at] += (K * i * i / n).real
        half = lambda z: z if old.no_conjugate else (z + mirror(z)) / 2
        same = lambda p, q: p.shape == q.shape and bool(np.allclose(p, q, rtol=1e-8, atol=1e-8 * (1 + np.abs(q).max())))
        if cfg["grid_spectral"] and cfg["interpolate_kernel"]:  # samples combined per kernel keep only one of their frequencies
            den = sd - sb**2
            if np.any((np.abs(den) > 0) & (np.abs(den) < 1e-9)):
                raise Skip
            wi = np.where(den != 0, 1 / np.where(den != 0, den, 1), 0)
            yield "spectral plane from the frequency-weighted sums", same(r["spectral_uv"] * 1.0, half((sa - n * sb * im) * wi)) or np.abs(wi).max() > 1e6
            if "model" in O:
                yield "spectral model plane", same(r["spectral_model_uv"] * 1.0, half((sm - n * sb * mo) * wi)) or np.abs(wi).max() > 1e6
        if cfg["grid_uniform"]:
            fl = np.where(un > 0, 1 / np.where(un > 0, un, 1), 0)
            fl = fl / fl[fl != 0].mean()
            wi = np.where(fl != 0, 1 / np.where(fl != 0, fl, 1), 0)
            im, wt, va, mo = im * wi, wt * wi, va * wi, mo * wi
        yield "each usable visibility enters the uv plane once, with the conjugate of its own kernel at its own position, over the number of visibilities", same(r["image_uv"], half(im))
        yield "weights plane is the same sum with unit visibilities", same(r["weights"], half(wt))
        yield "variance plane is the same sum with squared kernels", same(r["variance"], va if old.no_conjugate else (va + mirror(va)) / 4)
        if "model" in O:
            yield "the model is gridded like the data", same(r["model_return"], half(mo))
        if old.uniform_flag or cfg["grid_uniform"]:
            yield "uniform filter counts the footprints covering each pixel", same(r["uniform_filter"], half(un))
        yield "visibilities and weights not modified", c.and_(c.unchanged(a.visibility, old.visibility), c.unchanged(a.vis_weights, old.vis_weights), c.unchanged(a.params["uu"], old.params["uu"]), c.unchanged(a.params["vv"], old.params["vv"]))


@contract
class visibility_count(Contract):
    target = GU + "visibility_count"
    prop = "G06"
    level = "bounded"
    why_bounded = "accumulation over data-dependent groups of samples"
    bound = "grids up to 24 pixels, kernels up to 6 pixels, 4 frequencies, 18 samples"
    cases = tuple(dict(noconj=x, mirror=y, fill=z) for x in (False, True) for y in (False, True) for z in (False, True))
    n_quick = 600

    def inputs(self, b, case):
        import numpy as np

        g, obs, psf, params, w = grid_inputs(b, square=b.bool("square"))
        d = dict(obs=obs, psf=psf, params=params, vis_weights=w, logger=b.logger(), mask_mirror_indices=case["mirror"], no_conjugate=case["noconj"], fill_model_visibilities=case["fill"])
        if g.random() < 0.4 and not case["fill"]:
            nf, nb = w.shape
            d["fi_use"] = np.sort(g.permutation(nf)[: g.integers(1, nf + 1)])
            d["bi_use"] = np.sort(g.permutation(nb)[: g.integers(1, nb + 1)])
        d["lazy"] = bool(g.random() < 0.1)
        return d

    def call(self, f, a):
        return call_lazy(f, a)

    def ensures(self, c, a, old, r):
        import numpy as np

        O = old.__dict__
        _, _, S = samples(old.obs, old.psf, old.params, old.vis_weights, O.get("fi_use"), O.get("bi_use"), old.fill_model_visibilities, old.mask_mirror_indices)
        n = np.zeros((old.obs["elements"], old.obs["dimension"]))
        D = old.psf["dim"]
        for s in S.values():
            if s["ok"]:
                n[s["ym"] : s["ym"] + D, s["xm"] : s["xm"] + D] += 1
        yield "number of footprints covering each pixel, averaged with the mirrored plane unless disabled", c.all_same(r, n if old.no_conjugate else (n + mirror(n)) / 2)
        yield "inputs not modified", c.and_(c.unchanged(a.params["uu"], old.params["uu"]), c.unchanged(a.params["vv"], old.params["vv"]), c.unchanged(a.vis_weights, old.vis_weights))


@contract
class filter_uv_uniform(Contract):
    target = "PyFHD.gridding.filters:filter_uv_uniform"
    prop = "G06"
    level = "bounded"
    why_bounded = "mean over a data-dependent selection"
    bound = "planes up to 8 by 8"
    cases = (dict(count=True, weights=False), dict(count=True, weights=True), dict(count=False, weights=True))
    n_quick = 450

    def inputs(self, b, case):
        import numpy as np

        m, n = b.int("m", 1, size=7), b.int("n", 1, size=7)
        if m * n == 1:
            raise Skip
        d = dict(image_uv=b.arr("image", "c", (m, n)), vis_count=None)
        if case["count"]:
            d["vis_count"] = b.arr("count", "f", (m, n), vals=[0.0, 0.0, 0.5, 1.0, 2.0, 3.0, 7.0])
        if case["weights"]:
            d["weights"] = b.arr("w", "f", (m, n), vals=[0.0, 0.0, 0.25, 1.0, 2.5, 3.0, -1.0])
            if not case["count"] and d["weights"].any() and not (d["weights"] > 0).any():
                raise Skip  # weights without a single positive one give no count
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        O = old.__dict__
        w = O.get("weights")
        n = old.vis_count if old.vis_count is not None else (w if not (w > 0).any() else np.abs(w) / w[w > 0].min())
        if np.any((n > 0.999999) & (n < 1)):
            raise Skip
        f = np.where(n >= 1, 1 / np.where(n >= 1, n, 1), 0)
        sel = w != 0 if w is not None else f != 0
        m = f[sel].mean() if sel.any() else f.mean()
        if m == 0:
            raise Skip  # nothing was counted where there is weight
        yield "the filter is the reciprocal count where at least one visibility was counted, zero elsewhere, with mean one over the weighted pixels", c.all_same(r[1], f / m)
        yield "the image is multiplied by it", c.all_same(r[0], old.image_uv * (f / m))
        yield "inputs not modified", c.and_(c.unchanged(a.image_uv, old.image_uv), True if old.vis_count is None else c.unchanged(a.vis_count, old.vis_count), True if w is None else c.unchanged(a.weights, w))


@contract
class filter_uv_uniform_counted(Contract):
    target = "PyFHD.gridding.filters:filter_uv_uniform"
    prop = "G06"
    level = "bounded"
    why_bounded = "calls visibility_count"
    bound = "grids up to 24 pixels, kernels up to 6 pixels, 18 samples"
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        g, obs, psf, params, w = grid_inputs(b, square=b.bool("square"))
        d = dict(image_uv=g.normal(size=(obs["elements"], obs["dimension"])) + 0j, vis_count=None, obs=obs, psf=psf, params=params, weights=w, logger=b.logger())
        if b.bool("mirror"):
            d["mask_mirror_indices"] = True
        if g.random() < 0.3:
            nf, nb = w.shape
            d["fi_use"] = np.sort(g.permutation(nf)[: g.integers(1, nf + 1)])
            d["bi_use"] = np.sort(g.permutation(nb)[: g.integers(1, nb + 1)])
        for k in g.permutation(["obs", "psf", "params", "weights"])[: g.choice([0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2])]:
            d[str(k)] = None
        if w.size == d["image_uv"].size:
            raise Skip
        return d

    def may_raise(self, c, old, e):
        return isinstance(e, TypeError) and any(getattr(old, k) is None for k in ("obs", "psf", "params", "weights"))

    def raises_required(self, c, old):
        return any(getattr(old, k) is None for k in ("obs", "psf", "params"))

    def ensures(self, c, a, old, r):
        import numpy as np

        O = old.__dict__
        _, _, S = samples(old.obs, old.psf, old.params, old.weights, O.get("fi_use"), O.get("bi_use"), False, O.get("mask_mirror_indices", False))
        n = np.zeros((old.obs["elements"], old.obs["dimension"]))
        D = old.psf["dim"]
        for s in S.values():
            if s["ok"]:
                n[s["ym"] : s["ym"] + D, s["xm"] : s["xm"] + D] += 1
        n = (n + mirror(n)) / 2
        f = np.where(n >= 1, 1 / np.where(n >= 1, n, 1), 0)
        if not f.any():
            raise Skip
        yield "without a count the visibilities of the observation are counted", c.all_same(r[1], f / f[f != 0].mean())
        yield "the image is multiplied by the filter", c.all_same(r[0], old.image_uv * r[1])


@contract
class dirty_image_generate(Contract):
    target = GU + "dirty_image_generate"
    prop = "G07"
    level = "bounded"
    why_bounded = "Fourier transform and convolution are library code; compared with the explicit Fourier sum"
    bound = "even planes up to 16 by 16, all options"
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        n = 2 * b.int("half", 2, 8)
        m = n if b.bool("square") else 2 * b.int("half_rows", 2, 8)
        d = dict(dirty_image_uv=g.normal(size=(m, n)) + 1j * g.normal(size=(m, n)), pyfhd_config=dict(image_filter="filter_uv_uniform"), logger=b.logger(), not_real=bool(b.bool("not_real")))
        if g.random() < 0.5:
            d["baseline_threshold"] = None
        elif g.random() < 0.6:
            d["baseline_threshold"] = float(g.uniform(0.5, n / 2)) * g.choice([-1, 1])
            if g.random() < 0.6:
                d["width_smooth"] = int(g.choice([1, 2, 3]))
        if g.random() < 0.3:
            d["mask"] = g.integers(0, 2, size=(m, n))
        k = g.random()
        if k < 0.3:
            d["filter"] = g.uniform(0, 2, size=(m, n))
        elif k < 0.6:
            d["filter"] = np.empty(0)
            cnt = g.choice([0.0, 1.0, 2.0, 5.0], size=(m, n))
            cnt[0, 0] = 1
            d["uniform_filter_uv"] = cnt
            if g.random() < 0.5:
                w = g.choice([0.0, 1.0, 2.0], size=(m, n)) * 1.0
                w[0, 0] = 1
                d["weights"] = w
        if g.random() < 0.3:
            d["degpix"] = float(g.uniform(0.1, 20))
        if g.random() < 0.3:
            d["normalization"] = float(g.uniform(0.5, 2)) if g.random() < 0.5 else g.uniform(0.5, 2, size=(m, n))
        if np.ndim(d.get("normalization", 0)) == 0:
            if g.random() < 0.25:
                d["resize"] = 2
            if g.random() < 0.25:
                d["pad_uv_image"] = int(g.choice([1, 2, 3]))
                if m != n and d["pad_uv_image"] > 1:
                    raise Skip
        if g.random() < 0.3:
            d["pyfhd_config"]["image_filter"] = "filter_uv_optimal"
            if "resize" not in d and d.get("pad_uv_image", 1) == 1 and d.get("filter") is None:
                d["beam_ptr"] = g.uniform(0.5, 2, size=(m, n)) * g.choice([1, 1, -1, 0], size=(m, n))
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        O = old.__dict__
        u = old.dirty_image_uv.copy()
        m, n = u.shape
        bt = O.get("baseline_threshold", 0)
        if bt is not None and bt != 0:
            R = np.hypot(np.arange(n)[None, :] - n / 2, np.arange(m)[:, None] - m / 2)
            if np.any(np.abs(R - abs(bt)) < 1e-9):
                raise Skip
            k = np.where(R < bt, 0.0, 1.0) if bt >= 0 else np.where(R > -bt, 0.0, 1.0)
            wd = O.get("width_smooth")
            wd = max(int(math.floor(math.sqrt(m * n) / 100)) if wd is None else wd, 1)
            h = (wd + (wd % 2 == 0)) // 2
            s = k.copy()
            for i in range(h, m - h):
                for j in range(h, n - h):
                    s[i, j] = k[i - h : i + h + 1, j - h : j + h + 1].mean()
            u = u * s
        if "mask" in O:
            u = u * old.mask
        f = O.get("filter")
        if f is not None and f.size == u.size:
            u = u * f
        elif f is not None:
            cnt = old.uniform_filter_uv
            f = np.where(cnt >= 1, 1 / np.where(cnt >= 1, cnt, 1), 0)
            f = f / f[(old.weights != 0) if "weights" in O else (f != 0)].mean()
            u = u * f
        yield "the filter used is returned", f is None and r[1] is None or f is not None and c.all_same(r[1], f)
        if "resize" in O:  # interpolated enlargement of rebin, which has its own contract
            from PyFHD.pyfhd_tools.pyfhd_utils import rebin

            u = rebin(u.real.copy(), (2 * m, 2 * n)) + 1j * rebin(u.imag.copy(), (2 * m, 2 * n))
            m, n = 2 * m, 2 * n
        q = O.get("pad_uv_image")
        if q is not None:
            z = np.zeros((m * q, n * q), complex)
            o = (m * (q - 1) // 2, n * (q - 1) // 2)
            z[o[0] : o[0] + m, o[1] : o[1] + n] = u * q**2
            u, m, n = z, m * q, n * q
        if "degpix" in O:
            u = u / math.radians(old.degpix) ** 2
        E = lambda N: np.exp(-2j * np.pi * np.outer(np.arange(N) - N // 2, np.arange(N) - N // 2) / N)
        im = E(m) @ u @ E(n) / (m * n)
        if not old.not_real:
            im = im.real
        if old.pyfhd_config["image_filter"] == "filter_uv_optimal" and "beam_ptr" in O:
            im = im * old.beam_ptr
        if "normalization" in O:
            im = im * old.normalization
        yield "the image is the centred Fourier sum of the masked, filtered, resized, padded and scaled plane, times beam and normalization", r[0].shape == im.shape and bool(np.allclose(r[0], im, rtol=1e-7, atol=1e-9 * (1 + np.abs(im).max())))
        yield "real unless a complex image is asked for", np.iscomplexobj(r[0]) == bool(old.not_real)
        yield "the plane passed in is not modified", c.unchanged(a.dirty_image_uv, old.dirty_image_uv)


@contract
class dirty_image_generate_wide(Contract):
    target = GU + "dirty_image_generate"
    prop = "G07"
    level = "bounded"
    why_bounded = "Fourier transform and convolution are library code"
    bound = "planes of 180 to 330 pixels, default width of the smoothing"
    n_quick = 12

    def inputs(self, b, case):
        g = rng_of(b)
        m, n = (2 * int(k) for k in g.integers(90, 166, 2))
        return dict(dirty_image_uv=g.normal(size=(m, n)) + 1j * g.normal(size=(m, n)), pyfhd_config=dict(image_filter="filter_uv_uniform"), logger=b.logger(), not_real=True, baseline_threshold=float(g.uniform(5, 80)) * int(g.choice([-1, 1])))

    def ensures(self, c, a, old, r):
        import numpy as np

        u, bt = old.dirty_image_uv, old.baseline_threshold
        m, n = u.shape
        R = np.hypot(np.arange(n)[None, :] - n / 2, np.arange(m)[:, None] - m / 2)
        if np.any(np.abs(R - abs(bt)) < 1e-9):
            raise Skip
        k = np.where(R < bt if bt > 0 else R > -bt, 0.0, 1.0)
        wd = max(math.isqrt(m * n) // 100, 1)
        h = wd // 2
        s = k.copy()
        if h:
            s[h : m - h, h : n - h] = sum(k[h + i : m - h + i, h + j : n - h + j] for i in range(-h, h + 1) for j in range(-h, h + 1)) / (2 * h + 1) ** 2
        im = np.roll(np.fft.fft2(np.roll(u * s, (m // 2, n // 2), (0, 1))), (m // 2, n // 2), (0, 1)) / (m * n)
        yield "by default the edge of the baseline mask is smoothed over a hundredth of the size of the plane", r[0].shape == im.shape and bool(np.allclose(r[0], im, rtol=1e-7, atol=1e-9 * (1 + np.abs(im).max())))


@contract
class get_image_renormalization(Contract):
    target = "PyFHD.io.pyfhd_quickview:get_image_renormalization"
    prop = "G07"
    level = "bounded"
    why_bounded = "Fourier transforms are library code"
    bound = "even square planes up to 16 by 16"
    n_quick = 200

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        npol, n = b.int("n_pol", 1, 4), 2 * b.int("half", 2, 8)
        w = g.uniform(0, 2, size=(npol, n, n)) * (g.random((npol, n, n)) < 0.6) + (0.3j * g.normal(size=(npol, n, n)) if g.random() < 0.5 else 0)
        beam = g.uniform(0.2, 1, size=(npol, n, n))
        return dict(obs=dict(n_pol=npol, dimension=n, elements=n, degpix=float(g.uniform(0.1, 3)), obsx=float(g.uniform(0, n - 1)), obsy=float(g.uniform(0, n - 1))), weights=w + 0j, beam_base=beam, filter_arr=g.uniform(0.1, 2, size=(npol, n, n)), pyfhd_config=dict(pad_uv_image=1, image_filter="filter_uv_uniform"), logger=b.logger())

    def ensures(self, c, a, old, r):
        import numpy as np

        o = old.obs
        N = o["dimension"] ** 2
        s = (old.weights * old.filter_arr).sum((1, 2)).real
        if np.any(np.abs(s) < 1e-3):
            raise Skip
        yield "squared beam at the phase centre over the mean of the filtered weights, per polarization", c.all_same(r, old.beam_base[:, int(o["obsx"]), int(o["obsy"])] ** 2 * N / s)
        yield "weights, beams and filters are not modified", c.and_(c.unchanged(a.weights, old.weights), c.unchanged(a.beam_base, old.beam_base), c.unchanged(a.filter_arr, old.filter_arr))


# ------------------------------------------------------------------ kernels per baseline
def baseline_kernel(psf, pol, u, v, w, l, m, n, freq, x0, y0, bot):
    """image-space beam with the phase of the offset from the pixel centre and of the w term, transformed and summed to pixels"""
    import numpy as np

    B = psf["image_info"]["image_power_beam_arr"][pol]
    N, D, R = B.shape[0], psf["dim"], psf["resolution"]
    ph = l * (u * freq - x0) + m * (v * freq - y0) - n * w * freq
    E = np.exp(-2j * np.pi * np.outer(np.arange(N) - N // 2, np.arange(N) - N // 2) / N)
    F = (E @ (B * np.exp(2j * np.pi * ph)) @ E / N**2)[bot : bot + D * R, bot : bot + D * R]
    return np.array([[F[i * R : i * R + R, j * R : j * R + R].sum() for j in range(D)] for i in range(D)]).ravel()


def clip_floor(box, threshold):
    """amplitudes lowered by the largest one over the threshold, at least zero, sums restored"""
    import numpy as np

    amp = np.abs(box)
    low = np.maximum(amp - amp.max() / threshold, 0)
    if np.any((low > 0) & (low < 1e-7)) or np.any((amp > 0) & (amp < 1e-12)):
        raise Skip
    new = box / np.where(amp > 0, amp, 1) * low
    t = new.sum(1)
    if np.any(np.abs(t) < 1e-6 * amp.max()):
        raise Skip
    return new * (box.sum(1) / t)[:, None]


def image_beam(g, psf, npol):
    """a beam in image space, large enough for the footprint"""
    import numpy as np

    R = psf["resolution"]
    inter = min(math.ceil(math.sqrt(R) / 2) * 2, R)
    need = max(psf["dim"] * inter, 2 * (psf["dim"] * R - psf["dim"] * inter // 2))
    N = 2 * (need // 2 + int(g.integers(0, 3)))
    x = (np.arange(N) - N // 2) / N
    s = g.uniform(0.1, 0.5)
    B = np.stack([np.exp(-np.add.outer(x**2, x**2) / (2 * s * s)) * g.uniform(0.8, 1.2, (N, N)) for _ in range(npol)])
    psf["image_info"] = dict(psf_image_dim=N, image_power_beam_arr=B)
    psf["beam_mask_threshold"] = float(g.choice([20.0, 1e3]))
    psf["fits"] = True
    lm = g.uniform(-0.5, 0.5, (2, N, N))
    return lm[0], lm[1], int(-(psf["dim"] / 2) * inter + N / 2)


@contract
class grid_beam_per_baseline(Contract):
    target = GU + "grid_beam_per_baseline"
    prop = "G08"
    level = "bounded"
    why_bounded = "Fourier transform per sample; compared with the explicit Fourier sum"
    bound = "kernels up to 6 pixels with resolution up to 4, 5 samples"
    n_quick = 250

    def inputs(self, b, case):
        import numpy as np

        npol = int(b.choice("n_pol", [1, 2, 4]))
        g, obs, psf, params, w = grid_inputs(b, npol=npol)
        l, m, bot = image_beam(g, psf, npol)
        nf, nb = w.shape
        n, D, R = int(g.integers(1, 6)), psf["dim"], psf["resolution"]
        x = (np.arange(obs["dimension"]) - obs["dimension"] / 2) * obs["kpix"]
        top = obs["dimension"] - D
        d = dict(psf=psf, pyfhd_config=dict(beam_clip_floor=bool(g.random() < 0.4), image_filter="filter_uv_uniform"), logger=b.logger(), uu=params["uu"], vv=params["vv"], ww=g.normal(size=nb) * 0.01, l_mode=l, m_mode=m, n_tracked=g.normal(size=l.shape) * 0.3, frequency_array=obs["baseline_info"]["freq"], x=x, y=x * 1.5, xmin_use=int(g.integers(1, top)), ymin_use=int(g.integers(1, top)), freq_i=g.integers(0, nf, n), bt_index=g.integers(0, nb, n), polarization=int(g.integers(0, npol)), image_bot=bot, image_top=bot + D * R - 1, psf_dim3=D * D, box_matrix=np.zeros((n, D * D), complex), vis_n=n)
        if g.random() < 0.3:
            d.update(beam_int=g.normal(size=nf) + 0j, beam2_int=g.normal(size=nf) + 0j, n_grp_use=g.integers(0, 3, nf).astype(float), degrid_flag=False)
        d["lazy"] = bool(g.random() < 0.1)
        return d

    def call(self, f, a):
        return call_lazy(f, a)

    def ensures(self, c, a, old, r):
        import numpy as np

        o = old
        k = o.psf["dim"] // 2
        want = np.array([baseline_kernel(o.psf, o.polarization, o.uu[t], o.vv[t], o.ww[t], o.l_mode, o.m_mode, o.n_tracked, o.frequency_array[f], o.x[o.xmin_use + k], o.y[o.ymin_use + k], o.image_bot) for f, t in zip(o.freq_i, o.bt_index)])
        if o.pyfhd_config["beam_clip_floor"]:
            want = clip_floor(want, o.psf["beam_mask_threshold"])
        yield "the kernel of each sample is the transform of the beam with the phases of its own baseline, time and frequency", r.shape == want.shape and bool(np.allclose(r, want, rtol=1e-7, atol=1e-9 * (1e-12 + np.abs(want).max())))
        yield "inputs not modified", c.and_(*[c.unchanged(getattr(a, q), getattr(old, q)) for q in ("uu", "vv", "ww", "l_mode", "m_mode", "n_tracked", "frequency_array", "x", "y", "freq_i", "bt_index")])


@contract
class visibility_grid_per_baseline(Contract):
    target = "PyFHD.gridding.visibility_grid:visibility_grid"
    prop = "G08"
    level = "bounded"
    why_bounded = "accumulation over data-dependent groups of samples, Fourier transform per sample"
    bound = "grids up to 24 pixels, kernels up to 6 pixels, 4 frequencies, 18 samples"
    n_quick = 200

    def inputs(self, b, case):
        import numpy as np

        npol = int(b.choice("n_pol", [1, 2, 3, 4]))
        g, obs, psf, params, w = grid_inputs(b, npol=npol)
        l, m, _ = image_beam(g, psf, npol)
        params["ww"] = g.normal(size=len(params["uu"])) * 0.01
        vis = g.normal(size=w.shape) + 1j * g.normal(size=w.shape)
        vis[w <= 0] = 1e3
        d = dict(visibility=vis, vis_weights=w, obs=obs, psf=psf, params=params, polarization=npol - 1, pyfhd_config=dict(interpolate_kernel=False, mask_mirror_indices=bool(g.random() < 0.3), beam_per_baseline=True, beam_clip_floor=bool(g.random() < 0.3), image_filter="filter_uv_uniform", grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True), logger=b.logger(), no_conjugate=bool(g.random() < 0.5), lm=(l, m))
        if g.random() < 0.5:
            mo = g.normal(size=w.shape) + 1j * g.normal(size=w.shape)
            mo[w <= 0] = 1e3
            d["model"] = mo
        if g.random() < 0.3:
            nf, nb = w.shape
            d["fi_use"] = np.sort(g.permutation(nf)[: g.integers(1, nf + 1)])
            d["bi_use"] = np.sort(g.permutation(nb)[: g.integers(1, nb + 1)])
        d["lazy"] = bool(g.random() < 0.1)
        return d

    def call(self, f, a):
        import numpy as np
        from contracts.c_healpix import patched

        d = dict(a.__dict__)
        l, m = d.pop("lm")
        with patched("PyFHD.gridding.visibility_grid", l_m_n=lambda obs, psf, *x, **k: (l.copy(), m.copy(), np.full(l.shape, 0.7))):
            return call_lazy(f, type(a)(d))

    def ensures(self, c, a, old, r):
        import numpy as np

        O, cfg, obs, psf = old.__dict__, old.pyfhd_config, old.obs, old.psf
        fs, bs, S = samples(obs, psf, old.params, old.vis_weights, O.get("fi_use"), O.get("bi_use"), False, cfg["mask_mirror_indices"])
        use = [(k, s) for k, s in S.items() if s["ok"]]
        if not use:
            yield "nothing is gridded when all data are flagged", len(r) == 0
            return
        nx, D, n = obs["dimension"], psf["dim"], len(use)
        Z = lambda t=complex: np.zeros((nx, nx), t)
        im, wt, va, mo = Z(), Z(), Z(float), Z()
        x = (np.arange(nx) - nx / 2) * obs["kpix"]
        groups = {}
        inter = min(math.ceil(math.sqrt(psf["resolution"]) / 2) * 2, psf["resolution"])
        bot = int(-(D / 2) * inter + psf["image_info"]["psf_image_dim"] / 2)
        for (i, j), s in use:
            e = -1 if s["flip"] else 1
            u, v = e * old.params["uu"][s["b"]], e * old.params["vv"][s["b"]]
            K = baseline_kernel(psf, old.polarization, u, v, 0, old.lm[0], old.lm[1], 0, obs["baseline_info"]["freq"][s["f"]], x[s["xm"] + D // 2], x[s["ym"] + D // 2], bot)
            groups.setdefault((s["xm"], s["ym"]), []).append((s, K))
        for (xm, ym), l in groups.items():
            box = np.array([K for s, K in l])
            if cfg["beam_clip_floor"]:
                box = clip_floor(box, psf["beam_mask_threshold"])
            at = np.s_[ym : ym + D, xm : xm + D]
            for (s, _), K in zip(l, np.conj(box)):
                K = K.reshape(D, D)
                cj = np.conj if s["flip"] else (lambda z: z)
                im[at] += K * cj(old.visibility[s["f"], s["b"]]) / n
                wt[at] += K / n
                va[at] += np.abs(K) ** 2 / n
                if "model" in O:
                    mo[at] += K * cj(old.model[s["f"], s["b"]]) / n
        half = lambda z: z if old.no_conjugate else (z + mirror(z)) / 2
        same = lambda p, q: p.shape == q.shape and bool(np.allclose(p, q, rtol=1e-7, atol=1e-7 * np.abs(q).max()))
        yield "each usable visibility enters the uv plane once, with the conjugate of the kernel of its own baseline", same(r["image_uv"], half(im))
        yield "weights plane is the same sum with unit visibilities", same(r["weights"], half(wt))
        yield "variance plane is the same sum with squared kernels", same(r["variance"], va if old.no_conjugate else (va + mirror(va)) / 4)
        if "model" in O:
            yield "the model is gridded like the data", same(r["model_return"], half(mo))
        yield "visibilities and coordinates not modified", c.and_(c.unchanged(a.visibility, old.visibility), c.unchanged(a.vis_weights, old.vis_weights), *[c.unchanged(a.params[q], old.params[q]) for q in ("uu", "vv", "ww")])
