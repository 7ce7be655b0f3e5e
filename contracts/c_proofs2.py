"""Contracts discharged for all sizes and values, part two: what holds of functions built on order statistics, standard deviations and
polynomial fits whatever those come out to be (they are uninterpreted functions of the values they are given)."""
from pyvc.contract import contract, Contract, Skip
from contracts import _models as M

U = "PyFHD.pyfhd_tools.pyfhd_utils:"
CU = "PyFHD.calibration.calibration_utils:"


# ------------------------------------------------------------------ robust mean (U05)


@contract
class resistant_mean_all(Contract):
    target = U + "resistant_mean"
    prop = "U05"
    cases = tuple(dict(dev=d, kind=k) for k in "fc" for d in (1, 2, 3, 2.5, 5, 0.5))
    n_quick = 40
    opaque_np = ("std",)

    def inputs(self, b, case):
        n = b.int("n", 3, size=20)
        return dict(array=b.arr("array", case["kind"], n), deviations=case["dev"])

    def ensures(self, c, a, old, r):
        x, dv = old.array, old.deviations
        n = c.dim(x)
        med = c.median(n, lambda i: c.re(c(x, i)))
        ad = lambda i: c.abs(c(x, i) - med)
        mad = c.median(n, ad) / 0.67449999999999999
        keep = c.where(n, lambda i: ad(i) <= mad * dv)
        k = c.dim(keep)
        sig = c.std(k, lambda j: c.re(c(x, c(keep, j)))) + c.std(k, lambda j: c.im(c(x, c(keep, j)))) * 1j
        d1 = c.num(max(dv, 1.0))
        if max(dv, 1.0) <= 4.5:
            sig = sig / (((0.020142 * d1 - 0.23584) * d1 + 0.90723) * d1 - 0.15405)
        sub = c.where(n, lambda i: ad(i) <= c.abs(sig * dv))
        m = c.dim(sub)
        yield "mean of exactly the values within the two-stage threshold of the median", c.implies(c.and_(k > 0, m > 0), lambda: c.eq(r, c.sum(0, m, lambda j: c(x, c(sub, j))) / c.max(m, 1)))
        yield "data not modified", c.unchanged(a.array, x)


# ------------------------------------------------------------------ calibration flagging (C10)


@contract
class vis_calibration_flag_all(Contract):
    target = CU + "vis_calibration_flag"
    prop = "C10"
    cases = tuple(dict(npol=1, ff=ff) for ff in (True, False))
    n_quick = 60
    budget_s = 400
    merge_ifs = True
    opaque_np = ("std",)
    branch_ms = 0

    def inputs(self, b, case):
        nf, nt = b.int("n_freq", 4, size=5), b.int("n_tile", 3, size=5)
        return dict(obs=dict(baseline_info=dict(freq_use=b.arr("freq_use", "i", nf, 0, 1), tile_use=b.arr("tile_use", "i", nt, 0, 1))), cal=dict(n_pol=case["npol"], gain=b.arr("gain", "c", (case["npol"], nf, nt))), pyfhd_config=dict(cal_amp_degree_fit=2, cal_phase_degree_fit=1, flag_calibration_frequencies=case["ff"]), logger=b.logger())

    def may_raise(self, c, old, e):
        yield "stops only when nothing is left to fit", e.kind == "ValueError"

    def ensures(self, c, a, old, r):
        bi, bo = r["baseline_info"], old.obs["baseline_info"]
        for k in ("tile_use", "freq_use"):
            n = c.dim(bo[k])
            yield f"{k}: one entry each", c.is_shape(bi[k], n)
            yield f"{k}: kept or cleared, never set", c.forall([n], lambda i: c.or_(c.eq(c(bi[k], i), c(bo[k], i)), c.eq(c(bi[k], i), 0)))
        if not old.pyfhd_config["flag_calibration_frequencies"]:
            yield "frequencies untouched unless their flagging was asked for", c.unchanged(bi["freq_use"], bo["freq_use"])
        yield "gains not modified", c.unchanged(a.cal["gain"], old.cal["gain"])


# ------------------------------------------------------------------ even and odd samples (W02)


@contract
class split_vis_weights_all(Contract):
    target = U + "split_vis_weights"
    prop = "W02"
    cases = (1, 2)
    n_quick = 60
    merge_ifs = True

    def inputs(self, b, case):
        nf, nt, nb = b.int("n_freq", 1, size=3), b.int("n_time", 2, size=6), b.int("n_samples", 8, size=20)
        return dict(obs=dict(n_time=nt, n_pol=case, baseline_info=dict(bin_offset=b.arr("bin_offset", "i", nt, 0, gen=lambda r, s: [0] + sorted(r.sample(range(1, max(nb, 2)), min(s[0] - 1, max(nb, 2) - 1)))), time_use=b.arr("time_use", "i", nt, 0, 1))), vis_weights=b.arr("w", "f", (case, nf, nb)))

    def requires(self, c, a):
        o, bi = a.obs, a.obs["baseline_info"]
        nt, nb = o["n_time"], c.dim(a.vis_weights, 2)
        yield "the samples of each time follow those of the time before", c.and_(c.eq(c(bi["bin_offset"], 0), 0), c.forall([nt - 1], lambda t: c(bi["bin_offset"], t) < c(bi["bin_offset"], t + 1)), c(bi["bin_offset"], nt - 1) < nb)
        yield "a time is in use", c.exists([nt], lambda t: c.eq(c(bi["time_use"], t), 1))

    def ensures(self, c, a, old, r):
        w, bi = r
        w0 = old.vis_weights
        npol, nf, nb = c.shape(w0)
        yield "two lists of equal length", c.eq(c.dim(bi[0]), c.dim(bi[1]))
        m = c.dim(bi[0])
        for e in (0, 1):
            yield f"list {e} holds each sample once, in order", c.forall([m, m], lambda j, k: c.implies(j < k, lambda: c(bi[e], j) < c(bi[e], k)))
        yield "no weight is created", c.forall([npol, nf, nb], lambda p, f, s: c.or_(c.eq(c(w, p, f, s), 0), c.le(c(w, p, f, s), c.max(c(w0, p, f, s), 0))))
        yield "only samples of the two lists keep weight", c.forall([npol, nf, nb], lambda p, f, s: c.or_(c.eq(c(w, p, f, s), 0), c.exists([c.dim(bi[0])], lambda k: c.or_(c.eq(c(bi[0], k), s), c.eq(c(bi[1], k), s)))))


# ------------------------------------------------------------------ where each sample is gridded (G04)


@contract
class baseline_grid_locations_all(Contract):
    target = "PyFHD.gridding.gridding_utils:baseline_grid_locations"
    prop = "G04"
    cases = tuple(dict(fill=f, interp=i, mirror=m, given=True) for f in (False, True) for i in (False, True) for m in (False, True)) + tuple(dict(fill=False, interp=False, mirror=m, given=False) for m in (False, True))
    n_quick = 80
    merge_ifs = True
    budget_s = 150
    models = {U + "array_match": M.array_match_positions, "PyFHD.pyfhd_tools.pyfhd_utils:histogram": M.histogram_opaque}

    def inputs(self, b, case):
        nf, nb = b.int("n_freq", 1, size=5), b.int("n_samples", 1, size=12)
        lo = b.real("min_baseline", 0, 40)
        nt = b.int("n_tile", 1)
        obs = dict(n_tile=nt, n_freq=nf, dimension=2 * b.int("dimx", 4, size=12), elements=2 * b.int("dimy", 4, size=12), kpix=b.real("kpix", 0.5, 2), min_baseline=lo, max_baseline=lo + b.real("span", 0, 200),
                   baseline_info=dict(freq=b.arr("freq", "f", nf, 1, 10), freq_use=b.arr("freq_use", "i", nf, 0, 1), tile_a=b.arr("tile_a", "i", nb, 1, nt), tile_b=b.arr("tile_b", "i", nb, 1, nt)))
        m = b.int("n_selected", 1, size=10)
        d = dict(obs=obs, psf=dict(dim=2 * b.int("psf", 1, size=3), resolution=b.int("resolution", 1, size=10)), params=dict(uu=b.arr("uu", "f", nb, -3, 3), vv=b.arr("vv", "f", nb, -3, 3)), vis_weights=b.arr("w", "f", (nf, nb), -1, 2), logger=b.logger(), fill_model_visibilities=case["fill"], interp_flag=case["interp"], mask_mirror_indices=case["mirror"])
        k = b.int("n_channels", 1, size=5)
        if case["given"]:
            d["bi_use"] = b.arr("bi_use", "i", m, 0, gen=lambda r, s: [r.randrange(nb) for _ in range(s[0])])
        if case["given"] and not case["fill"]:
            d["fi_use"] = b.arr("fi_use", "i", k, 0, gen=lambda r, s: [r.randrange(nf) for _ in range(s[0])])
        return d

    def requires(self, c, a):
        nb, nf = c.dim(a.params["uu"]), a.obs["n_freq"]
        if "bi_use" not in a.__dict__:
            return
        yield "selected samples exist", c.forall([c.dim(a.bi_use)], lambda k: c.and_(c(a.bi_use, k) >= 0, c(a.bi_use, k) < nb))
        if not a.fill_model_visibilities:
            yield "selected frequencies exist", c.forall([c.dim(a.fi_use)], lambda k: c.and_(c(a.fi_use, k) >= 0, c(a.fi_use, k) < nf))

    def ensures(self, c, a, old, r):
        o, psf, fill = old.obs, old.psf, old.fill_model_visibilities
        bi = o["baseline_info"]
        freq = bi["freq"]
        given = "bi_use" in old.__dict__
        if given:
            bi_use = old.bi_use
            yield "selection not returned when given", "bi_use" not in r
        else:
            bi_use = r["bi_use"]
            w = old.vis_weights
            yield "samples with any positive weight are selected, in order", c.all_same(bi_use, c.where(c.dim(w, 1), lambda k: c.not_(c.eq(c.sum(0, c.dim(w), lambda f: c.max(c(w, f, k), 0)), 0))))
        if not fill:
            fi_use = old.fi_use if given else c.where(o["n_freq"], lambda f: c.not_(c.eq(c(bi["freq_use"], f), 0)))
        nf = o["n_freq"] if fill else c.dim(fi_use)
        nb = c.dim(bi_use)
        fi = lambda f: f if fill else c(fi_use, f)
        k0, res, dim = o["kpix"], psf["resolution"], psf["dim"]
        uu = lambda k: c(old.params["uu"], c(bi_use, k)) / k0
        vv = lambda k: c(old.params["vv"], c(bi_use, k)) / k0
        up = lambda k: vv(k) > 0
        x = lambda f, k: c(freq, fi(f)) * c.ite(up(k), lambda: -uu(k), lambda: uu(k))
        y = lambda f, k: c(freq, fi(f)) * c.ite(up(k), lambda: -vv(k), lambda: vv(k))
        off = lambda v: c.mod(c.floor((v - c.floor(v)) * res), res)
        for key, v in (("x_offset", x), ("y_offset", y)):
            yield f"{key}: sub-pixel offset of each sample", c.forall([nf, nb], lambda f, k: c.eq(c(r[key], f, k), off(v(f, k))))
        if old.interp_flag:
            fr = lambda v: (v - c.floor(v)) * res - c.floor((v - c.floor(v)) * res)
            for i in (0, 1):
                for j in (0, 1):
                    g = lambda q, t: t if q else 1 - t
                    yield f"bilinear weight {i} {j}", c.forall([nf, nb], lambda f, k: c.eq(c(r[f"dx{i}dy{j}_arr"], f, k), g(i, fr(x(f, k))) * g(j, fr(y(f, k)))))
        xm = lambda f, k: c.floor(x(f, k)) + o["dimension"] / 2 - (dim / 2 - 1)
        ym = lambda f, k: c.floor(y(f, k)) + o["elements"] / 2 - (dim / 2 - 1)
        outside = lambda p, n: c.or_(p <= 0, p + dim - 1 >= n - 1)

        def cut(f, k):
            t = [outside(xm(f, k), o["dimension"]), outside(ym(f, k), o["elements"])]
            if not fill:
                import numpy as np

                n = c.dim(freq)
                hi, lo = c.reduce("max", n, lambda i: c(freq, i), (), np.max), c.reduce("min", n, lambda i: c(freq, i), (), np.min)
                d = c.sqrt(uu(k) * uu(k) + vv(k) * vv(k)) * k0
                t += [lo * d < o["min_baseline"], hi * d > o["max_baseline"], c(old.vis_weights, fi(f), c(bi_use, k)) <= 0]
            if old.mask_mirror_indices:
                t.append(up(k))
            return c.or_(*t)

        for key, p in (("xmin", xm), ("ymin", ym)):
            yield f"{key}: corner of the footprint, or -1 where the sample is cut", c.forall([nf, nb], lambda f, k: c.eq(c(r[key], f, k), c.ite(cut(f, k), lambda: -1, lambda: p(f, k))))
        for nm in ("uu", "vv"):
            yield f"{nm} not modified", c.unchanged(a.params[nm], old.params[nm])
        yield "weights not modified", c.unchanged(a.vis_weights, old.vis_weights)


# ------------------------------------------------------------------ the resized observation (D03)


@contract
class update_obs_all(Contract):
    target = "PyFHD.data_setup.obs:update_obs"
    prop = "D03"
    cases = tuple(dict(fov=f, avg=g) for f in (False, True) for g in (False, True))
    n_quick = 60
    models = {U + "histogram": M.histogram_layout}

    def inputs(self, b, case):
        nf = b.int("n_freq", 1, size=6)
        old = 2 * b.int("old_half", 1, size=20)
        pair = lambda nm, k: b.arr(nm, k, 2)
        obs = dict(n_freq=nf, freq_res=b.real("freq_res", 1, 100), dimension=old, elements=old, obsx=old / 2, obsy=old / 2, kpix=b.real("old_kpix", 0.1, 2), degpix=b.real("old_degpix", 0.1, 2), max_baseline=b.real("longest", 0, 200), min_baseline=b.real("shortest", 0, 10),
                   astr=dict(naxis=pair("naxis", "i"), cdelt=pair("cdelt", "f"), crpix=pair("crpix", "f"), crval=pair("crval", "f")), baseline_info=dict(freq=b.arr("freq", "f", nf, 100, 200), fbin_i=b.arr("fbin_i", "i", nf, 0, gen=lambda r, s: [0] * s[0])))
        d = dict(obs=obs, dimension=2 * b.int("half", 1, size=30), kbinsize=b.real("kbinsize", 0.1, 3))
        if case["avg"]:
            d["beam_nfreq_avg"] = b.int("beam_nfreq_avg", 1, size=4)
        if case["fov"]:
            d["fov"] = b.real("fov", 5, 100)
        return d

    def ensures(self, c, a, old, r):
        n, o = old.dimension, old.obs
        deg = 180 / c.pi
        kp = deg / old.fov if "fov" in old.__dict__ else old.kbinsize
        yield "the plane is square and has the size given", c.and_(c.eq(r["dimension"], n), c.eq(r["elements"], n))
        yield "its centre is the phase centre", c.and_(c.eq(r["obsx"], n / 2), c.eq(r["obsy"], n / 2))
        yield "the pixel size follows the field of view, else the bin size", c.eq(r["kpix"], kp)
        yield "the angular pixel size is its reciprocal", c.eq(r["degpix"], deg / (kp * n))
        yield "the longest baseline is limited by the plane", c.eq(r["max_baseline"], c.min(o["max_baseline"], n * kp / c.sqrt(2)))
        yield "the shortest baseline is kept", c.eq(r["min_baseline"], o["min_baseline"])
        s = r["astr"]
        yield "the projection follows the plane", c.and_(*[c.and_(c.eq(c(s["naxis"], i), n), c.eq(c(s["cdelt"], i), r["degpix"]), c.eq(c(s["crpix"], i), n / 2 + 1)) for i in (0, 1)])
        yield "the direction it points at is kept", c.unchanged(s["crval"], o["astr"]["crval"])
        yield "frequencies not modified", c.unchanged(r["baseline_info"]["freq"], o["baseline_info"]["freq"])
        yield "every frequency has a bin", c.is_shape(r["baseline_info"]["fbin_i"], o["n_freq"])


# ------------------------------------------------------------------ outlier flagging: the frame (F02)


@contract
class vis_flag_all(Contract):
    target = "PyFHD.flagging.flagging:vis_flag"
    prop = "F02"
    cases = (1, 2)
    n_quick = 40
    merge_ifs = True
    budget_s = 200
    opaque_np = ("std",)
    models = {U + "idl_median": M.median_opaque}

    def inputs(self, b, case):
        npol, nf, nt, nb, ntile = case, 40, b.int("n_time", 1, size=4), b.int("n_baselines", 1, size=30), b.int("n_tile", 1, size=6)
        flag = lambda nm, n: b.arr(nm, "i", n, 0, 1)
        lo = b.real("min_baseline", 0, 10)
        obs = dict(n_pol=npol, n_freq=nf, n_time=nt, n_tile=ntile, min_baseline=lo, max_baseline=lo + b.real("span", 0, 1000),
                   baseline_info=dict(freq=b.arr("freq", "f", nf, 1, 10), freq_use=flag("freq_use", nf), tile_use=flag("tile_use", ntile), time_use=flag("time_use", nt), tile_a=b.arr("tile_a", "i", nb, 1, ntile), tile_b=b.arr("tile_b", "i", nb, 1, ntile), tile_names=b.arr("tile_names", "i", ntile), bin_offset=b.arr("bin_offset", "i", nt, 0, gen=lambda r, s: [0] + sorted(r.randrange(nb + 1) for _ in range(s[0] - 1)))))
        return dict(vis_arr=b.arr("vis", "c", (npol, nf, nb)), vis_weights=b.arr("w", "f", (npol, nf, nb)), obs=obs, params=dict(uu=b.arr("uu", "f", nb), vv=b.arr("vv", "f", nb)), logger=b.logger())

    def may_raise(self, c, old, e):
        yield "stops only when there is nothing to take a median of", e.kind == "IndexError"

    def ensures(self, c, a, old, r):
        w, obs = r
        w0, bo, bi = old.vis_weights, old.obs["baseline_info"], r[1]["baseline_info"]
        npol, nf, nb = c.shape(w0)
        yield "every weight is kept or becomes zero", c.forall([npol, nf, nb], lambda p, f, i: c.or_(c.eq(c(w, p, f, i), c(w0, p, f, i)), c.eq(c(w, p, f, i), 0)))
        for k in ("tile_use", "freq_use"):
            yield f"{k}: kept or cleared, never set", c.forall([c.dim(bo[k])], lambda i: c.or_(c.eq(c(bi[k], i), c(bo[k], i)), c.eq(c(bi[k], i), 0)))
        yield "visibilities not modified", c.unchanged(a.vis_arr, old.vis_arr)
        yield "times in use not modified", c.unchanged(bi["time_use"], bo["time_use"])
