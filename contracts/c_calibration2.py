"""Contracts on PyFHD/calibration: auto-correlations, flagging, band pass, solver, orchestration."""
import math
from pyvc.contract import contract, Contract, Skip
from contracts._stat import robust_mean

CU = "PyFHD.calibration.calibration_utils:"


def rng_of(b, name="seed"):
    import numpy as np

    return np.random.default_rng(b.int(name, 0, 10**6, size=10**6))


# ------------------------------------------------------------------ auto-correlations
@contract
class vis_extract_autocorr(Contract):
    target = CU + "vis_extract_autocorr"
    prop = "C05"
    level = "bounded"
    why_bounded = "np.unique of the selected tiles and per-tile gathers of data-dependent length"
    bound = "up to 6 tiles with or without auto-correlations, 5 times, 3 frequencies, 2 polarizations"
    cases = (dict(avg=True), dict(avg=False))
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt, ntile = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=3), b.int("n_time", 1, size=5), b.int("n_tile", 1, size=6)
        order = b.opaque("pairs", lambda r: r.sample([(i, j) for i in range(1, ntile + 1) for j in range(i, ntile + 1) if i != j or r.random() < 0.7], k=0) or [(i, j) for i in range(1, ntile + 1) for j in range(i, ntile + 1) if i != j or r.random() < 0.8])
        if not order:
            raise Skip
        if b.bool("shuffle"):
            order = b.opaque("order", lambda r: r.sample(order, len(order)))
        ta, tb = np.tile([p[0] for p in order], nt), np.tile([p[1] for p in order], nt)
        use = b.arr("time_use", "i", nt, gen=lambda r, s: [int(r.random() < 0.75) for _ in range(s[0])])
        return dict(obs=dict(n_pol=npol, n_freq=nf, baseline_info=dict(tile_a=ta, tile_b=tb, time_use=use)), vis_arr=b.arr("vis", "c", (npol, nf, len(ta))), pyfhd_config=dict(cal_time_average=case["avg"]))

    def ensures(self, c, a, old, r):
        import numpy as np

        auto, tiles = r
        bi, v = old.obs["baseline_info"], old.vis_arr
        at = np.nonzero(bi["tile_a"] == bi["tile_b"])[0]
        if len(at) == 0:
            yield "nothing without auto-correlations", c.and_(np.size(auto) == 1, np.size(tiles) == 0)
            return
        if not old.pyfhd_config["cal_time_average"]:
            yield "tile of every auto-correlation", list(tiles) == [int(bi["tile_a"][i]) - 1 for i in at]
            yield "real part of every auto-correlation", c.all_same(auto, v[:, :, at].real)
            return
        ut = sorted({int(bi["tile_a"][i]) - 1 for i in at})
        nt = len(bi["time_use"])
        nbl = len(bi["tile_a"]) // nt
        yield "every tile with auto-correlations once, in order", [int(t) for t in tiles] == ut
        used = [t for t in range(nt) if bi["time_use"][t]]

        def want(p, f, k):
            if not used:
                return 0.0
            i0 = next(i for i in range(nbl) if bi["tile_a"][i] == bi["tile_b"][i] == ut[k] + 1)
            return sum(v[p, f, t * nbl + i0].real for t in used) / len(used)

        yield "mean over the used times of the tile's own auto-correlation", c.and_(c.is_shape(auto, v.shape[0], v.shape[1], len(ut)), c.forall([v.shape[0], v.shape[1], len(ut)], lambda p, f, k: c.eq(auto[p, f, k], want(p, f, k))))
        yield "visibilities not modified", c.unchanged(a.vis_arr, v)


@contract
class vis_cal_auto_init(Contract):
    target = CU + "vis_cal_auto_init"
    prop = "C05"
    level = "bounded"
    why_bounded = "scale from the robust mean (itself bounded)"
    bound = "up to 6 tiles, 5 frequencies, 2 polarizations, zero and negative auto-correlations"
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt, nb = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=5), b.int("n_tile", 1, size=6), b.int("nb", 3, size=8)
        na = b.int("n_auto", 1, nt)
        at = np.array(b.opaque("auto_tile_i", lambda r: sorted(r.sample(range(nt), na))))
        use = b.arr("freq_use", "i", nf, gen=lambda r, s: [int(r.random() < 0.8) for _ in range(s[0])])
        if not use.any():
            raise Skip
        odd = b.choice("odd", [0.0, 0.0, 0.0, -1.0, float("nan")])
        pos = lambda r, s: np.array([r.choice([0.0 if r.random() < 0.7 else odd, r.uniform(0.1, 9), r.uniform(0.1, 9), r.uniform(0.1, 9)]) for _ in range(int(np.prod(s)))]).reshape(s)
        return dict(obs=dict(n_freq=nf, n_tile=nt, baseline_info=dict(freq_use=use)), cal=dict(n_pol=npol), vis_arr=b.arr("vis", "c", (npol, nf, nb)), vis_model_arr=b.arr("model", "c", (npol, nf, nb)), vis_auto=b.arr("va", "f", (npol, nf, na), gen=pos), vis_auto_model=b.arr("vam", "f", (npol, nf, na), gen=pos), auto_tile_i=at)

    def ensures(self, c, a, old, r):
        import numpy as np

        npol, nf, nt = old.cal["n_pol"], old.obs["n_freq"], old.obs["n_tile"]
        use = np.nonzero(old.obs["baseline_info"]["freq_use"])[0]
        yield "shape", c.is_shape(r, npol, nf, nt)
        for p in range(npol):
            rd, rm = robust_mean(np.abs(old.vis_arr[p][use]), 2), robust_mean(np.abs(old.vis_model_arr[p][use]), 2)
            if rm == 0 or rd == 0:
                raise Skip
            g = np.ones((nf, nt))
            va, vm = old.vis_auto[p], old.vis_auto_model[p]
            if not ((va >= 0).all() and (vm >= 0).all()):
                yield f"gains are usable even where an auto-correlation is not (polarization {p})", bool(np.isfinite(r[p]).all() and (np.abs(r[p]) > 0).all())
                continue
            g[:, old.auto_tile_i] = np.sqrt(np.where(vm != 0, va / np.where(vm != 0, vm, 1), 0))
            m = g.mean()
            g = g * (np.sqrt(rd / rm) / m if m else 0)
            g[g <= 0] = 1
            yield f"square root of the ratio of data to model auto-correlation, scaled to the robust amplitude ratio; one where unusable (polarization {p})", c.all_same(np.asarray(r[p]), g)
        yield "inputs not modified", c.and_(c.unchanged(a.vis_auto, old.vis_auto), c.unchanged(a.vis_auto_model, old.vis_auto_model), c.unchanged(a.vis_arr, old.vis_arr))


@contract
class vis_cal_auto_fit(Contract):
    target = CU + "vis_cal_auto_fit"
    prop = "C05"
    level = "bounded"
    why_bounded = "least squares is library code; its optimality conditions are checked"
    bound = "up to 6 tiles, 14 frequencies, 2 polarizations"
    n_quick = 300

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt = b.int("n_pol", 1, 2), b.int("n_freq", 3, size=14), b.int("n_tile", 1, size=6)
        na = b.int("n_auto", 1, nt)
        at = np.array(b.opaque("auto_tile_i", lambda r: sorted(r.sample(range(nt), na))))
        use = b.arr("freq_use", "i", nf, gen=lambda r, s: [int(r.random() < 0.85) for _ in range(s[0])])
        g = b.arr("gain", "c", (npol, nf, nt))
        if b.bool("hole"):
            g[0, nf // 2, at[0]] = np.nan
        return dict(obs=dict(n_freq=nf, n_tile=nt, baseline_info=dict(freq_use=use)), cal=dict(n_pol=npol, gain=g), vis_auto=b.arr("va", "f", (npol, nf, na), 0.5, 9), vis_auto_model=b.arr("vam", "f", (npol, nf, na), 0.5, 9), auto_tile_i=at)

    def ensures(self, c, a, old, r):
        import numpy as np

        npol, nf, nt = old.cal["gain"].shape
        use = old.obs["baseline_info"]["freq_use"]
        at, g0, g = list(old.auto_tile_i), old.cal["gain"], r["gain"]
        ok = [f for f in range(nf) if all(use[k] for k in range(max(0, f - 1), min(nf, f + 2)))]
        x = np.sqrt(old.vis_auto / old.vis_auto_model)
        off, slope = r["auto_params"][0], r["auto_params"][1]
        yield "shapes", c.and_(c.same_shape(g, g0), c.is_shape(r["auto_params"], 2, npol, nt))
        for p in range(npol):
            for k, t in enumerate(at):
                s, o = slope[p, t], off[p, t]
                sel = [f for f in ok if not np.isnan(g0[p, f, t])]
                y = np.abs(g0[p, sel, t])
                res = s * x[p, sel, k] + o - y
                sc = 1 + np.abs(y).sum() + abs(s) * np.abs(x[p, sel, k]).sum() + abs(o) * len(sel)
                yield "scale and offset are the least squares solution over used frequencies away from flagged ones", abs(res.sum()) < 1e-7 * sc and abs((res * x[p, sel, k]).sum()) < 1e-7 * sc * (1 + x.max())
                w = (x[p, :, k] * s + o) * np.exp(1j * np.angle(g0[p, :, t]))
                yield "fitted amplitude with the original phase", c.all_same(g[p, :, t], w)
        rest = [t for t in range(nt) if t not in at]
        yield "gains of other tiles unchanged", c.all_same(g[:, :, rest], g0[:, :, rest])
        yield "parameters of other tiles are zero", bool((off[:, rest] == 0).all() and (slope[:, rest] == 0).all())
        yield "mean scale per polarization", c.all_same(np.asarray(r["auto_scale"]), slope[:, at].mean(axis=1))
        yield "auto-correlations not modified", c.and_(c.unchanged(a.vis_auto, old.vis_auto), c.unchanged(a.vis_auto_model, old.vis_auto_model))


# ------------------------------------------------------------------ flagging of solutions
@contract
class vis_calibration_flag(Contract):
    target = CU + "vis_calibration_flag"
    prop = "C10"
    level = "bounded"
    why_bounded = "medians, standard deviations and polynomial fits over data-dependent selections"
    bound = "up to 60 tiles, 55 frequencies, 2 polarizations, planted outliers of every kind"
    cases = (dict(ff=True), dict(ff=False))
    n_quick = 1500

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        # an outlier of five standard deviations needs at least 28 tiles or frequencies to exist
        npol, nf, nt = b.int("n_pol", 1, 2), b.int("n_freq", 5, 55, size=50), b.int("n_tile", 5, 60, size=55)
        gain = (1 + 0.05 * g.normal(size=(npol, nf, nt))) * np.exp(1j * (g.uniform(-1, 1, size=(npol, 1, nt)) + 0.02 * np.arange(nf)[:, None] * g.uniform(-1, 1, size=(npol, 1, nt)) + 0.05 * g.normal(size=(npol, nf, nt))))
        pol = lambda: g.integers(npol)
        tile = lambda: g.choice(nt, size=1 + (g.random() < 0.3), replace=False)
        freq = lambda: g.choice(nf, size=1 + (g.random() < 0.3), replace=False)
        kinds = g.choice(9, size=g.integers(1, 4), replace=False)
        for k in kinds:
            p, t, f = pol(), tile(), freq()
            if k == 0:
                gain[p][:, t] *= g.choice([0.1, 3.0, 0.45, 2.2, 0.6, 1.7])
            elif k == 1:
                gain[p][:, t if g.random() < 0.6 else g.random(nt) < 0.3] = g.choice([0.0, 0.0, 1.0])
            elif k == 2:
                gain[p][f] = 0
            elif k == 3:
                gain[p][:, t] *= (1 + g.choice([0.3, 0.6, 2]) * g.normal(size=(nf, 1)))
            elif k == 4:
                gain[p][f] *= 1 + g.choice([0.1, 0.3, 2]) * g.normal(size=nt)
            elif k == 5:
                gain[p][:, t] *= np.exp(1j * np.arange(nf) * g.choice([0.9, 0.3, -0.9, 0.15]))[:, None]
            elif k == 6:
                gain[p][:, t] *= np.exp(1j * g.choice([0.3, 1]) * g.normal(size=(nf, 1)))
            elif k == 7:
                gain[p][:, t] += 0.1 * np.linspace(-1, 1, nf)[:, None] ** g.integers(1, 4) * g.choice([1, 5])
            elif k == 8 and nt > 30:
                # two levels of outliers: the second is only visible once the first is set aside
                gain[p][:, t[:1]] *= 1 + 4 * g.normal(size=(nf, 1))
                u = g.integers(nt)
                gain[p][:, u] *= 1 + g.choice([0.2, 0.5]) * g.normal(size=nf)
        if g.random() < 0.3:
            # a ladder of outliers: each is visible only once the larger ones are set aside
            p, n = pol(), g.integers(2, 6)
            if nf > 33:
                f = g.choice(nf, size=n, replace=False)
                gain[p][f] *= 1 + (0.5 * 6.0 ** np.arange(n) * g.uniform(0.8, 1.2, size=n))[:, None] * g.choice([-0.1, 0.1], size=(n, nt))
            if nt > 33:
                t = g.choice(nt, size=n, replace=False)
                gain[p][:, t] *= 1 + (0.04 * g.choice([3, 6]) ** np.arange(1.0, n + 1))[None, :] * g.normal(size=(nf, n))
        if g.random() < 0.25:  # tiles of very different sensitivity
            gain *= np.exp(g.choice([0.3, 0.5, 0.8]) * g.normal(size=nt))
        tu, fu = (g.random(nt) < 0.9).astype(int), (g.random(nf) < 0.9).astype(int)
        if tu.sum() < 3 or fu.sum() < 5:
            raise Skip
        gain[:, :, tu == 0] = np.nan
        return dict(obs=dict(baseline_info=dict(freq_use=fu, tile_use=tu)), cal=dict(n_pol=npol, gain=gain), pyfhd_config=dict(cal_amp_degree_fit=int(g.integers(0, 3)), cal_phase_degree_fit=int(g.integers(0, 3)), flag_calibration_frequencies=case["ff"]), logger=b.logger())

    def expected(self, old):
        import numpy as np

        def far(x, lim):
            if np.any(np.abs(x - lim) < 1e-9 * (1 + np.abs(lim))):
                raise Skip

        def fit_res(x, y, d):
            A = np.vander((x - x.mean()) / max(1, np.ptp(x)), d + 1, increasing=True)
            k = np.linalg.lstsq(A, y, rcond=None)[0]
            return y - A @ k, k[1] / max(1, np.ptp(x)) if d == 1 else None

        cfg = old.pyfhd_config
        tu, fu = old.obs["baseline_info"]["tile_use"].astype(bool).copy(), old.obs["baseline_info"]["freq_use"].astype(bool).copy()
        for p in range(old.cal["n_pol"]):
            ti, fi = np.nonzero(tu)[0], np.nonzero(fu)[0]
            if len(ti) < 2 or len(fi) < 4:
                raise Skip
            amp = np.abs(old.cal["gain"][p])[np.ix_(fi, ti)]
            ffom = np.std(amp, axis=1)
            tfom = np.array([np.std(fit_res(fi.astype(float), amp[:, k], cfg["cal_amp_degree_fit"])[0]) for k in range(len(ti))])
            if np.any((ffom > 0) & (ffom < 1e-9)) or np.any((tfom < 1e-9) & (amp != 0).any(axis=0)):
                raise Skip  # whether a rounded residual is exactly zero is not specified
            if np.isnan(ffom).any() or np.isnan(tfom).any():
                raise Skip
            tavg = np.median(amp, axis=0)
            med = np.median(tavg)
            far(tavg, med / 2), far(tavg, med * 2)
            bad_avg = (tavg < med / 2) | (tavg > med * 2)
            fgood, tgood = ffom > 0, tfom > 0
            if not fgood.any() or not tgood.any():
                raise Skip
            fu[fi[~fgood]] = False
            tu[ti[~tgood]] = False
            prev = max((~fgood).sum() + (~tgood).sum(), 0)
            for it in range(3):
                lf = np.median(ffom[fgood]) + 5 * np.std(ffom[fgood])
                lt = np.median(tfom[tgood]) + 5 * np.std(tfom[tgood])
                far(ffom, lf), far(tfom, lt)
                fc, tc = ffom > lf, (tfom > lt) | bad_avg
                fgood, tgood = fgood & ~fc, tgood & ~tc
                if not fgood.any() or not tgood.any():
                    raise Skip
                if fc.sum() + tc.sum() - prev <= 0:
                    break
                prev = fc.sum() + tc.sum()
            fu[fi[fc]] = False
            tu[ti[tc]] = False
            ti, fi = np.nonzero(tu)[0], np.nonzero(fu)[0]
            if len(ti) < 2 or len(fi) < 4:
                raise Skip
            ph = np.angle(old.cal["gain"][p])[np.ix_(fi, ti)]
            d = cfg["cal_phase_degree_fit"]
            slope, sig = np.zeros(len(ti)), np.zeros(len(ti))
            for k in range(len(ti)):
                y = np.unwrap(ph[:, k])
                res, _ = fit_res(fi.astype(float), y, d)
                sig[k] = np.std(res)
                slope[k] = np.polynomial.polynomial.polyfit(fi.astype(float), y, d)[1] if d else 0.0
            ls, lg = np.median(np.abs(slope)) + 5 * np.std(slope), np.median(sig) + 5 * np.std(sig)
            far(np.abs(slope), ls) if d else None, far(sig, lg)
            tu[ti[(np.abs(slope) > ls) | (sig > lg)]] = False
        return tu, fu

    def may_raise(self, c, a, exc):
        self.expected(a)
        return False

    def ensures(self, c, a, old, r):
        import numpy as np

        bi0, bi = old.obs["baseline_info"], r["baseline_info"]
        yield "no flagged tile becomes used", bool(np.all(bi["tile_use"][bi0["tile_use"] == 0] == 0))
        yield "no flagged frequency becomes used", bool(np.all(bi["freq_use"][bi0["freq_use"] == 0] == 0))
        yield "frequencies are flagged only on request", c.implies(not old.pyfhd_config["flag_calibration_frequencies"], lambda: c.unchanged(bi["freq_use"], bi0["freq_use"]))
        yield "gains not modified", c.unchanged(a.cal["gain"], old.cal["gain"])
        tu, fu = self.expected(old)
        yield "exactly the tiles without variation, with outlying scatter, mean amplitude, phase slope or phase scatter are flagged", list(bi["tile_use"] != 0) == list(tu)
        if old.pyfhd_config["flag_calibration_frequencies"]:
            yield "exactly the frequencies without variation or with outlying scatter are flagged", list(bi["freq_use"] != 0) == list(fu)


# ------------------------------------------------------------------ band pass
@contract
class vis_cal_bandpass(Contract):
    target = CU + "vis_cal_bandpass"
    prop = "C03"
    level = "bounded"
    why_bounded = "robust means per frequency (themselves bounded)"
    bound = "up to 6 tiles, 8 frequencies, 2 polarizations; tiles and frequencies without solutions"
    n_quick = 250

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=8), b.int("n_tile", 3, size=7)
        g = rng_of(b)
        gain = g.normal(size=(npol, nf, nt)) * 0.3 + 1 + 0.5j * g.normal(size=(npol, nf, nt))
        fu, tu = (g.random(nf) < 0.8).astype(int), (g.random(nt) < 0.8).astype(int)
        if not fu.any() or tu.sum() < 2:
            raise Skip
        if g.random() < 0.3:
            gain[:, g.integers(nf), :] = 0
        if g.random() < 0.3:
            gain[:, :, g.integers(nt)] = 0
        if g.random() < 0.2:
            gain[g.integers(npol)] = 0
        gain[:, :, tu == 0] = g.choice([0, 1, np.nan])
        return dict(obs=dict(n_freq=nf, n_tile=nt, baseline_info=dict(freq=np.linspace(180e6, 190e6, nf), freq_use=fu, tile_use=tu)), cal=dict(n_pol=npol, gain=gain, extra=np.arange(3)), pyfhd_config=dict(cal_bp_transfer=None, cable_bandpass_fit=False, auto_ratio_calibration=False, instrument="mwa"), logger=b.logger())

    def groups(self, old):
        """sets of tiles that share a band pass"""
        import numpy as np

        return [np.nonzero(old.obs["baseline_info"]["tile_use"])[0]]

    def ensures(self, c, a, old, r):
        import numpy as np

        bp, rem = r
        g0, bi = old.cal["gain"], old.obs["baseline_info"]
        npol, nf, nt = g0.shape
        fu, tu = np.nonzero(bi["freq_use"])[0], np.nonzero(bi["tile_use"])[0]
        groups = self.groups(old)
        B, R = bp["gain"], rem["gain"]
        yield "shapes", c.and_(c.same_shape(B, g0), c.same_shape(R, g0))
        for p in range(npol):
            for grp in groups:
                norm = np.zeros((len(fu), len(grp)))
                for k, t in enumerate(grp):
                    m = robust_mean(np.abs(g0[p, fu, t]), 2)
                    norm[:, k] = np.abs(g0[p, fu, t]) / m if m else 0
                want = np.array([robust_mean(norm[f], 2) for f in range(len(fu))])
                own = grp
                yield f"band pass of a used tile is the robust mean over its group of the normalised amplitudes (polarization {p})", c.all_same(B[p][np.ix_(fu, own)], np.repeat(want[:, None], len(own), 1) + 0j)
        b, m, g = B[:, fu][:, :, tu], R[:, fu][:, :, tu], g0[:, fu][:, :, tu]
        yield "band pass times remainder is the gain wherever the band pass is not zero", c.all_same((b * m)[b != 0], g[b != 0])
        yield "remainder is zero where the band pass is zero", bool((m[b == 0] == 0).all())
        yield "no NaN appears in used tiles", bool(np.isfinite(m).all() and np.isfinite(b).all())
        fx = [f for f in range(nf) if f not in fu]
        yield "unused frequencies have no band pass and keep their gain as remainder", c.and_(bool((B[:, fx][:, :, tu] == 0).all()), c.all_same(R[:, fx][:, :, tu], g0[:, fx][:, :, tu]))
        yield "input gains not modified", c.unchanged(a.cal["gain"], g0)


@contract
class vis_cal_bandpass_cable(vis_cal_bandpass):
    bound = "128 tiles with the cable lengths of the instrument file, up to 4 frequencies"
    cases = (dict(auto=False), dict(auto=True))
    n_quick = 40

    def inputs(self, b, case):
        import numpy as np

        npol, nf, nt = b.int("n_pol", 1, 2), b.int("n_freq", 2, 4), 128
        g = rng_of(b)
        gain = g.normal(size=(npol, nf, nt)) * 0.3 + 1 + 0.5j * g.normal(size=(npol, nf, nt))
        fu, tu = np.ones(nf, int), (g.random(nt) < 0.9).astype(int)
        if g.random() < 0.4:
            fu[g.integers(nf)] = 0
        if g.random() < 0.3:
            tu[self.lengths() == g.choice(np.unique(self.lengths()))] = 0
        if g.random() < 0.3:
            gain[:, g.integers(nf), :] = 0
        return dict(obs=dict(n_freq=nf, n_tile=nt, baseline_info=dict(freq=np.linspace(180e6, 190e6, nf), freq_use=fu, tile_use=tu)), cal=dict(n_pol=npol, gain=gain), pyfhd_config=dict(cal_bp_transfer=None, cable_bandpass_fit=True, auto_ratio_calibration=case["auto"], instrument="mwa"), logger=b.logger())

    def lengths(self):
        import numpy as np, os, PyFHD

        return np.loadtxt(os.path.join(os.path.dirname(PyFHD.__file__) if PyFHD.__file__ else list(PyFHD.__path__)[0], "templates", "mwa_cable_reflection_coefficients.txt"), skiprows=1)[:, 2]

    def groups(self, old):
        import numpy as np

        tu = old.obs["baseline_info"]["tile_use"]
        ln = self.lengths()
        gs = [np.nonzero((tu > 0) & (ln == x))[0] for x in np.unique(ln)]
        if old.pyfhd_config["auto_ratio_calibration"] or any(len(x) == 0 for x in gs):
            return [np.nonzero(tu)[0]]
        return gs


# ------------------------------------------------------------------ comparison with the model
@contract
class vis_baseline_hist(Contract):
    target = CU + "vis_baseline_hist"
    prop = "C08"
    level = "bounded"
    why_bounded = "reverse indices of histogram (itself bounded)"
    bound = "up to 12 baselines, 3 frequencies, 4 polarizations"
    n_quick = 400

    def inputs(self, b, case):
        npol, nf, nb = b.choice("n_pol", [1, 2, 2, 4]), b.int("n_freq", 1, size=3), b.int("nb", 1, size=12)
        lo = b.real("lo", 0, 10)
        m = b.arr("model", "c", (npol, nf, nb))
        z = b.arr("zero", "f", (npol, nf, nb), 0, 1)
        m[z < 0.2] = 0
        import numpy as np

        return dict(obs=dict(kpix=b.choice("kpix", [0.5, 1.0]), n_pol=npol, min_baseline=lo, max_baseline=lo + b.real("span", 1, 60), baseline_info=dict(freq=b.arr("freq", "f", nf, 90, 110))), params=dict(uu=b.arr("uu", "f", nb, -0.5, 0.5), vv=b.arr("vv", "f", nb, -0.5, 0.5)), vis_cal=b.arr("vis", "c", (npol, nf, nb)), vis_model_arr=m)

    def ensures(self, c, a, old, r):
        import numpy as np

        o = old.obs
        d = np.hypot(old.params["uu"], old.params["vv"])[None, :] * o["baseline_info"]["freq"][:, None]
        lo, hi = o["min_baseline"], o["max_baseline"]
        n = r["baseline_length"]
        k = (d - lo) / 5.0
        if np.any(np.abs(k - np.round(k)) < 1e-9) or np.any(np.abs(d - hi) < 1e-9) or abs((hi - lo) / 5 - round((hi - lo) / 5)) < 1e-9:
            raise Skip
        yield "as many bins of five wavelengths as fit the range", n == int((hi - lo) // 5) + 1
        yield "shapes", c.and_(c.is_shape(r["vis_res_ratio_mean"], o["n_pol"], n), c.is_shape(r["vis_res_sigma"], o["n_pol"], n))
        for p in range(o["n_pol"]):
            for j in range(n):
                sel = (k >= j) & (k < j + 1) & (d <= hi) & (d >= lo) & (np.abs(old.vis_model_arr[p]) > 0)
                e = np.abs(old.vis_cal[p][sel] - old.vis_model_arr[p][sel])
                m = np.abs(old.vis_model_arr[p][sel]).mean() if sel.any() else 1
                yield "mean residual over mean model of the visibilities in the length bin", c.eq(r["vis_res_ratio_mean"][p, j], e.mean() / m if sel.any() else 0)
                yield "scatter of the residual over mean model", c.eq(r["vis_res_sigma"][p, j], e.std() / m if sel.any() else 0)
        yield "visibilities not modified", c.and_(c.unchanged(a.vis_cal, old.vis_cal), c.unchanged(a.vis_model_arr, old.vis_model_arr))


@contract
class calibrate_qu_mixing(Contract):
    target = "PyFHD.calibration.calibrate:calibrate_qu_mixing"
    prop = "C08"
    level = "bounded"
    why_bounded = "least squares is library code; its solution is checked through exactly mixed data"
    bound = "up to 4 frequencies, 3 times, 5 baselines"
    n_quick = 250

    def inputs(self, b, case):
        import numpy as np

        nf, nt, nbl = b.int("n_freq", 1, size=4), b.int("n_time", 1, size=3), b.int("n_baselines", 1, size=5)
        nb = nt * nbl
        w = b.arr("w", "f", (4, nf, nb), gen=lambda r, s: np.array([r.choice([1.0, 1.0, 0.0, -1.0, 3.0, 0.5]) for _ in range(int(np.prod(s)))]).reshape(s))
        return dict(vis_arr=b.arr("vis", "c", (4, nf, nb)), vis_model_arr=b.arr("model", "c", (4, nf, nb)), vis_weights=w, obs=dict(n_freq=nf, n_time=nt, n_baselines=nbl))

    def ensures(self, c, a, old, r):
        import numpy as np

        o = old.obs
        w = np.clip(old.vis_weights[0], 0, 1).reshape(o["n_freq"], o["n_time"], o["n_baselines"])
        use = w.sum(1) > 0

        def slope(v):
            av = lambda z: (z.reshape(w.shape) * w).sum(1)[use]
            q, u = av(v[1] - v[0]), av(v[3] + v[2])
            if len(u) < 2:
                raise Skip
            du, dq = u - u.mean(), q - q.mean()
            if (np.abs(du) ** 2).sum() < 1e-6:
                raise Skip
            s = (np.conj(du) * dq).sum() / (np.abs(du) ** 2).sum()
            if abs(s) < 1e-6:
                raise Skip
            return s

        d = np.angle(slope(old.vis_model_arr)) - np.angle(slope(old.vis_arr))
        yield "difference of the regression phases of Q on U between model and data", abs(np.exp(1j * r) - np.exp(1j * d)) < 1e-6
        yield "inputs not modified", c.and_(c.unchanged(a.vis_arr, old.vis_arr), c.unchanged(a.vis_model_arr, old.vis_model_arr), c.unchanged(a.vis_weights, old.vis_weights))
