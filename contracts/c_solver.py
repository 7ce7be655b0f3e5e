"""Contracts on PyFHD/calibration: the gain solver, polynomial fits, orchestration."""
import math
from pyvc.contract import contract, Contract, Skip
from contracts._stat import robust_mean
from contracts.c_calibration2 import rng_of

CU = "PyFHD.calibration.calibration_utils:"


def make_obs(g, nt, nf, ntime, npol, order=None):
    """a small observation: every pair of tiles, `ntime` times, lengths between 150 and 1000 wavelengths"""
    import numpy as np

    pr = [(i, j) for i in range(1, nt + 1) for j in range(i + 1, nt + 1)]
    if g.random() < 0.5:
        pr = [pr[i] for i in g.permutation(len(pr))]
    nbl = len(pr)
    ta, tb = np.tile([p[0] for p in pr], ntime), np.tile([p[1] for p in pr], ntime)
    r, th = g.uniform(8e-7, 5e-6, nbl), g.uniform(0, 2 * np.pi, nbl)
    obs = dict(min_baseline=1.0, max_baseline=2000.0, dimension=4096, elements=4096, n_pol=npol, n_freq=nf, n_tile=nt, n_time=ntime, n_baselines=nbl, kpix=0.5, pol_names=["XX", "YY", "XY", "YX"], baseline_info=dict(tile_a=ta, tile_b=tb, freq=np.linspace(180e6, 195e6, nf) if nf > 1 else np.array([182e6]), tile_use=np.ones(nt, int), freq_use=np.ones(nf, int), time_use=np.ones(ntime, int), tile_names=np.array([f"T{k}" for k in range(nt)])))
    return obs, dict(uu=np.tile(r * np.cos(th), ntime), vv=np.tile(r * np.sin(th), ntime))


def corrupt(model, gain, ta, tb):
    import numpy as np

    n2 = min(2, model.shape[0])
    return np.stack([model[p] * gain[p][:, ta - 1] * np.conj(gain[p][:, tb - 1]) for p in range(n2)] + [model[p] * gain[p - 2][:, ta - 1] * np.conj(gain[3 - p][:, tb - 1]) for p in range(2, model.shape[0])])


def off_plane(obs, params):
    import numpy as np

    x = [np.abs(params[k])[None, :] * obs["baseline_info"]["freq"][:, None] / obs["kpix"] for k in ("uu", "vv")]
    return (x[0] > obs["elements"] / 2) | (x[1] > obs["dimension"] / 2)


def lengths(obs, params):
    import numpy as np

    return np.hypot(params["uu"], params["vv"])[None, :] * obs["baseline_info"]["freq"][:, None]


SOLVER = dict(min_cal_baseline=None, max_cal_baseline=None, cal_time_average=True, max_cal_iter=150, cal_convergence_threshold=1e-9, cal_adaptive_calibration_gain=False, cal_base_gain=1.0, cal_phase_fit_iter=None)


class SolverCase(Contract):
    target = "PyFHD.calibration.vis_calibrate_subroutine:vis_calibrate_subroutine"
    prop = "C06"
    level = "bounded"
    why_bounded = "an iterative solver whose convergence is not expressible in the term language"
    n_quick = 40
    noise = 0.0

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        npol, nf, nt, ntime = b.int("n_pol", 1, 2), b.int("n_freq", 1, size=3), b.int("n_tile", 8, 10), b.int("n_time", 1, 3)
        obs, params = make_obs(g, nt, nf, ntime, npol)
        bi = obs["baseline_info"]
        ta, tb = bi["tile_a"], bi["tile_b"]
        nv = len(ta)
        model = g.normal(size=(npol, nf, nv)) + 1j * g.normal(size=(npol, nf, nv)) + 1.5
        gain = (1 + 0.3 * g.uniform(-1, 1, size=(npol, nf, nt))) * np.exp(1j * g.uniform(-0.6, 0.6, size=(npol, nf, nt)))
        vis = corrupt(model, gain, ta, tb)
        if self.noise:
            vis = vis + self.noise * (g.normal(size=vis.shape) + 1j * g.normal(size=vis.shape))
        w = np.ones((npol, nf, nv))
        k = g.random()
        if k < 0.5:  # flagged samples
            w[g.random(w.shape) < 0.04] = 0
        if k > 0.3:
            w *= g.choice([1.0, 1.0, 1.0, 2.0, 0.5], size=w.shape)
        if g.random() < 0.5:
            w[g.random(w.shape) < 0.03] = -1
        if g.random() < 0.4 and nf > 1:
            bi["freq_use"][g.integers(nf)] = 0
        if g.random() < 0.4:
            t = int(g.integers(nt))
            bi["tile_use"][t] = 0
            w[:, :, (ta == t + 1) | (tb == t + 1)] = 0
        if g.random() < 0.3 and nf > 1:  # a tile with hardly any data at one frequency
            t, f = int(g.integers(nt)), int(g.integers(nf))
            m = np.nonzero((ta == t + 1) | (tb == t + 1))[0]
            w[:, f, m] = 0
            keep = int(g.choice([0, 3, 4, 5]))  # too few baselines, or just enough of them
            if keep:
                q = np.unique(m % obs["n_baselines"])
                w[:, f, np.isin(np.arange(nv) % obs["n_baselines"], g.choice(q, keep, replace=False))] = 1
        if g.random() < 0.25 and nf > 1:
            w[g.integers(npol) if g.random() < 0.5 else slice(None), g.integers(nf), :] = 0
        cfg = dict(SOLVER, cal_time_average=case["avg"], cal_adaptive_calibration_gain=case["adaptive"], cal_base_gain=0.75 if case["adaptive"] else 1.0)
        if b.bool("range"):
            cfg.update(min_cal_baseline=250.0, max_cal_baseline=900.0)
        weighted = case["weighted"]
        if g.random() < 0.3:  # a small plane: the longest baselines fall off it
            d = [np.abs(params[k])[None, :] * bi["freq"][:, None] / obs["kpix"] for k in ("uu", "vv")]
            if g.random() < 0.5:
                obs["elements"] = int(2 * np.quantile(d[0], 0.95)) + 1
            else:
                obs["dimension"] = int(2 * np.quantile(d[1], 0.95)) + 1
        # whatever has no weight or lies outside the baseline range must not matter
        if not (w > 0).any():
            raise Skip
        bad = ~(np.clip(w, 0, 1) > 0)
        if not weighted:
            d = lengths(obs, params)
            bad |= ((d < (cfg["min_cal_baseline"] or 1.0)) | (d > (cfg["max_cal_baseline"] or 2000.0)))[None]
        bad |= off_plane(obs, params)[None]
        junk = 10 * (g.normal(size=vis.shape) + 1j * g.normal(size=vis.shape))
        if g.random() < 0.4:
            junk[g.random(junk.shape) < 0.5] = np.nan
        vis = np.where(bad, junk, vis)
        if g.random() < 0.3:
            model[bad & (g.random(w.shape) < 0.5)] = np.nan
        if g.random() < 0.2:  # nothing is known of these: they take no part in the fit
            model[g.random(w.shape) < 0.01] = np.nan
        init = np.ones((npol, nf, nt), complex)
        if g.random() < 0.5:
            init *= g.uniform(0.8, 1.2, size=init.shape)
        self.truth = gain
        return dict(vis_arr=vis, vis_model_ptr=model, vis_weight_ptr=w, obs=obs, cal=dict(n_pol=npol, gain=init, ref_antenna=1), params=params, pyfhd_config=cfg, logger=b.logger(), calibration_weights=weighted)

    def parts(self, old):
        """per polarization: averaged data, model, which (frequency, baseline) take part, used tiles and frequencies"""
        import numpy as np

        o, cfg, bi = old.obs, old.pyfhd_config, old.obs["baseline_info"]
        nbl, ntime = o["n_baselines"], o["n_time"]
        d = lengths(o, old.params)
        lo, hi = (cfg["min_cal_baseline"] or o["min_baseline"]), (cfg["max_cal_baseline"] or o["max_baseline"])
        inr = (d >= lo) & (d <= hi) if not old.calibration_weights else d >= o["min_baseline"]
        inr = inr & ~off_plane(o, old.params)
        lo, hi = max(lo, o["min_baseline"]), min(hi, o["max_baseline"])
        tmin = np.maximum(np.sqrt(2) - d / lo, 0) if lo > o["min_baseline"] else 0
        tmax = np.maximum((d - hi) / lo, 0) if hi < o["max_baseline"] else 0
        taper = np.maximum(1 - (tmin + tmax) ** 2, 0) * np.ones(d.shape)  # what a baseline counts when the solver weights them
        self.taper = taper[:, :nbl] if cfg["cal_time_average"] else taper
        for p in range(old.cal["n_pol"]):
            w = np.clip(old.vis_weight_ptr[p], 0, 1)
            v, m = np.where(w > 0, old.vis_arr[p], 0), np.where(w > 0, old.vis_model_ptr[p], 0)
            ta, tb = bi["tile_a"] - 1, bi["tile_b"] - 1
            r = inr
            if cfg["cal_time_average"]:
                S = lambda x: x.reshape(x.shape[0], ntime, nbl).sum(1)
                ww = S(w)
                q = np.where(ww > 0, ww, 1)
                v, m, w, ta, tb, r = S(v * w) / q, S(m * w) / q, ww, ta[:nbl], tb[:nbl], inr[:, :nbl]
            on = (w > 0) & r
            yield p, v, np.where(np.isnan(m), 0, m), on, ta, tb

    def ensures(self, c, a, old, r):
        import numpy as np

        o, bi = old.obs, old.obs["baseline_info"]
        g0, g = old.cal["gain"], r["gain"]
        npol, nf, nt = g0.shape
        yield "shapes", c.and_(c.same_shape(g, g0), c.same_shape(r["convergence"], g0), c.same_shape(r["conv_iter"], g0))
        yield "visibilities and model not modified", c.and_(c.unchanged(a.vis_arr, old.vis_arr), c.unchanged(a.vis_model_ptr, old.vis_model_ptr))
        yield "no more iterations than allowed", bool((r["conv_iter"] < old.pyfhd_config["max_cal_iter"]).all() and (r["conv_iter"] >= 0).all())
        for p, v, m, on, ta, tb in self.parts(old):
            fu = [f for f in range(nf) if bi["freq_use"][f] > 0 and on[f].any()]
            hasdata = np.array([on[:, (ta == t) | (tb == t)].any() for t in range(nt)])
            used = hasdata & (bi["tile_use"] > 0)
            if not fu or not used.any():
                raise Skip
            if (hasdata & ~used).any():
                raise Skip
            ref = 1 if used[1] else int(np.nonzero(used)[0][0])
            yield "number of converged frequencies", 0 <= r["n_converged"][p] <= len(fu)
            if all(r["convergence"][p, f][used].max() <= old.pyfhd_config["cal_convergence_threshold"] and 8 < r["conv_iter"][p, f][used].max() < old.pyfhd_config["max_cal_iter"] - 1 for f in fu):
                yield "all frequencies have converged", r["n_converged"][p] == len(fu)
            for f in range(nf):
                for t in range(nt):
                    if not used[t]:
                        yield "flagged tiles without data have no gain, other tiles without data keep theirs", bool(np.isnan(g[p, f, t])) if bi["tile_use"][t] == 0 else g[p, f, t] == g0[p, f, t]
                    elif f not in fu:
                        yield "unused frequencies keep their gain", g[p, f, t] == g0[p, f, t]
                if f not in fu:
                    continue
                A, B = np.concatenate([ta[on[f]], tb[on[f]]]), np.concatenate([tb[on[f]], ta[on[f]]])
                V, M = np.concatenate([v[f][on[f]], v[f][on[f]].conj()]), np.concatenate([m[f][on[f]], m[f][on[f]].conj()])
                n = np.bincount(A, minlength=nt)
                few = used & (n < 5)
                for t in np.nonzero(few)[0]:
                    yield "tiles with less than five baselines at a frequency get a zero gain", g[p, f, t] == 0
                ok = used & (n >= 5)
                if not ok.any():
                    continue
                yield "gains are finite", bool(np.isfinite(g[p, f][ok]).all())
                if ok[ref]:
                    yield "the reference tile has zero phase", abs(np.angle(g[p, f, ref])) < 1e-9
                if not self.settled(r, p, f, ok, old):
                    raise Skip
                keep = ok[A] & ok[B]
                if ok.sum() < 6 or (np.bincount(A[keep], minlength=nt)[ok] < 4).any():
                    continue  # too few baselines between solved tiles to determine the gains
                T = np.tile(self.taper[f][on[f]], 2)[keep]
                yield from self.solved(c, old, g[p, f], p, f, A[keep], B[keep], V[keep], M[keep], T, ok, few, ref)
            if npol == 1:
                yield "number of visibilities used", r["n_vis_cal"] == int(on.sum())

    def settled(self, r, p, f, ok, old):
        return r["convergence"][p, f][ok].max() < (1e-8 if old.pyfhd_config["cal_adaptive_calibration_gain"] else 1e-6)  # adaptive steps may be much shorter than the way left


@contract
class solver_recovers_gains(SolverCase):
    cases = tuple(dict(avg=x, adaptive=y, weighted=z) for x in (True, False) for y in (False, True) for z in (False, True))
    bound = "8 to 10 tiles, 3 frequencies, 3 times, 2 polarizations; true gains within 30 % and 0.6 rad; recovery to 1e-5"

    def solved(self, c, old, g, p, f, A, B, V, M, T, ok, few, ref):
        import numpy as np

        n = np.bincount(A, minlength=len(g))
        if few.any() or not ok[ref] or (n[ok] < 5).any():
            return  # data of tiles that get no gain enter the fit of the others: not exactly recoverable
        adj = np.zeros((len(g), len(g)))
        np.add.at(adj, (A, B), np.abs(M) > 0)
        adj = np.minimum(adj, 1)[np.ix_(ok, ok)]
        if min(np.sort(np.linalg.eigvalsh(np.diag(adj.sum(0)) - adj))[1], np.linalg.eigvalsh(np.diag(adj.sum(0)) + adj)[0]) < 0.5:
            return  # the baselines hardly tie the tiles together (or only tie two groups to each other): the gains are not determined
        t = self.truth[p, f] * np.exp(-1j * np.angle(self.truth[p, f][ref]))
        yield "data that are exactly gain times model times conjugate gain give the gains, up to the reference phase, whatever the samples without weight hold", bool((np.abs(g[ok] - t[ok]) < 1e-5).all())


@contract
class solver_stationary(SolverCase):
    noise = 0.03
    cases = tuple(dict(avg=x, adaptive=y, weighted=z) for x in (True, False) for y in (False, True) for z in (False, True))
    bound = "8 to 10 tiles, 3 frequencies, 3 times, 2 polarizations; noise of 3 %; stationary to 1e-5"

    def solved(self, c, old, g, p, f, A, B, V, M, T, ok, few, ref):
        import numpy as np

        for t in np.nonzero(ok)[0]:
            k = A == t
            x = M[k] * np.conj(g[B[k]])
            q = T[k] if old.calibration_weights else 1
            if (q * np.abs(x) ** 2).sum() == 0:
                continue
            best = (q * np.conj(x) * V[k]).sum() / (q * np.abs(x) ** 2).sum()
            yield "each gain is the least squares fit of its own baselines given the other gains", abs(best - g[t]) < 1e-5


# ------------------------------------------------------------------ polynomial fits
def lsq_poly(x, y, d):
    """values at all x of the least squares polynomial, as a function"""
    import numpy as np

    x = np.asarray(x, float)
    m, s = x.mean(), max(1.0, np.ptp(x))
    k = np.linalg.lstsq(np.vander((x - m) / s, d + 1, increasing=True), y, rcond=None)[0]
    return lambda z: np.vander((np.asarray(z, float) - m) / s, d + 1, increasing=True) @ k


POLY = dict(cal_reflection_mode_theory=None, cal_reflection_mode_file=False, cal_reflection_mode_delay=False, cal_reflection_hyperresolve=False, cal_amp_degree_fit=2, cal_phase_degree_fit=1, digital_gain_jump_polyfit=False, instrument="mwa")


def psf_max(use):
    import numpy as np

    return np.abs(np.fft.fft(use != 0))[: len(use) // 2].max()


@contract
class vis_cal_polyfit(Contract):
    target = CU + "vis_cal_polyfit"
    prop = "C04"
    level = "bounded"
    why_bounded = "least squares fits, Fourier sums and phase unwrapping are library code"
    bound = "128 tiles for tabulated reflections, otherwise up to 6; up to 20 frequencies; degrees up to 3"
    cases = tuple(dict(mode=m) for m in ("none", "none", "none", "jump", "file", "theory", "theory+", "theory-", "delay", "delay", "hyper", "hyper+auto", "jump"))
    n_quick = 240

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        mode = case["mode"]
        table = mode in ("file", "theory", "theory+", "theory-", "hyper", "hyper+auto")
        npol = 2 if table else b.int("n_pol", 1, 2)
        nf, nt = (32 if mode == "delay" and g.random() < 0.5 else b.int("n_freq", 8, 20)), (128 if table else b.int("n_tile", 1, size=5))
        f = np.arange(nf)
        x = f / nf
        co = lambda: g.normal(size=(npol, 1, nt))
        amp = 1.5 + 0.2 * co() * x[:, None] + 0.2 * co() * x[:, None] ** 2 + 0.05 * g.normal(size=(npol, nf, nt))
        ph = co() + co() * x[:, None] * 3 + 0.1 * g.normal(size=(npol, nf, nt))
        gain = amp * np.exp(1j * ph)
        if mode not in ("none", "jump"):
            mo = g.uniform(1, nf / 2, size=nt)
            gain = gain * (1 + 0.05 * np.exp(-2j * np.pi * mo[None, :] * x[:, None] + 1j * g.uniform(0, 6, size=nt)))
        fu, tu = (g.random(nf) < 0.85).astype(int), (g.random(nt) < 0.9).astype(int)
        if nf == 32:  # a comb of unused frequencies: its harmonics are not cable reflections
            k = int(g.choice([4, 8]))
            fu = ((np.arange(nf) + g.integers(k)) % k > 0).astype(int)
        if not tu.any():
            raise Skip
        gain[:, :, tu == 0] = g.choice([1.0, 0.0]) if mode == "none" else 1.0
        freq = np.linspace(187.515e6 - 1e6, 187.515e6 + 1e6, nf) + g.uniform(-0.4e6, 0.4e6) + (g.choice([-1, 1]) * 5e6 if g.random() < 0.25 else 0)
        if mode == "jump" and g.random() < 0.6:
            freq += 187.515e6 - freq[g.integers(nf // 2 - 1, nf // 2 + 2)]  # a frequency right on the edge
            if g.random() < 0.2 and fu.any():
                freq += 187.515e6 - freq[np.nonzero(fu)[0][0]]
            freq[np.abs(freq - 187.515e6) < 1] = 187.515e6
        cfg = dict(POLY, cal_amp_degree_fit=int(g.integers(1 if mode == "jump" else 0, 4)), cal_phase_degree_fit=int(g.integers(0, 3)), digital_gain_jump_polyfit=mode == "jump")
        if mode.startswith("hyper"):
            cfg["cal_reflection_hyperresolve"] = True
            cfg["cal_reflection_mode_file"] = True
        elif mode == "file":
            cfg["cal_reflection_mode_file"] = True
        elif mode == "delay":
            cfg["cal_reflection_mode_delay"] = True
            if g.random() < 0.5:
                cfg["cal_reflection_hyperresolve"] = True
        elif mode.startswith("theory"):
            ln = self.table("length")[2]
            cfg["cal_reflection_mode_theory"] = {"theory": 1, "theory+": 1, "theory-": -1}[mode] * (float(g.choice(np.unique(ln))) if mode != "theory" else 1)
        ratio = None
        if mode == "hyper+auto":
            ratio = 1 + 0.1 * g.random(size=(npol, nf, nt))
        self.mode = mode
        pre = [k for k in range(nf) if fu[k] and freq[k] < 187.515e6]
        npre, nuse = len(pre), int(fu.sum())
        need = cfg["cal_amp_degree_fit"] + 1
        if nuse < max(need, cfg["cal_phase_degree_fit"] + 1) + 1 or mode == "jump" and 0 < npre < nuse and min(npre, nuse - npre) < need + 1:
            raise Skip
        return dict(obs=dict(n_freq=nf, n_tile=nt, baseline_info=dict(freq=freq, freq_use=fu, tile_use=tu)), cal=dict(n_pol=npol, gain=gain), auto_ratio=ratio, pyfhd_config=cfg, logger=b.logger())

    def table(self, what):
        import numpy as np, os, PyFHD

        base = os.path.dirname(PyFHD.__file__) if PyFHD.__file__ else list(PyFHD.__path__)[0]
        return np.loadtxt(os.path.join(base, "templates", {"file": "mwa_cable_reflection_coefficients.txt", "length": "mwa_cable_length.txt"}[what]), skiprows=1).T

    def ensures(self, c, a, old, r):
        import numpy as np

        cfg, bi = old.pyfhd_config, old.obs["baseline_info"]
        og, G = old.cal["gain"], r["gain"]
        npol, nf, nt = og.shape
        fu = np.nonzero(bi["freq_use"])[0]
        tu = np.nonzero(bi["tile_use"])[0]
        allf = np.arange(nf)
        da, dp = cfg["cal_amp_degree_fit"], cfg["cal_phase_degree_fit"]
        pre, post = fu[bi["freq"][fu] < 187.515e6], fu[bi["freq"][fu] >= 187.515e6]
        jump = cfg["digital_gain_jump_polyfit"] and len(pre) > 0 and len(post) > 0
        yield "shapes", c.and_(c.same_shape(G, og), c.is_shape(r["phase_params"], npol, nt, dp + 1), c.is_shape(r["amp_params"], npol, nt, 2, da) if jump else c.is_shape(r["amp_params"], npol, nt, da + 1))
        P = np.zeros((npol, nf, nt), complex)
        where = fu if jump else allf
        for p in range(npol):
            for t in range(nt):
                y = np.abs(og[p, fu, t])
                ph = np.unwrap(np.angle(og[p, fu, t]))
                d = np.diff(np.angle(og[p, fu, t]))
                if np.any(np.abs(np.abs(d) - np.pi) < 1e-6):
                    raise Skip
                if jump:
                    amp = np.zeros(nf)
                    amp[pre] = lsq_poly(pre, np.abs(og[p, pre, t]), da - 1)(pre)
                    amp[post] = lsq_poly(post, np.abs(og[p, post, t]), da - 1)(post)
                else:
                    amp = lsq_poly(fu, y, da)(allf)
                P[p, :, t] = amp * np.exp(1j * lsq_poly(fu, ph, dp)(allf))
        if jump:
            q = [r["amp_params"][:, :, k] for k in (0, 1)]
            ev = lambda k, f: sum(q[k][:, :, i] * float(f) ** i for i in range(da))
            yield "amplitude parameters are the coefficients of the two fits", all(c.all_same(ev(0 if f in pre else 1, f), np.abs(P[:, f]) * np.sign((P[:, f] * np.exp(-1j * np.angle(P[:, f]))).real)) for f in fu)
        else:
            fit = sum(r["amp_params"][..., i][:, None, :] * allf[None, :, None].astype(float) ** i for i in range(da + 1)) * np.exp(1j * sum(r["phase_params"][..., i][:, None, :] * allf[None, :, None].astype(float) ** i for i in range(dp + 1)))
            yield "the parameters are the coefficients of the least squares polynomials of amplitude and unwrapped phase over the used frequencies", bool(np.allclose(fit, P, rtol=1e-6, atol=1e-6 * (1 + np.abs(P).max())))
        mp = r.get("mode_params")
        if self.mode in ("none", "jump"):
            yield "gain is the fitted polynomial amplitude with the fitted phase", bool(np.allclose(G[:, where], P[:, where], rtol=1e-6, atol=1e-6 * (1 + np.abs(P[:, where]).max())))
            return
        want = P.copy()
        for p in range(npol):
            for t in range(nt):
                m, am, fa = mp[p, t]
                z = am * np.exp(-2j * np.pi * m * allf / nf + 1j * fa)
                want[p, :, t] *= np.exp(1j * z.imag) if old.auto_ratio is not None else 1 + z
        yield "gain is the polynomial times one plus the reflection described by the reported mode, amplitude and phase", bool(np.allclose(G, want, rtol=1e-6, atol=1e-6 * (1 + np.abs(P).max())))
        rest = [t for t in range(nt) if t not in tu]
        yield "tiles not in use get no reflection", bool((mp[:, rest] == 0).all())
        res = og / P
        S = lambda p, t, m: (np.exp(2j * np.pi * m * fu / nf) * res[p, fu, t]).mean()
        if self.mode == "file":
            tb = self.table("file")
            fl = np.clip(tb[4], 0, 1)
            for p in range(npol):
                m, am, fa = (tb[k + 3 * p] for k in (5, 6, 7))
                on = fl * m != 0
                for t in tu:
                    yield "tabulated reflection of each flagged tile", bool(np.allclose(mp[p, t], [(fl * m)[t], am[t], fa[t]] if on[t] else 0))
        elif self.mode.startswith("theory"):
            tb = self.table("length")
            ln, vf, fl = tb[2], tb[3], np.clip(tb[4], 0, 1)
            bw = np.ptp(bi["freq"]) * nf / (nf - 1)
            m = bw * 2 * ln / (299792458.0 * vf) * fl
            th = cfg["cal_reflection_mode_theory"]
            if abs(th) > 1:
                m = m * ((ln == th) if th > 0 else (ln != -th))
            for t in tu:
                for p in range(npol):
                    s = S(p, t, m[t])
                    yield "mode from cable length and velocity factor of the selected cables", abs(mp[p, t, 0] - m[t]) < 1e-8
                    yield "amplitude and phase from the residual of the polynomial fit", abs(mp[p, t, 1] * np.exp(1j * mp[p, t, 2]) - (s if m[t] else 0)) < 1e-6
        elif self.mode == "delay":
            ms = {float(x) for x in mp[:, tu, 0].ravel()}
            if not cfg["cal_reflection_hyperresolve"]:
                yield "one common integer mode below half the band", len(ms) == 1 and all(x == int(x) and 0 <= x < max(1, nf // 2) for x in ms)
                hide = np.zeros(nf // 2, bool)
                if len(fu) < nf:
                    psf = np.abs(np.fft.fft(bi["freq_use"] != 0))[: nf // 2] / psf_max(bi["freq_use"])
                    if (np.abs(psf - 1e-3) < 1e-7).any():
                        raise Skip
                    hide = np.array([(psf[max(0, k - 2) : k + 3] > 1e-3).any() for k in range(nf // 2)])
                if nf // 2 >= 2:
                    amp_res = np.abs(og) - np.stack([np.stack([lsq_poly(fu, np.abs(og[p, fu, t]), da)(allf) for t in range(nt)], 1) for p in range(npol)])
                    spec = sum(np.abs(np.fft.fft(amp_res[p, :, t])) for p in range(npol) for t in tu)[: nf // 2]
                    spec = np.where(hide, 0, spec)
                    if hide.all():
                        yield "no reflection where every mode is hidden by the unused frequencies", ms == {0.0}
                        return
                    top = np.sort(spec)
                    if len(top) < 2 or top[-1] - top[-2] < 1e-9:
                        raise Skip
                    yield "the mode with most power in the delay spectra of the amplitude residuals of used tiles", ms == {float(np.argmax(spec))}
                if ms != {0.0}:
                    yield "amplitude and phase from the residual of the polynomial fit", all(abs(mp[p, t, 1] * np.exp(1j * mp[p, t, 2]) - S(p, t, mp[p, t, 0])) < 1e-6 for p in range(npol) for t in tu)
        elif self.mode == "hyper+auto":
            tb = self.table("file")
            fl = np.clip(tb[4], 0, 1)
            used = bi["tile_use"] > 0
            for p in range(npol):
                m0 = tb[5 + 3 * p] * fl
                na = old.auto_ratio[p] / old.auto_ratio[p].mean(0)
                rp = np.angle(res[p, fu])
                for t in tu[::8]:
                    if m0[t] == 0:
                        yield "no reflection where none is expected", bool((mp[p, t] == 0).all())
                        continue
                    others = used & (m0 > 0) & (np.abs(m0 - m0[t]) > 0.01)
                    x = na[:, t] / na[:, others].mean(1)
                    x = (x - x.mean())[fu]
                    ms = m0[t] + 0.05 * np.arange(-50, 51)
                    v = np.abs(np.exp(2j * np.pi * ms[:, None] * fu / nf) @ x)
                    k = int(np.argmin(np.abs(ms - mp[p, t, 0])))
                    yield "mode within 2.5 of the nominal one, on a grid of 0.05", abs(ms[k] - mp[p, t, 0]) < 1e-8
                    yield "the mode with the largest power in the auto-correlation ratio, relative to tiles of other cables", v[k] > v.max() - 1e-7
                    d = np.abs(m0 - ms[k])
                    others = used & (m0 > 0) & (d > 0.01)
                    if (np.abs(d - 0.01) < 1e-9).any():
                        continue
                    s = (np.exp(2j * np.pi * ms[k] * fu / nf) * (rp[:, t] - rp[:, others].mean(1))).mean()
                    yield "amplitude and phase from the phase residual relative to tiles of other cables", abs(mp[p, t, 1] * np.exp(1j * mp[p, t, 2]) - 2j * s) < 1e-6
        elif self.mode == "hyper":
            tb = self.table("file")
            fl = np.clip(tb[4], 0, 1)
            for p in range(npol):
                m0 = tb[5 + 3 * p] * fl
                for t in tu[:20]:
                    if m0[t] == 0:
                        yield "no reflection where none is expected", bool((mp[p, t] == 0).all())
                        continue
                    ms = m0[t] + 0.05 * np.arange(-50, 51)
                    rr = res[p, fu, t] - res[p, fu, t].mean()
                    v = np.array([(np.exp(2j * np.pi * m * fu / nf) * rr).mean() for m in ms])
                    k = int(np.argmin(np.abs(ms - mp[p, t, 0])))
                    yield "mode within 2.5 of the nominal one, on a grid of 0.05", abs(ms[k] - mp[p, t, 0]) < 1e-8
                    yield "the mode with the largest residual power", np.abs(v[k]) > np.abs(v).max() - 1e-7
                    yield "amplitude and phase of the residual at that mode", abs(mp[p, t, 1] * np.exp(1j * mp[p, t, 2]) - v[k]) < 1e-6


# ------------------------------------------------------------------ orchestration
@contract
class calibrate(Contract):
    target = "PyFHD.calibration.calibrate:calibrate"
    prop = "C11"
    level = "bounded"
    why_bounded = "calls the iterative solver"
    bound = "8 to 9 tiles with auto-correlations, up to 12 frequencies, 2 times, 2 or 4 polarizations; every combination of the calibration switches"
    n_quick = 60
    cases = tuple(dict(bandpass=x, poly=y, ratio=z, autofit=u) for x in (False, True) for y in (False, True) for z in (False, True) for u in (False, True) if x or not z)

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        npol, nf, nt, ntime = b.choice("n_pol", [1, 2, 2, 4]), b.int("n_freq", 7, 12), b.int("n_tile", 8, 9), b.int("n_time", 1, 2)
        obs, params = make_obs(g, nt, nf, ntime, npol)
        bi = obs["baseline_info"]
        bi["freq"] = np.linspace(180e6, 181e6, nf)
        nbl = obs["n_baselines"]
        at = np.arange(1, nt + 1)  # auto-correlations follow the cross-correlations of each time
        ta, tb = bi["tile_a"].reshape(ntime, nbl), bi["tile_b"].reshape(ntime, nbl)
        cat = lambda x, y: np.concatenate([x, np.tile(y, (ntime, 1))], 1).ravel()
        bi["tile_a"], bi["tile_b"] = cat(ta, at), cat(tb, at)
        for k in ("uu", "vv"):
            params[k] = cat(params[k].reshape(ntime, nbl), np.zeros(nt))
        obs["n_baselines"] = nbl = nbl + nt
        nv = nbl * ntime
        model = g.normal(size=(npol, nf, nv)) + 1j * g.normal(size=(npol, nf, nv)) + 2
        auto = bi["tile_a"] == bi["tile_b"]
        model[:, :, auto] = g.uniform(4, 9, size=(npol, nf, int(auto.sum())))
        n2 = min(npol, 2)
        x = np.arange(nf)[:, None] / nf
        gain = (1.2 + 0.2 * g.normal(size=(n2, 1, nt)) * x) * np.exp(1j * (0.5 * g.normal(size=(n2, 1, nt)) * x + 0.2 * g.normal(size=(n2, 1, nt)))) * (1 + 0.1 * g.uniform(-1, 1, size=(1, nf, 1))) * (1 + 0.02 * g.normal(size=(n2, nf, nt)))
        if g.random() < 0.4:  # a tile that flagging of the solutions removes
            gain[:, :, g.integers(nt)] *= g.choice([0.3, 3.0])
        vis = corrupt(model, gain, bi["tile_a"], bi["tile_b"])
        w = np.ones((npol, nf, nv))
        if g.random() < 0.5:
            w[:, :, (g.random(nv) < 0.05)] = 0
        if g.random() < 0.4:
            bi["freq_use"][g.integers(nf)] = 0
        if g.random() < 0.4:
            t = int(g.integers(nt))
            bi["tile_use"][t] = 0
            w[:, :, (bi["tile_a"] == t + 1) | (bi["tile_b"] == t + 1)] = 0
        cfg = dict(SOLVER, **POLY)
        cfg.update(max_cal_iter=60, cal_convergence_threshold=1e-8, calibration_auto_initialize=bool(g.random() < 0.3), cal_gain_init=1.0, flag_calibration=bool(g.random() < 0.5), flag_calibration_frequencies=False, bandpass_calibrate=case["bandpass"], auto_ratio_calibration=case["ratio"], calibration_polyfit=case["poly"], calibration_auto_fit=case["autofit"], cal_bp_transfer=None, cable_bandpass_fit=False, calibration_plots=False)
        if g.random() < 0.4:
            cfg.update(cal_reflection_mode_delay=True, cal_reflection_hyperresolve=bool(g.random() < 0.5))
        return dict(obs=obs, params=params, vis_arr=vis, vis_weights=w, vis_model_arr=model, pyfhd_config=cfg, logger=b.logger())

    def ensures(self, c, a, old, r):
        import copy
        import numpy as np
        from PyFHD.calibration import calibration_utils as CUm
        from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine

        cfg, lg = old.pyfhd_config, old.logger
        vis_cal, cal, obs = r
        npol, n2 = old.vis_arr.shape[0], min(old.vis_arr.shape[0], 2)
        nf, nt = old.obs["n_freq"], old.obs["n_tile"]
        # what each stage owes its caller is checked by its own contract; here: which stage receives what
        cp = copy.deepcopy
        V, M = old.vis_arr, old.vis_model_arr
        o = cp(old.obs)
        va, at = CUm.vis_extract_autocorr(o, V.copy(), cfg)
        vam, _ = CUm.vis_extract_autocorr(o, M.copy(), cfg)
        k = dict(n_pol=n2, ref_antenna=1)
        k["gain"] = CUm.vis_cal_auto_init(o, k, V.copy(), M.copy(), va, vam, at) if cfg["calibration_auto_initialize"] else np.full((n2, nf, nt), cfg["cal_gain_init"], complex)
        k = vis_calibrate_subroutine(V.copy(), M.copy(), old.vis_weights.copy(), o, k, old.params, cfg, lg)
        base, solved = k["gain"].copy(), cp(k)
        o0 = cp(o)
        if cfg["flag_calibration"]:
            o = CUm.vis_calibration_flag(o, cp(k), cfg, lg)
        k = cp(k)
        ratio = fit = None
        if cfg["bandpass_calibrate"]:
            if cfg["auto_ratio_calibration"]:
                k, ratio = CUm.cal_auto_ratio_divide(o, k, va, at)
            bp, rem = CUm.vis_cal_bandpass(o, cp(k), cfg, lg)
            gg = bp["gain"]
            if cfg["calibration_polyfit"]:
                fit = CUm.vis_cal_polyfit(o, cp(rem), ratio, dict(cfg), lg)
                gg = gg * fit["gain"]
            k = dict(k, gain=gg)
            if ratio is not None:
                k = CUm.cal_auto_ratio_remultiply(k, ratio, at)
        elif cfg["calibration_polyfit"]:
            k = fit = CUm.vis_cal_polyfit(o, cp(k), None, dict(cfg), lg)
        if cfg["calibration_polyfit"] and not cfg["calibration_auto_fit"]:
            yield "parameters of the polynomial fit are kept", all(q in cal and c.all_same(np.asarray(cal[q]), np.asarray(fit[q])) for q in ("amp_params", "phase_params") + (("mode_params",) if "mode_params" in fit else ()))
        if cfg["calibration_auto_fit"]:
            k = CUm.vis_cal_auto_fit(o, cp(k), va, vam, at)
        G = cal["gain"]
        yield "final gains are the solved gains carried through exactly the requested band pass, polynomial and auto-correlation stages", c.all_same(G, k["gain"])
        yield "gain residual is solved gain minus final gain", c.all_same(cal["gain_residual"], base - k["gain"])
        yield "the record of the solution is kept", all(q in cal and c.all_same(np.asarray(cal[q], float), np.asarray(solved[q], float)) for q in ("convergence", "conv_iter", "n_converged", "n_vis_cal"))
        yield "tile and frequency flags change only when calibration flagging is requested", list(obs["baseline_info"]["tile_use"]) == list(o["baseline_info"]["tile_use"]) and list(obs["baseline_info"]["freq_use"]) == list(o["baseline_info"]["freq_use"])
        ta, tb = old.obs["baseline_info"]["tile_a"] - 1, old.obs["baseline_info"]["tile_b"] - 1
        wi = lambda z: np.where((z != 0) & np.isfinite(z), 1 / np.where((z != 0) & np.isfinite(z), z, 1), 0)
        cr = np.exp(1j * cal.get("cross_phase", 0.0))
        for p in range(npol):
            z = G[[0, 1, 0, 1][p]][:, ta] * np.conj(G[[0, 1, 1, 0][p]][:, tb])
            yield "each visibility is divided by the gain of its first and the conjugate gain of its second tile, rotated by the cross phase for the cross polarizations", bool(np.allclose(vis_cal[p], V[p] * wi(z) * (1, 1, cr, np.conj(cr))[p], rtol=1e-7, atol=1e-9))
        bi = obs["baseline_info"]
        tu, fu = np.nonzero(bi["tile_use"])[0], np.nonzero(bi["freq_use"])[0]
        for p in range(n2):
            if len(tu) == 0 or len(fu) == 0:
                continue
            ga, re = np.abs(k["gain"][p][np.ix_(fu, tu)]), np.abs((base - k["gain"])[p][np.ix_(fu, tu)])
            yield "mean gain and residual statistics over used tiles and frequencies", c.all_same(np.array([cal["mean_gain"][p], cal["mean_gain_residual"][p], cal["stddev_gain_residual"][p]]), np.array([ga.mean(), re.mean(), re.std()]))
            if re.max() > 1e-6:
                yield "resistant mean of the residual", c.eq(cal["mean_gain_restrict"][p], robust_mean(re, 2))
        if not (cfg["bandpass_calibrate"] or cfg["calibration_polyfit"] or cfg["calibration_auto_fit"]):
            yield "without further stages the residual is zero", bool(np.nanmax(np.abs(cal["gain_residual"])) == 0)
        h, h0 = cal["vis_baseline_hist"], CUm.vis_baseline_hist(cp(obs), cp(old.params), vis_cal.copy(), M.copy())
        yield "comparison of calibrated data and model by baseline length is recorded", set(h) == set(h0) and all(c.all_same(np.asarray(h[q]), np.asarray(h0[q])) for q in h0)
        yield "model and weights not modified", c.and_(c.unchanged(a.vis_model_arr, M), c.unchanged(a.vis_weights, old.vis_weights))
