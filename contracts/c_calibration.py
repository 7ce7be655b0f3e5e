"""Contracts on PyFHD/calibration: gain application, auto-correlations, band pass, polynomial fits, adaptive gain."""
import math
from pyvc.contract import contract, Contract, Skip
from contracts import _models as M

CU = "PyFHD.calibration.calibration_utils:"
WI = {"PyFHD.pyfhd_tools.pyfhd_utils:weight_invert": M.weight_invert}


# ------------------------------------------------------------------ applying gains
@contract
class vis_calibration_apply(Contract):
    target = CU + "vis_calibration_apply"
    prop = "C01"
    cases = (dict(np=1), dict(np=2), dict(np=4, model=False))
    models = WI
    n_quick = 250

    def inputs(self, b, case):
        nf, nt, nb = b.int("n_freq", 1), b.int("n_tile", 1), b.int("nb", 1)
        inv = b.choice("zeros", [0, 1]) if not b.symbolic else 0
        g = b.arr("gain", "c", (max(1, min(case["np"], 2)), nf, nt), vals=[0, 1, 2, 1 + 1j, -2j, 0.5] if inv else None)
        return dict(
            vis_arr=b.arr("vis", "c", (case["np"], nf, nb)),
            obs=dict(n_freq=nf, n_time=1, n_tile=nt, baseline_info=dict(tile_a=b.arr("tile_a", "i", nb, 1, nt), tile_b=b.arr("tile_b", "i", nb, 1, nt))),
            cal=dict(gain=g), vis_model_arr=None, vis_weights=None, logger=b.logger())

    def ensures(self, c, a, old, r):
        vis, cal = r
        bi, g = old.obs["baseline_info"], old.cal["gain"]
        npol, nf, nb = c.shape(old.vis_arr)
        g1, g2 = (0, 1, 0, 1), (0, 1, 1, 0)
        yield "shape", c.same_shape(vis, old.vis_arr)
        for p in range(npol):
            def want(f, i, p=p):
                d = c(g, g1[p], f, c(bi["tile_a"], i) - 1) * c.conj(c(g, g2[p], f, c(bi["tile_b"], i) - 1))
                v, w = c(vis, p, f, i), c(old.vis_arr, p, f, i)
                return c.ite(c.eq(d, 0) if c.symbolic else d == 0, lambda: c.eq(v, 0), lambda: c.eq(v, w * (1 / d)))
            yield f"corrected data are the measured data over g_a conj(g_b), zero where the gain is zero (polarization {p})", c.forall([nf, nb], want)
        yield "gains not modified", c.unchanged(cal["gain"], g)


@contract
class vis_calibration_apply_cross_phase(Contract):
    target = CU + "vis_calibration_apply"
    prop = "C01"
    level = "bounded"
    why_bounded = "phase of a weighted sum over a data-dependent selection"
    bound = "up to 3 frequencies, 3 times, 4 baselines"
    n_quick = 250

    def inputs(self, b, case):
        nf, nt, nbl, ntile = b.int("n_freq", 1, size=3), b.int("n_time", 1, size=3), b.int("n_baselines", 1, size=4), b.int("n_tile", 1, size=4)
        nb = nt * nbl
        return dict(
            vis_arr=b.arr("vis", "c", (4, nf, nb)),
            obs=dict(n_freq=nf, n_time=nt, n_tile=ntile, baseline_info=dict(tile_a=b.arr("tile_a", "i", nb, 1, ntile), tile_b=b.arr("tile_b", "i", nb, 1, ntile))),
            cal=dict(gain=b.arr("gain", "c", (2, nf, ntile), 0.5, 2)), vis_model_arr=b.arr("model", "c", (4, nf, nb)), vis_weights=b.arr("w", "f", (4, nf, nb), -1, 2), logger=b.logger())

    def ensures(self, c, a, old, r):
        import numpy as np

        vis, cal = r
        bi, g = old.obs["baseline_info"], old.cal["gain"]
        nt, nf = old.obs["n_time"], old.obs["n_freq"]
        v = np.stack([old.vis_arr[p] / (g[x][:, bi["tile_a"] - 1] * np.conj(g[y][:, bi["tile_b"] - 1])) for p, (x, y) in enumerate(((0, 0), (1, 1), (0, 1), (1, 0)))])
        w = np.clip(old.vis_weights[0], 0, 1)
        av = lambda z: (z * w).reshape(nf, nt, -1).sum(1)
        s = np.sum(np.conj(av(v[2])) * av(old.vis_model_arr[2])) + np.sum(av(v[3]) * np.conj(av(old.vis_model_arr[3])))
        if abs(s) < 1e-6:
            raise Skip
        ph = s / abs(s)
        yield "phase between the polarizations maximises the agreement with the model", c.eq(np.exp(1j * cal["cross_phase"]), ph)
        yield "parallel hands get no phase", c.all_same(vis[:2], v[:2])
        yield "cross hands are rotated by the fitted phase, in opposite directions", c.all_same(vis[2:], np.stack([v[2] * ph, v[3] * np.conj(ph)]))


# ------------------------------------------------------------------ auto-correlation ratio
@contract
class cal_auto_ratio_divide(Contract):
    target = CU + "cal_auto_ratio_divide"
    prop = "C02"
    cases = (dict(np=1), dict(np=2))
    models = WI
    n_quick = 250

    def inputs(self, b, case):
        npol, nf, nt = case["np"], b.int("n_freq", 1), b.int("n_tile", 1)
        na = b.int("n_auto", 1, nt)
        ref = b.int("ref", 0, nt - 1)
        at = b.arr("auto_tile_i", "i", na, 0, nt - 1, gen=lambda r, s: sorted(r.sample(range(nt), s[0])))
        return dict(obs=dict(n_freq=nf, n_tile=nt), cal=dict(n_pol=npol, ref_antenna=ref, gain=b.arr("gain", "c", (npol, nf, nt))), vis_auto=b.arr("vis_auto", "f", (npol, nf, na), 0.25, 8), auto_tile_i=at)

    def requires(self, c, a):
        at = a.auto_tile_i
        n = c.dim(at)
        yield "tiles in ascending order", c.forall([n, n], lambda i, j: c.implies(i < j, lambda: c(at, i) < c(at, j)))
        yield "the reference antenna has an auto-correlation", c.exists([n], lambda i: c.eq(c(at, i), a.cal["ref_antenna"]))

    def ensures(self, c, a, old, r):
        cal, ratio = r
        npol, nf, nt = c.shape(old.cal["gain"])
        at, va = old.auto_tile_i, old.vis_auto
        na = c.dim(at)
        yield "shape", c.same_shape(ratio, old.cal["gain"])
        yield "square of the ratio is the auto-correlation over that of the reference antenna", c.forall([npol, nf, na, na], lambda p, f, k, m: c.implies(c.eq(c(at, m), old.cal["ref_antenna"]), lambda: c.and_(c(ratio, p, f, c(at, k)) >= 0, c.eq(c(ratio, p, f, c(at, k)) * c(ratio, p, f, c(at, k)) * c(va, p, f, m), c(va, p, f, k)))))
        yield "one for tiles without an auto-correlation", c.forall([npol, nf, nt], lambda p, f, t: c.or_(c.exists([na], lambda k: c.eq(c(at, k), t)), c.eq(c(ratio, p, f, t), 1)))
        yield "new gain times ratio is the old gain", c.forall([npol, nf, nt], lambda p, f, t: c.eq(c(cal["gain"], p, f, t) * c(ratio, p, f, t), c(old.cal["gain"], p, f, t)))
        yield "auto-correlations not modified", c.unchanged(a.vis_auto, va)


@contract
class cal_auto_ratio_remultiply(Contract):
    target = CU + "cal_auto_ratio_remultiply"
    prop = "C02"
    n_quick = 250

    def inputs(self, b, case):
        npol, nf, nt = b.int("n_pol", 1, 2), b.int("n_freq", 1), b.int("n_tile", 1)
        na = b.int("n_auto", 1, nt)
        at = b.arr("auto_tile_i", "i", na, 0, nt - 1, gen=lambda r, s: sorted(r.sample(range(nt), s[0])))
        return dict(cal=dict(n_pol=npol, gain=b.arr("gain", "c", (npol, nf, nt))), auto_ratio=b.arr("ratio", "f", (npol, nf, nt)), auto_tile_i=at)

    def requires(self, c, a):
        at = a.auto_tile_i
        n = c.dim(at)
        yield "tiles in ascending order", c.forall([n, n], lambda i, j: c.implies(i < j, lambda: c(at, i) < c(at, j)))

    def ensures(self, c, a, old, r):
        g, g0, q, at = r["gain"], old.cal["gain"], old.auto_ratio, old.auto_tile_i
        npol, nf, nt = c.shape(g0)
        na = c.dim(at)
        yield "shape", c.same_shape(g, g0)
        yield "gain of a tile with an auto-correlation is multiplied by the size of its ratio", c.forall([npol, nf, na], lambda p, f, k: c.eq(c(g, p, f, c(at, k)), c(g0, p, f, c(at, k)) * c.abs(c(q, p, f, c(at, k)))))
        yield "other gains unchanged", c.forall([npol, nf, nt], lambda p, f, t: c.or_(c.exists([na], lambda k: c.eq(c(at, k), t)), c.same(c(g, p, f, t), c(g0, p, f, t))))
        yield "ratio not modified", c.unchanged(a.auto_ratio, q)


# ------------------------------------------------------------------ adaptive gain
@contract
class calculate_adaptive_gain(Contract):
    target = CU + "calculate_adaptive_gain"
    prop = "C09"
    cases = (dict(given=True), dict(given=False))
    n_quick = 300

    def inputs(self, b, case):
        n = b.int("n", 1, size=12)
        d = dict(gain_list=b.arr("gains", "f", n, 0.1, 3), convergence_list=b.arr("conv", "f", n, 0, 4), iter=b.int("iter", 0, n - 1), base_gain=b.real("base_gain", 0.1, 3))
        if case["given"]:
            d["final_convergence_estimate"] = b.real("estimate", 0, 4)
        return d

    def requires(self, c, a):
        if "final_convergence_estimate" in a.__dict__:
            yield "still converging", c.implies(a.iter > 2, lambda: c.not_(c.eq(c(a.convergence_list, a.iter - 2), a.final_convergence_estimate)))

    def ensures(self, c, a, old, r):
        base, it = old.base_gain, old.iter
        n = c.dim(old.gain_list)
        yield "the base gain for the first iterations", c.implies(it <= 2, lambda: c.eq(r, base))
        if "final_convergence_estimate" in old.__dict__:
            e = old.final_convergence_estimate

            def want():
                g, l, m = c(old.gain_list, it - 1), c(old.convergence_list, it - 2), c(old.convergence_list, it - 1)
                pred = (e * g + l) / (base + g)
                d = (pred - m) / ((l - e) / (base + g))
                return c.eq(r, c.max(base / 2, (1 - c.abs(d) + g) / 2))

            yield "later the gain that would have met the predicted convergence, averaged with the last one", c.implies(it > 2, want)
            yield "never below half the base gain nor above the larger of that and the mean of one and the last gain", c.implies(it > 2, lambda: c.and_(r >= base / 2, r <= c.max(base / 2, (1 + c(old.gain_list, it - 1)) / 2)))
        else:
            yield "never below half the base gain", c.implies(it > 2, lambda: c.or_(c.isnan(r), r >= base / 2))
        yield "the gain is recorded for this iteration only", c.forall([n], lambda i: c.same(c(a.gain_list, i), c.ite(c.eq(i, it), lambda: r, lambda: c(old.gain_list, i))))
        yield "convergence history not modified", c.unchanged(a.convergence_list, old.convergence_list)


@contract
class calculate_adaptive_gain_estimated(Contract):
    target = CU + "calculate_adaptive_gain"
    prop = "C09"
    level = "bounded"
    why_bounded = "median of the estimates of the final convergence"
    bound = "up to 20 iterations"
    n_quick = 1500

    def inputs(self, b, case):
        n = b.int("n", 1, size=20)
        return dict(gain_list=b.arr("gains", "f", n, 0.1, 3), convergence_list=b.arr("conv", "f", n, 0, 4), iter=b.int("iter", 0, n - 1, size=20), base_gain=b.real("base_gain", 0.1, 3))

    def ensures(self, c, a, old, r):
        import numpy as np

        g, v, it, base = old.gain_list, old.convergence_list, old.iter, old.base_gain
        if it <= 2:
            yield "the base gain for the first iterations", c.eq(r, base)
            return
        e = np.median([max(0.0, ((1 + g[k]) * v[k + 1] - v[k]) / g[k]) for k in range(it - 1)][max(it - 5, 0):])
        if abs(v[it - 2] - e) < 1e-9:
            raise Skip
        d = ((e * g[it - 1] + v[it - 2]) / (base + g[it - 1]) - v[it - 1]) / ((v[it - 2] - e) / (base + g[it - 1]))
        yield "the final convergence is the median of its latest non-negative estimates", c.eq(r, max(base / 2, (1 - abs(d) + g[it - 1]) / 2))
