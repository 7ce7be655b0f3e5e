"""Contracts on PyFHD/source_modeling: model visibilities matched to the data."""
import math
from pyvc.contract import contract, Contract, Skip
from contracts.c_calibration2 import rng_of
from contracts.c_data_setup import JD
from contracts.c_healpix import patched

VM = "PyFHD.source_modeling.vis_model_transfer:"


@contract
class flag_model_visibilities(Contract):
    target = VM + "flag_model_visibilities"
    prop = "M01"
    level = "bounded"
    why_bounded = "sets of antennas and times from the data"
    bound = "up to 6 antennas, 4 times, 3 frequencies"
    cases = tuple(dict(dauto=x, mauto=y) for x in (False, True) for y in ("none", "all", "some"))
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        n = int(g.integers(2, 7))
        keep = np.arange(1, n + 1)
        if n > 2 and g.random() < 0.6:
            keep = np.sort(g.permutation(n)[: g.integers(2, n + 1)] + 1)
        nt_m = int(g.integers(1, 5))
        res = float(g.choice([2.0, 8.0]))
        times = JD + 0.6 + np.arange(nt_m) * res / 86400
        use = np.sort(g.permutation(nt_m)[: g.integers(1, nt_m + 1)])
        off = float(g.choice([0, 0, res / 2, -res / 2, 0.3 * res, -0.3 * res, 0.1])) / 86400
        if abs(abs(off) * 86400 - res / 2) < 1e-9 and off < 0:
            off *= 0.96
        auto = g.random() < 0.5
        orders = [g.permutation(n * n)]
        orders.append(orders[0] if g.random() < 0.5 else g.permutation(n * n))
        named = g.random() < 0.3  # antennas of the data called by the numbers of their tiles
        names = n + 1 + g.permutation(3 * n)[:n]

        def samples(ants, nt, autos, t, order):
            p = [(i, j) for i in ants for j in ants if i < j or autos == "all" and i == j or autos == "some" and i == j == ants[0]]
            p.sort(key=lambda q: order[(q[0] - 1) * n + q[1] - 1])
            return np.tile([q[0] for q in p], nt), np.tile([q[1] for q in p], nt), np.repeat(t, len(p))

        d1, d2, dt = samples(keep, len(use), "all" if case["dauto"] else "none", times[use] + off, orders[0])
        m1, m2, mt = samples(np.arange(1, n + 1), nt_m, case["mauto"], times, orders[1])
        if named:
            d1, d2 = names[d1 - 1], names[d2 - 1]
        npol, nf = int(g.choice([1, 2, 4])), int(g.integers(1, 4))
        vis = g.normal(size=(npol, nf, len(m1))) + 1j * g.normal(size=(npol, nf, len(m1)))
        obs = dict(n_pol=npol, n_freq=nf, time_res=res, baseline_info=dict(tile_names=names if named else np.array([f"Tile{i:03d}" for i in range(n)]) if g.random() < 0.5 else np.arange(1, n + 1)))
        return dict(vis_model_arr=vis, params_data=dict(antenna1=d1, antenna2=d2, time=dt), params_model=dict(antenna1=m1, antenna2=m2, time=mt), obs=obs, pyfhd_config=dict(input_path="", obs_id="1", model_file_path="", model_file_type=""), logger=b.logger(), off=off, times=times, use=use, mauto=case["mauto"])

    def call(self, f, a):
        return f(a.vis_model_arr, a.params_data, a.params_model, a.obs, a.pyfhd_config, a.logger)

    def ensures(self, c, a, old, r):
        import numpy as np

        D, M = old.params_data, old.params_model
        at = {}
        step = {t: i for i, t in enumerate(np.unique(M["time"]))}
        for k, q in enumerate(zip(M["antenna1"], M["antenna2"], M["time"])):
            at[(q[0], q[1], step[q[2]])] = k
        names = list(old.obs["baseline_info"]["tile_names"])
        ant = (lambda x: names.index(x) + 1) if max(D["antenna1"].max(), D["antenna2"].max()) > len(names) else (lambda x: x)
        dstep = {t: old.use[i] for i, t in enumerate(np.unique(D["time"]))}
        e = np.zeros((*old.vis_model_arr.shape[:2], len(D["time"])), complex)
        for k, q in enumerate(zip(map(ant, D["antenna1"]), map(ant, D["antenna2"]), D["time"])):
            j = at.get((q[0], q[1], dstep[q[2]]))
            if q[0] == q[1] and old.mauto != "all":
                j = None
            if j is not None:
                e[:, :, k] = old.vis_model_arr[:, :, j]
        yield "every sample gets the model visibility of its own antennas and the nearest time, zero for auto-correlations unless the model has them all", c.all_same(r, e)
        yield "inputs not modified", c.and_(c.unchanged(a.vis_model_arr, old.vis_model_arr), *[c.unchanged(a.params_data[k], D[k]) for k in D], *[c.unchanged(a.params_model[k], M[k]) for k in M])


@contract
class vis_model_transfer(Contract):
    target = VM + "vis_model_transfer"
    prop = "M02"
    level = "bounded"
    why_bounded = "orchestration and files; callees are checked against their own contracts (D01, I02)"
    bound = "up to 4 polarizations and frequencies"
    cases = (dict(kind="uvfits"), dict(kind="sav"), dict(kind="other"))
    n_quick = 90

    def inputs(self, b, case):
        g = rng_of(b)
        nf = int(g.integers(1, 5))
        npol = int(g.choice([1, 2, 4]))
        return dict(pyfhd_config=dict(model_file_type=case["kind"], model_file_path="/nowhere", obs_id="1234", n_pol=npol), obs=dict(n_freq=nf, n_pol=npol, pol_names=["XX", "YY", "XY", "YX"]), file_nf=nf if g.random() < 0.7 else nf + 1, seed=int(g.integers(0, 1000)), pointer=bool(g.random() < 0.5), missing=[None, None, "params", "XX"][g.integers(0, 4)] if case["kind"] == "sav" else None, logger=b.logger())

    def call(self, f, a):
        import numpy as np
        from scipy.io import readsav

        log = []
        g = np.random.default_rng(a.seed)
        nb = 3
        vis = g.normal(size=(4, a.file_nf, nb)) + 1j * g.normal(size=(4, a.file_nf, nb))

        def header(cfg, logger, model_uvfits=False):
            log.append(("header", model_uvfits))
            return dict(n_freq=a.file_nf), "data", None, None

        def params(h, pd, logger):
            log.append(("params", pd))
            return dict(params=1)

        def extract(h, pd, cfg, logger):
            log.append(("vis", pd, cfg["model_file_path"]))
            return vis[: cfg["n_pol"]], None

        def sav(path):
            from scipy.io._idl import AttrDict

            p = str(path)
            log.append(("sav", p))
            if a.missing and a.missing in p:
                raise FileNotFoundError(p)
            if p == "/nowhere/1234_params.sav":
                return AttrDict(dict(params=np.rec.array([(1.5, np.arange(3.0))], dtype=[("UU", object), ("VV", object)])))
            v = vis[a.obs["pol_names"].index(p[len("/nowhere/1234_vis_model_") : -4])].T.copy()
            if a.pointer:
                x = np.empty(1, object)
                x[0] = v
                v = x
            return AttrDict(dict(vis_model_ptr=v))

        with patched("PyFHD.source_modeling.vis_model_transfer", extract_header=header, create_params=params, extract_visibilities=extract, readsav=sav):
            return f(a.pyfhd_config, a.obs, a.logger), log, vis

    def raises_required(self, c, old):
        k = old.pyfhd_config["model_file_type"]
        return k == "other" or k == "uvfits" and old.file_nf != old.obs["n_freq"] or old.missing is not None

    def may_raise(self, c, a, exc):
        return isinstance(exc, SystemExit) and self.raises_required(c, a)

    def ensures(self, c, a, old, r):
        import numpy as np

        (vis, params), log, want = r
        yield "the visibilities of the model file", vis.dtype == want.dtype and np.array_equal(vis, want[: old.pyfhd_config["n_pol"]])
        yield "the parameters of the model file", (params == dict(params=1) and log[0] == ("header", True)) if old.pyfhd_config["model_file_type"] == "uvfits" else (set(params) == {"uu", "vv"} and params["uu"] == 1.5 and list(params["vv"]) == [0, 1, 2])
