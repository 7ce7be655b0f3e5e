"""Contracts on PyFHD/pyfhd.py: the pipeline, its checkpoints and outputs."""
import math
import os
import shutil
import tempfile
from pathlib import Path
from pyvc.contract import contract, Contract, Skip, NSp
from contracts.c_calibration2 import rng_of
from contracts.c_healpix import patched


def fp(x):
    """a number that depends on everything in x"""
    import numpy as np

    if isinstance(x, dict):
        return math.sin(sum(fp(k) * 1.3 + fp(v) * fp(k + "!") for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return math.sin(sum(fp(v) * (i + 1) for i, v in enumerate(x)))
    if x is None:
        return 0.123
    if isinstance(x, (str, Path)):
        return math.sin(sum(ord(ch) * (i + 1) for i, ch in enumerate(str(x))))
    z = np.asarray(x).astype(complex).ravel()
    w = np.cos(np.arange(z.size) + 1)
    return math.sin(float(np.sum(z.real * w) + 1.7 * np.sum(z.imag * w)) + z.size)


def make(name, shape, kind, *args):
    import numpy as np

    v = fp([name, *args])
    n = int(np.prod(shape))
    z = np.cos(np.arange(n) * 0.7 + 3 * v).reshape(shape)
    return z + 1j * np.sin(np.arange(n) + 5 * v).reshape(shape) if kind == "c" else z


class Stages:
    """stand-ins for the stages; every result depends on every argument"""

    def __init__(self, n_pol, empty=False):
        self.n_pol, self.empty, self.log = n_pol, empty, []
        self.vs = (n_pol, 2, 3)

    # reading
    def extract_header(self, cfg, logger):
        return dict(h=1.5), dict(d=2.5), dict(ah=3.5), dict(ad=4.5)

    def create_params(self, h, d, logger):
        return dict(uu=make("params", (3,), "f", h, d))

    def extract_visibilities(self, h, d, cfg, logger):
        return make("vis", self.vs, "c", h, d), make("w", self.vs, "f", h, d)

    def create_layout(self, ah, ad, cfg, logger):
        return dict(l=fp(["layout", ah, ad]))

    def create_obs(self, h, p, l, cfg, logger):
        return dict(n_pol=self.n_pol, elements=4, dimension=4, nf_vis=make("nf", (2,), "f", h, p, l))

    def create_psf(self, cfg, logger):
        return dict(image_info=dict(image_power_beam_arr=None))

    # flagging and calibration
    def simple_deproject_w_term(self, obs, p, vis, d, logger):
        return make("deproject", self.vs, "c", obs, p, vis, d)

    def vis_flag_basic(self, w, vis, obs, cfg, logger):
        return make("basic", self.vs, "f", w, vis, obs), dict(obs, basic=fp([w, vis, obs]))

    def vis_weights_update(self, w, obs, psf, p):
        return make("update", self.vs, "f", w, obs, p), dict(obs, update=fp([w, obs, p]))

    def vis_model_transfer(self, cfg, obs, logger):
        return make("model", self.vs, "c", obs), dict(m=fp(["mp", obs]))

    def flag_model_visibilities(self, m, p, mp, obs, cfg, logger):
        return make("mflag", self.vs, "c", m, p, mp, obs)

    def calibrate(self, obs, p, vis, w, m, cfg, logger):
        return make("cal", self.vs, "c", obs, p, vis, w, m), dict(gain=make("gain", (self.n_pol, 2), "c", vis, w, m), other=1.0), dict(obs, cal=fp([obs, w]))

    def calibrate_qu_mixing(self, vis, m, w, obs):
        return fp(["qu", vis, m, w, obs])

    def vis_flag(self, vis, w, obs, p, logger):
        return make("flag", self.vs, "f", vis, w, obs, p), dict(obs, flag=fp([vis, w, obs]))

    def vis_noise_calc(self, obs, vis, w):
        return make("noise", (2,), "f", obs, vis, w)

    # imaging
    def visibility_grid(self, vis, w, obs, psf, p, pol, cfg, logger, uniform_flag=False, no_conjugate=False, model=None):
        if self.empty and pol == self.n_pol - 1:
            return {}
        a = [vis, w, {k: v for k, v in obs.items() if k != "nf_vis"}, p, pol, no_conjugate]
        r = dict(image_uv=make("im", (4, 4), "c", *a), weights=make("wt", (4, 4), "c", *a), variance=make("va", (4, 4), "f", *a), model_return=make("mr", (4, 4), "c", model, *a), obs=dict(obs, nf_vis=make("nfv", (2,), "f", *a)))
        if uniform_flag:
            r["uniform_filter"] = make("un", (4, 4), "f", *a)
        return r

    def crosspol_reformat(self, im):
        return make("cross", im.shape, "c", im)

    def quickview(self, obs, psf, p, cal, vis, w, im, wt, va, un, mo, cfg, logger):
        self.log.append(("quickview", dict(obs=obs, p=p, cal=cal, vis=vis, w=w, im=im, wt=wt, va=va, un=un, mo=mo)))

    def healpix_snapshot_cube_generate(self, obs, psf, cal, p, vis, m, w, cfg, logger):
        self.log.append(("healpix", dict(obs=obs, p=p, cal=cal, vis=vis, m=m, w=w)))

    def write_collated_yaml_config(self, cfg, d, desc=""):
        self.log.append(("config", desc))


NAMES = [k for k in Stages.__dict__ if not k.startswith("_")]


def reference(c, n_pol):
    """what the documented sequence of stages gives"""
    import numpy as np

    s = Stages(n_pol)
    h, d, ah, ad = s.extract_header(None, None)
    p = s.create_params(h, d, None)
    vis, w = s.extract_visibilities(h, d, None, None)
    obs = s.create_obs(h, p, s.create_layout(ah, ad, None, None), None, None)
    R = dict(raw_vis=vis, raw_w=w, obs=dict(obs), p=p, cal={})
    if c["deproject_w_term"] is not None:
        vis = s.simple_deproject_w_term(obs, p, vis, c["deproject_w_term"], None)
    if c["flag_basic"]:
        w, obs = s.vis_flag_basic(w, vis, obs, None, None)
    w, obs = s.vis_weights_update(w, obs, None, p)
    m, mp = s.vis_model_transfer(None, obs, None)
    if c["flag_model"]:
        m = s.flag_model_visibilities(m, p, mp, obs, None, None)
    if c["calibrate_visibilities"]:
        vis, R["cal"], obs = s.calibrate(obs, p, vis, w, m, None, None)
        if n_pol >= 4:
            R["cal"]["stokes_mix_phase"] = s.calibrate_qu_mixing(vis, m, w, obs)
        w, obs = s.vis_weights_update(w, obs, None, p)
        if c["flag_visibilities"]:
            w, obs = s.vis_flag(vis, w, obs, p, None)
        obs = dict(obs, vis_noise=s.vis_noise_calc(obs, vis, w))
    R.update(vis=vis, w=w, m=m, obs=obs)
    g = [s.visibility_grid(vis[i], w[i], obs, None, p, i, None, None, uniform_flag=i == 0, no_conjugate=i > 1, model=m[i]) for i in range(n_pol)]
    st = lambda k: np.stack([x[k] for x in g])
    im, wt, va, mo = st("image_uv"), st("weights"), st("variance"), st("model_return")
    if n_pol == 4:
        im, wt, mo = (s.crosspol_reformat(x) for x in (im, wt, mo))
    R.update(im=im, wt=wt, va=va, mo=mo, un=g[0]["uniform_filter"])
    if c["grid"]:
        R["obs"] = dict(obs, nf_vis=g[-1]["obs"]["nf_vis"])
    return R


@contract
class main(Contract):
    target = "PyFHD.pyfhd:main"
    prop = "R01"
    level = "bounded"
    why_bounded = "orchestration and files; stages are checked against their own contracts"
    bound = "all combinations of stages, one to four polarizations"
    cases = (dict(resume=None), dict(resume="obs"), dict(resume="calibrate"), dict(resume="gridding"))
    n_quick = 320

    def inputs(self, b, case):
        g = rng_of(b)
        yes = lambda p=0.5: bool(g.random() < p)
        cfg = dict(description=[None, "", "run"][g.integers(0, 3)], obs_id="1234", save_checkpoints=yes() or case["resume"] is not None, obs_checkpoint=None, calibrate_checkpoint=None, gridding_checkpoint=None, save_visibilities=yes(), save_weights=yes(), save_obs=yes(), save_params=yes(), save_cal=yes(), deproject_w_term=None if yes() else 2.5, flag_basic=yes(), flag_model=yes(), calibrate_visibilities=yes(0.7) or case["resume"] == "calibrate", flag_visibilities=yes(), cal_stop=yes(0.3) and case["resume"] is None, recalculate_grid=yes(0.8) or case["resume"] is not None, export_images=yes(0.8), snapshot_healpix_export=yes(0.6), beam_per_baseline=yes(), silent=True, other=[])
        cfg["export_images"] &= cfg["recalculate_grid"]
        return dict(cfg=cfg, n_pol=int(g.choice([1, 2, 4])), resume=case["resume"], empty=yes(0.1) and case["resume"] is None)

    def call(self, f, a):
        import logging
        from PyFHD.io.pyfhd_io import load

        d = tempfile.mkdtemp()
        quiet = logging.getLogger("pyvc.quiet")
        quiet.setLevel(logging.CRITICAL + 1)
        quiet.propagate = False

        def run(sub, **more):
            o = os.path.join(d, sub)
            os.makedirs(os.path.join(o, "config"))
            s = Stages(a.n_pol, a.empty)
            cfg = dict(a.cfg, output_dir=o, **more) if not more else {**a.cfg, "output_dir": o, **more}
            with patched("PyFHD.pyfhd", pyfhd_parser=lambda: NSp(dict(parse_args=lambda: None)), pyfhd_setup=lambda opt: (cfg, quiet), **{k: getattr(s, k) for k in NAMES}):
                try:
                    f()
                    code = None
                except SystemExit as e:
                    code = e.code
            return s.log, code, o

        try:
            log, code, o = run("one")
            if a.resume:
                nm = a.cfg["description"] or "1234"
                ck = os.path.join(o, "checkpoints", nm + {"obs": "_obs_checkpoint.h5", "calibrate": "_calibration_checkpoint.h5", "gridding": "_gridding_checkpoint.h5"}[a.resume])
                log, code, o = run("two", **{a.resume + "_checkpoint": ck, "save_checkpoints": False})
            files = {}
            for r, _, fs in os.walk(o):
                for n in fs:
                    q = os.path.relpath(os.path.join(r, n), o)
                    files[q] = load(os.path.join(r, n)) if not q.startswith("config") else None
            return log, code, files
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np

        log, code, files = r
        cfg = old.cfg
        grid = cfg["recalculate_grid"] and not cfg["cal_stop"]
        R = reference(dict(cfg, grid=grid), old.n_pol)
        same = lambda x, y: abs(fp(x) - fp(y)) < 1e-7
        if old.empty and grid:
            yield "the run stops with an error when everything is flagged", code == 1
            return
        yield "the run ends normally", code in ((0,) if cfg["cal_stop"] else (None,))
        seen = dict(log)
        yield "images and cubes are made when requested", sorted(k for k, _ in log if k != "config") == sorted(k for k, q in (("quickview", "export_images"), ("healpix", "snapshot_healpix_export")) if cfg[q] and not cfg["cal_stop"])
        for k in ("quickview", "healpix"):
            for q, v in seen.get(k, {}).items():
                e = R[q]
                yield f"{k}: {q} is the result of the requested stages in their order, resumed or not", same(v, e) or q == "cal" and not cfg["calibrate_visibilities"]
        yield "the final configuration is written", seen.get("config") == "-final" and "config/pyfhd_config.h5" in files
        want = {"config/pyfhd_config.h5": None}
        nm = cfg["description"] or "1234"
        first = old.resume in (None, "gridding")
        if first and cfg["save_visibilities"]:
            want["visibilities/1234_raw_vis_arr.h5"] = R["raw_vis"]
        if first and cfg["save_weights"]:
            want["visibilities/1234_raw_vis_weights.h5"] = R["raw_w"]
        if old.resume is None and cfg["save_checkpoints"]:
            want[f"checkpoints/{nm}_obs_checkpoint.h5"] = None
            if cfg["calibrate_visibilities"]:
                want[f"checkpoints/{nm}_calibration_checkpoint.h5"] = dict(obs={k: v for k, v in R["obs"].items() if k != "nf_vis"}, params=R["p"], vis_arr=R["vis"], vis_model_arr=R["m"], vis_weights=R["w"], cal=R["cal"])
            if grid:
                want[f"checkpoints/{nm}_gridding_checkpoint.h5"] = None
        if cfg["cal_stop"]:
            for k, q, v in (("save_obs", "metadata/1234_obs.h5", R["obs"]), ("save_params", "metadata/1234_params.h5", R["p"]), ("save_weights", "visibilities/1234_calibrated_vis_weights.h5", R["w"]), ("save_visibilities", "visibilities/1234_calibrated_vis_arr.h5", R["vis"])):
                if cfg[k]:
                    want[q] = v
            if cfg["save_cal"] and cfg["calibrate_visibilities"]:
                want["calibration/1234_cal.h5"] = R["cal"]
        yield "exactly the requested files are written", set(files) == set(want)
        for k, v in want.items():
            if v is not None:
                got = files[k]
                if k.endswith("calibration_checkpoint.h5"):
                    got = dict(got, obs={q: x for q, x in got["obs"].items() if q != "nf_vis"})
                if k.endswith("params.h5"):
                    got = got if isinstance(got, dict) else dict(uu=got)
                yield f"{k} holds its data", same(got, v)
