"""Contracts on PyFHD/healpix: conversion to HEALPix pixels, cubes per frequency, export."""
import contextlib
import math
import os
import shutil
import tempfile
from pyvc.contract import contract, Contract, Skip
from contracts.c_calibration2 import rng_of
from contracts.c_data_setup import with_stub, JD

HP = "PyFHD.healpix.healpix_utils:"


@contextlib.contextmanager
def patched(module, **new):
    """callees replaced by stand-ins that keep their contracts; arguments are bound by the signature of the callee, so that a call by name and a call by position are the same"""
    import functools
    import importlib
    import inspect

    m = importlib.import_module(module)
    keep = {k: getattr(m, k) for k in new if hasattr(m, k)}

    def bound(real, stub):
        if not inspect.isfunction(real):
            return stub
        sig = inspect.signature(real)
        own = list(inspect.signature(stub).parameters.values())
        names = list(sig.parameters)
        use = {}  # parameter of the stand-in -> parameter of the callee: the same name, else the same position
        for i, x in enumerate(own):
            if x.kind is not x.VAR_KEYWORD:
                use[x.name] = x.name if x.name in names else names[i]
        rest = any(x.kind is x.VAR_KEYWORD for x in own)

        @functools.wraps(real)
        def f(*args, **kw):
            q = sig.bind(*args, **kw)
            given = dict(q.arguments)
            q.apply_defaults()
            extra = {k: v for k, v in given.items() if k not in use.values()} if rest else {}
            return stub(**{k: q.arguments[v] for k, v in use.items()}, **extra)

        return f

    for k in keep:
        setattr(m, k, bound(keep[k], new[k]))
    try:
        yield
    finally:
        for k, v in keep.items():
            setattr(m, k, v)


def astrometry(ra, dec, nx, ny, deg):
    import numpy as np

    return dict(naxis=np.array([nx, ny]), cd=np.identity(2), cdelt=np.full(2, deg), crpix=np.array([nx // 2, ny // 2]) + 1.0, crval=np.array([ra, dec]), ctype=["RA---SIN", "DEC--SIN"], pv1=np.array([0.0, 0, 90, 180, 0]), pv2=np.array([0.0, 0.0]), radecsys="ICRS", equinox=2000.0, dateobs="2013-08-23T00:00:00", mjdobs=JD - 2400000.5)


@contract
class healpix_cnv_generate(Contract):
    target = HP + "healpix_cnv_generate"
    prop = "H01"
    level = "bounded"
    why_bounded = "library geometry (healpy, astropy) and ragged arrays of arrays"
    bound = "images up to 24 pixels, HEALPix sides 16 to 64"
    cases = (dict(restrict=True), dict(restrict=False), dict(restrict=True, default=True))
    n_quick = 90

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        nx = int(2 * g.integers(5, 13))
        ny = nx if g.random() < 0.5 else int(2 * g.integers(5, 13))
        deg = float(g.uniform(0.5, 1.5))
        lst = (280.46061837 + 360.98564736629 * (JD + 0.6 - 2451545.0) + 116.67) % 360
        ra = float((lst + (g.uniform(-75, 75) if case.get("default") else g.choice([0, 0, g.uniform(-60, 60), 80, -82]))) % 360)
        dec = float(g.uniform(-60, 10))
        obs = dict(dimension=nx, elements=ny, obsra=ra, obsdec=dec, astr=astrometry(ra, dec, nx, ny, deg), instrument="mwa", jd0=JD + 0.6, healpix={}, freq_center=float(g.uniform(1e8, 2.3e8)) if case.get("default") else 1.5e8)
        mask = (g.random((ny, nx)) < 0.9) * 1.0 if g.random() < 0.5 else np.ones((ny, nx))
        nside = int(g.choice([16, 32, 64]))
        return dict(obs=obs, mask=mask, hpx_radius=float(g.uniform(2, 1.2 * max(nx, ny) * deg)), restrict=case["restrict"], default=bool(case.get("default")), stored=bool(g.random() < 0.5), nside=None if g.random() < 0.3 and not case["restrict"] else nside, frac=float(g.choice([0.2, 1.0])), keep=b.int("keep", 0, 999, size=999), logger=b.logger())

    def field(self, o):
        """the standard field and band nearest to an observation"""
        c = math.radians
        d = [math.degrees(math.acos(math.sin(c(o["obsdec"])) * math.sin(c(-30)) + math.cos(c(o["obsdec"])) * math.cos(c(-30)) * math.cos(c(o["obsra"] - x)))) for x in (0, 60)]
        f = [abs(o["freq_center"] / 1e6 - x) for x in (151, 182)]
        if abs(d[0] - d[1]) < 1.01 or abs(f[0] - f[1]) < 1e-3:
            raise Skip
        return f"EoR{d.index(min(d))}_{('low', 'high')[f.index(min(f))]}_healpix_inds.h5"

    def listed(self, a):
        """the pixels a restricted conversion is asked for"""
        import healpy
        import numpy as np
        from PyFHD.pyfhd_tools.unit_conv import radec_to_pixel

        o = a.obs
        i = healpy.query_disc(a.nside, healpy.ang2vec(o["obsra"], o["obsdec"], lonlat=True), math.radians(min(a.hpx_radius, 70)))
        x, y = radec_to_pixel(*healpy.pix2ang(a.nside, i, lonlat=True), o["astr"])
        g = np.random.default_rng(a.keep)
        ok = (x > 0) & (x < o["dimension"] - 1) & (y > 0) & (y < o["elements"] - 1) & (g.random(i.size) < a.frac)
        return g.permutation(i[ok]) if a.keep % 2 else i[ok]

    def call(self, f, a):
        from PyFHD.io.pyfhd_io import save

        d = tempfile.mkdtemp()
        try:
            cfg = dict(restrict_healpix_inds=a.restrict, healpix_inds=None)
            ns = a.nside
            stand = {}
            asked = []
            if a.restrict:
                w = self.listed(a)
                if w.size < 2:
                    raise Skip
            if a.default:
                self.field(a.obs)
                ns = 8 if a.stored else ns

                def standin(file_name, **k):
                    asked.append(os.path.basename(str(file_name)))
                    return dict(nside=a.nside, hpx_inds=w) if a.stored else w

                stand = dict(load=standin)
            elif a.restrict:
                cfg["healpix_inds"] = os.path.join(d, "i.h5")
                if a.stored:
                    save(cfg["healpix_inds"], dict(nside=ns, hpx_inds=w), "inds")
                    ns = 8  # the file knows better
                else:
                    save(cfg["healpix_inds"], w, "hpx_inds")
            from PyFHD.healpix.healpix_utils import healpix_cnv_apply
            import numpy as np

            with patched("PyFHD.healpix.healpix_utils", **stand):
                cnv, obs = with_stub(lambda: f(a.obs, a.mask, a.hpx_radius, cfg, a.logger, nside=ns))
            g = np.random.default_rng(a.keep + 1)
            im = g.normal(size=a.mask.shape)
            return cnv, obs, im, healpix_cnv_apply(im, cnv), healpix_cnv_apply(a.mask, cnv), asked
        finally:
            shutil.rmtree(d)

    def expect(self, a):
        import healpy
        import numpy as np
        from PyFHD.pyfhd_tools.unit_conv import radec_to_pixel, radec_to_altaz

        o = a.obs
        nx, ny = o["dimension"], o["elements"]
        ns = a.nside
        if ns is None:
            n = 4 * math.pi * math.degrees(1) ** 2 / float(np.prod(o["astr"]["cdelt"]))
            e = math.log2(math.sqrt(n / 12))
            if abs(e - round(e)) < 1e-6:
                raise Skip
            ns = 2 ** math.ceil(e)
        i = self.listed(a) if a.restrict else np.arange(12 * ns * ns)
        ra, dec = healpy.pix2ang(ns, i, lonlat=True)
        c = math.radians
        r1, d1 = np.radians(ra), np.radians(dec)
        r0, d0 = c(o["obsra"]), c(o["obsdec"])
        sep = np.degrees(np.arccos(np.clip(np.sin(d1) * math.sin(d0) + np.cos(d1) * math.cos(d0) * np.cos(r1 - r0), -1, 1)))
        x, y = radec_to_pixel(ra, dec, o["astr"])
        x, y = np.atleast_1d(x), np.atleast_1d(y)
        sure = np.ones(i.size, bool)
        take = np.ones(i.size, bool)
        if not a.restrict:
            take &= (sep < a.hpx_radius) & (x > 0) & (x < nx - 1) & (y > 0) & (y < ny - 1)
            edge = lambda z, m: np.minimum(np.abs(z), np.abs(z - m)) < 1e-6
            sure &= ~((np.abs(sep - a.hpx_radius) < 1e-4) | edge(x, nx - 1) | edge(y, ny - 1))
            k = np.nonzero(take)[0]
            for j in k:
                xs, ys = {math.floor(x[j]), math.ceil(x[j])}, {math.floor(y[j]), math.ceil(y[j])}
                take[j] = all(a.mask[q, p] != 0 for p in xs for q in ys)
                sure[j] &= min(abs(x[j] - round(x[j])), abs(y[j] - round(y[j]))) > 1e-9
        k = np.nonzero(take | ~sure)[0]
        alt = np.full(i.size, 1.0)
        if k.size:
            alt[k] = radec_to_altaz(ra[k], dec[k], -26.7, 116.67, 377.8, o["jd0"])[0]
        return ns, i, x, y, take & (alt > 0), sure & (np.abs(alt) > 1e-3)

    def may_raise(self, c, a, exc):
        return not self.expect(a)[4].any()

    def ensures(self, c, a, old, r):
        import numpy as np

        ns, i, x, y, take, sure = self.expect(old)
        cnv, obs, im, out, mk, asked = r
        if old.default:
            yield "without a list, that of the nearest standard field and band is used", asked == [self.field(old.obs)]
        if not sure.all():
            got = np.isin(i, cnv["inds"])
            yield "pixels away from any limit are selected exactly", bool(np.all(got[sure] == take[sure]))
            return
        yield "exactly the requested pixels inside the image, the mask and above the horizon", list(cnv["inds"]) == list(i[take])
        x, y = x[take], y[take]
        x0, y0 = np.floor(x).astype(int), np.floor(y).astype(int)
        fx, fy = x - x0, y - y0
        at = lambda p, q: im[np.minimum(q, im.shape[0] - 1), np.minimum(p, im.shape[1] - 1)]
        want = at(x0, y0) * (1 - fx) * (1 - fy) + at(x0 + 1, y0) * fx * (1 - fy) + at(x0, y0 + 1) * (1 - fx) * fy + at(x0 + 1, y0 + 1) * fx * fy
        yield "converting an image interpolates it bilinearly at the position of each pixel", out.shape == want.shape and bool(np.allclose(out, want, rtol=0, atol=1e-9))
        yield "resolution", (float(cnv["nside"]), float(obs["healpix"]["nside"])) == (ns, ns)
        yield "numbers of pixels in the observation", (obs["healpix"]["n_pix"], obs["healpix"]["n_zero"]) == (len(x), int(np.sum(mk == 0)))
        yield "list of pixels in the observation unless restricted", obs["healpix"]["ind_list"] is None if old.restrict else list(obs["healpix"]["ind_list"]) == list(i[take])
        yield "mask not modified", c.unchanged(a.mask, old.mask)


@contract
class healpix_cnv_apply(Contract):
    target = HP + "healpix_cnv_apply"
    prop = "H01"
    level = "bounded"
    why_bounded = "ragged arrays of arrays"
    bound = "images up to 6 by 6, 8 HEALPix pixels"
    n_quick = 300

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        ny, nx = g.integers(1, 7, 2)
        n = int(g.integers(1, 9))
        use = np.sort(g.permutation(nx * ny)[: g.integers(1, nx * ny + 1)])
        ija, sa = np.empty(use.size, object), np.empty(use.size, object)
        for i in range(use.size):
            k = g.integers(1, 9)
            ija[i] = g.integers(0, n, k)
            sa[i] = g.normal(size=k)
        im = g.normal(size=(ny, nx))
        if g.random() < 0.3:
            im = np.asfortranarray(im)
        return dict(image=im, hpx_cnv=dict(inds=g.permutation(100)[:n], ija=ija, sa=sa, i_use=use))

    def ensures(self, c, a, old, r):
        import numpy as np

        h = old.hpx_cnv
        e = [sum(s * old.image.ravel()[u] for u, j, w in zip(h["i_use"], h["ija"], h["sa"]) for jj, s in zip(j, w) if jj == k) for k in range(h["inds"].size)]
        yield "each HEALPix pixel is the weighted sum of its image pixels", c.all_same(r, np.array(e, float))
        yield "image not modified", c.unchanged(a.image, old.image)


@contract
class phase_shift_uv_image(Contract):
    target = HP + "phase_shift_uv_image"
    prop = "H02"
    level = "bounded"
    why_bounded = "library geometry (astropy)"
    bound = "planes up to 16 pixels"
    cases = (dict(moved=False), dict(moved=True))
    n_quick = 120

    def inputs(self, b, case):
        g = rng_of(b)
        nx = int(2 * g.integers(2, 9))
        ny = nx if g.random() < 0.5 else int(2 * g.integers(2, 9))
        ra, dec = float(g.uniform(10, 350)), float(g.uniform(-70, 70))
        obs = dict(dimension=nx, elements=ny, phasera=ra, phasedec=dec, orig_phasera=ra, orig_phasedec=dec, astr=astrometry(ra, dec, nx, ny, float(g.uniform(0.5, 2))))
        if case["moved"]:
            k = g.integers(0, 3)
            if k != 1:
                obs["orig_phasera"] += float(g.uniform(-3, 3))
            if k != 0:
                obs["orig_phasedec"] += float(g.uniform(-3, 3))
        return dict(obs=obs)

    def ensures(self, c, a, old, r):
        import numpy as np
        from PyFHD.pyfhd_tools.unit_conv import radec_to_pixel

        o = old.obs
        nx, ny = o["dimension"], o["elements"]
        dx = dy = 0
        if (o["phasera"], o["phasedec"]) != (o["orig_phasera"], o["orig_phasedec"]):
            x, y = radec_to_pixel(o["orig_phasera"], o["orig_phasedec"], o["astr"])
            dx, dy = x - nx / 2, y - ny / 2
        u, v = np.meshgrid(np.arange(nx) - nx / 2, np.arange(ny) - ny / 2)
        e = np.exp(2j * np.pi * (u * dx / nx + v * dy / ny))
        yield "the phases that move the original phase centre to the centre of the image", r.shape == e.shape and bool(np.allclose(r, e, rtol=0, atol=1e-9))


def grid_stub(log):
    """gridding that depends on everything it is given, and counts like the real one"""
    import numpy as np

    def visibility_grid(vis, w, obs, psf, params, pol, cfg, logger, fi_use=None, bi_use=None, model=None, **k):
        log.append(dict(pol=pol, fi=np.array(fi_use), bi=None if bi_use is None else np.array(bi_use), vis=vis, w=w, model=model, **k))
        n = obs["dimension"]
        bi = np.arange(vis.shape[1]) if bi_use is None else np.asarray(bi_use)
        sel = np.ix_(fi_use, bi)
        good = w[sel] > 0
        m = int(good.sum())
        obs["nf_vis"][fi_use] = good.sum(1)
        if m == 0:
            return {}
        base = np.exp(1j * np.arange(n * n).reshape(n, n) * 0.37)
        p = lambda q: base * (np.sum(np.where(good, q[sel], 0)) / m) + 0.1
        return dict(image_uv=p(vis), weights=p(np.ones_like(vis)), variance=np.abs(p(np.abs(w) + 0j)), uniform_filter=0, obs=obs, n_vis=m, model_return=p(model))

    return visibility_grid


def cube_inputs(g):
    import numpy as np

    n, nf, nb, npol = int(2 * g.integers(2, 5)), int(g.integers(1, 9)), int(g.integers(1, 7)), int(g.choice([1, 2, 4]))
    cplx = lambda: g.normal(size=(npol, nf, nb)) + 1j * g.normal(size=(npol, nf, nb))
    w = np.where(g.random((npol, nf, nb)) < 0.3, [0.0, -1.0][g.integers(0, 2)], 1.0)
    if g.random() < 0.5:
        w[:, :, g.integers(0, nb)] = 0
    fu = (g.random(nf) < 0.8) * 1
    ra, dec = 60.0, -27.0
    obs = dict(n_pol=npol, n_freq=nf, dimension=n, elements=n, degpix=1.0, kpix=0.5, nf_vis=np.full(nf, 7), n_vis=-1, phasera=ra, phasedec=dec, orig_phasera=ra + float(g.choice([0, 1])), orig_phasedec=dec, pol_names=["XX", "YY", "XY", "YX"], baseline_info=dict(freq_use=fu, freq=1.8e8 + np.arange(nf) * 8e4), astr=astrometry(ra, dec, n, n, 1.0), residual=False)
    return obs, cplx(), cplx(), w


@contract
class vis_model_freq_split(Contract):
    target = HP + "vis_model_freq_split"
    prop = "H03"
    level = "bounded"
    why_bounded = "nested dictionaries, files, and a callee checked against its own contract (gridding, G05)"
    bound = "up to 8 frequencies, 6 baselines, 4 polarizations, planes of 4 to 8 pixels"
    cases = (dict(fft=True, bi=False), dict(fft=True, bi=True), dict(fft=False, bi=False))
    n_quick = 200

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        obs, vis, model, w = cube_inputs(g)
        d = dict(obs=obs, psf={}, params={}, vis_weights=w, vis_model_arr=model, vis_arr=vis, polarization=int(g.integers(0, obs["n_pol"])), pyfhd_config=dict(n_avg=int(g.integers(1, 4)), rephase_weights=bool(g.random() < 0.5), obs_id="1234", pad_uv_image=None, image_filter="filter_uv_uniform"), logger=b.logger(), fft=case["fft"], save_uvf=bool(g.random() < 0.4), uvf_name="even")
        if case["bi"]:
            d["bi_use"] = np.sort(g.permutation(w.shape[2])[: g.integers(1, w.shape[2] + 1)])
        return d

    def call(self, f, a):
        from PyFHD.io.pyfhd_io import load

        log = []
        d = tempfile.mkdtemp()
        try:
            k = dict(a.__dict__)
            k["pyfhd_config"] = dict(a.pyfhd_config, output_dir=d)
            with patched("PyFHD.healpix.healpix_utils", visibility_grid=grid_stub(log)):
                r = f(**k)
            u = os.path.join(d, "healpix", "uvf_grid")
            files = {n: load(os.path.join(u, n)) for n in sorted(os.listdir(u))} if a.save_uvf else {}
            return r, log, files
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np
        from PyFHD.gridding.gridding_utils import dirty_image_generate
        from PyFHD.healpix.healpix_utils import phase_shift_uv_image

        r, log, files = r
        o, p, w = old.obs, old.polarization, old.vis_weights
        na = old.pyfhd_config["n_avg"]
        nf, n = -(-o["n_freq"] // na), o["dimension"]
        bi = old.__dict__.get("bi_use")
        if bi is None:
            bi = np.nonzero((np.maximum(w[:2].max(0), 0)).sum(0) > 0)[0]
        rot = phase_shift_uv_image(o) if old.pyfhd_config["rephase_weights"] else 1
        names = dict(residual_arr=("dirty", 1), weights_arr=("weights", rot), variance_arr=("variance", rot), model_arr=("model", 1))
        src = dict(residual_arr="image_uv", weights_arr="weights", variance_arr="variance", model_arr="model_return")
        want = {k: np.zeros((nf, n, n), float if old.fft else complex) for k in names}
        uv = {k: np.zeros((nf, n, n), complex) for k in names}
        import copy

        o2 = copy.deepcopy(o)
        tot = 0
        grid = grid_stub([])
        for i in range(nf):
            fi = [j for j in range(i * na, min((i + 1) * na, o["n_freq"])) if o["baseline_info"]["freq_use"][j] > 0]
            if not fi:
                continue
            q = grid(old.vis_arr[p], w[p], o2, {}, {}, p, {}, None, model=old.vis_model_arr[p], fi_use=np.array(fi), bi_use=bi)
            if not q:
                continue
            tot += q["n_vis"]
            for k, (_, ph) in names.items():
                z = q[src[k]] * ph
                uv[k][i] = z * q["n_vis"]
                want[k][i] = (dirty_image_generate(z, old.pyfhd_config, old.logger, degpix=o["degpix"])[0] if old.fft else z) * q["n_vis"]
        for k in names:
            yield f"{k}: the plane of each group of used frequencies, times its number of visibilities", r[k].shape == want[k].shape and bool(np.allclose(r[k], want[k], rtol=1e-9, atol=1e-12))
        yield "number of visibilities", r["obs"]["n_vis"] == tot
        yield "number of visibilities per frequency", list(r["obs"]["nf_vis"]) == list(o2["nf_vis"])
        if old.save_uvf:
            pol = o["pol_names"][p]
            yield "a file for each kind of plane", sorted(files) == sorted(f"1234_even_{pol}_{k}_gridded_uvf.h5" for k in ("dirty_uv_arr", "weights_uv", "variance_uv_arr", "model_uv_arr"))
            for q in files.values():
                yield "the uv planes are saved", set(q) == {v[0] + "_uv" for v in names.values()} and all(np.allclose(q[v[0] + "_uv"], uv[k], rtol=1e-9, atol=1e-12) for k, v in names.items())
        yield "visibilities and weights not modified", c.and_(c.unchanged(a.vis_arr, old.vis_arr), c.unchanged(a.vis_weights, w), c.unchanged(a.vis_model_arr, old.vis_model_arr))


@contract
class beam_image_cube(Contract):
    target = HP + "beam_image_cube"
    prop = "H04"
    level = "bounded"
    why_bounded = "data-dependent groups of frequencies, region growing (U07)"
    bound = "up to 12 frequencies, images of 4 to 10 pixels"
    n_quick = 200

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        n, nf, npol = int(2 * g.integers(2, 6)), int(g.integers(1, 13)), int(g.choice([1, 2, 4]))
        k = int(g.integers(1, 5))
        obs = dict(n_pol=npol, n_freq=nf, dimension=n, elements=n, obsx=n / 2 + g.integers(-1, 2) * 0.5 * (n > 4), obsy=n / 2 + g.integers(-1, 2) * (n > 4), baseline_info=dict(fbin_i=np.arange(nf) // k, freq=1.8e8 + np.arange(nf) * 8e4))
        d = dict(obs=obs, psf=dict(seed=int(g.integers(0, 1000))), logger=b.logger(), square=bool(g.random() < 0.7))
        m = g.integers(0, 3)
        if m == 0:
            d["n_freq_bin"] = int(g.integers(1, nf + 1))
        else:
            f = np.sort(g.permutation(nf)[: g.integers(1, nf + 1)])
            d["freq_i_arr"] = f if m == 1 else obs["baseline_info"]["freq"][f]
        if g.random() < 0.7:
            d["beam_threshold"] = float(g.choice([0.05, 0.3, 0.7]))
        return d

    @staticmethod
    def beam(psf, obs, pol_i, freq_i=None, square=False, **k):
        import numpy as np

        n = obs["dimension"]
        g = np.random.default_rng([psf["seed"], pol_i, int(obs["baseline_info"]["fbin_i"][freq_i])])
        x = np.arange(n) - n // 2
        s = g.uniform(0.5, 3)
        im = np.exp(-np.add.outer(x**2 * g.uniform(0.5, 2), x**2) / (2 * s * s)) * g.uniform(0.9, 1.1, (n, n))
        im[n // 2, n // 2] = 1.3
        return im**2 if square else im

    def call(self, f, a):
        with patched("PyFHD.healpix.healpix_utils", beam_image=self.beam):
            return f(**a.__dict__)

    def ensures(self, c, a, old, r):
        import numpy as np
        from PyFHD.pyfhd_tools.pyfhd_utils import region_grow

        O, o = old.__dict__, old.obs
        nf = o["n_freq"]
        if "n_freq_bin" in O:
            f = [math.floor(i * (nf / O["n_freq_bin"])) for i in range(O["n_freq_bin"])]
        else:
            f = list(O["freq_i_arr"])
            if f[0] > 1e6:
                f = [round((x - 1.8e8) / 8e4) for x in f]
        cube, mask = r
        yield "one image per polarization and frequency", cube.shape == (o["n_pol"], len(f), o["dimension"], o["elements"])
        th = O.get("beam_threshold", 0.05) ** (old.square + 1)
        m = np.ones(mask.shape)
        for p in range(o["n_pol"]):
            for i, fi in enumerate(f):
                e = self.beam(old.psf, o, p, fi, old.square)
                yield "every frequency has the beam of its bin and polarization", c.all_same(cube[p, i], e)
                k = np.zeros(m.shape)
                grown = region_grow(e.copy(), int(o["obsx"] + o["obsy"] * o["dimension"]), low=th, high=e.max())
                if grown is not None:
                    k.flat[grown] = 1
                m *= k
        yield "the mask is where all beams are above the threshold around the centre", c.all_same(mask, m)


@contract
class healpix_snapshot_cube_generate(Contract):
    target = "PyFHD.healpix.export:healpix_snapshot_cube_generate"
    prop = "H05"
    level = "bounded"
    why_bounded = "orchestration and files; callees are checked against their own contracts"
    bound = "up to 8 frequencies, 6 baselines, 4 polarizations"
    cases = (dict(split=True), dict(split=False))
    n_quick = 80

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        obs, vis, model, w = cube_inputs(g)
        nf, nb = obs["n_freq"], w.shape[2]
        opt = lambda v: None if g.random() < 0.6 else v
        cfg = dict(split_ps_export=case["split"], ps_kbinsize=opt(float(g.choice([0.5, 1.0]))), ps_fov=opt(float(g.uniform(30, 100))), ps_kspan=[None, 0, float(g.integers(4, 12))][g.integers(0, 3)], ps_dimension=opt(int(2 * g.integers(3, 8))), ps_degpix=opt(float(g.uniform(5, 20))), ps_nfreq_avg=opt(int(g.integers(1, 4))), n_avg=int(g.integers(1, min(3, nf) + 1)), ps_beam_threshold=0.1, ps_tile_flag_list=[] if g.random() < 0.5 else ["3"], obs_id="1234")
        obs["residual"] = bool(g.random() < 0.3)
        obs["degpix"] = float(g.uniform(8, 15))
        return dict(obs=obs, psf=dict(fbin_i=np.arange(nf) // int(g.integers(1, 3))), cal={}, params=dict(p=1), vis_arr=vis, vis_model_arr=model, vis_weights=w, pyfhd_config=cfg, logger=b.logger())

    def call(self, f, a):
        import numpy as np
        from PyFHD.io.pyfhd_io import load

        log = []
        cfg = a.pyfhd_config

        def update_obs(obs, dim, kbin, beam_nfreq_avg=None, fov=None):
            log.append(("update_obs", dim, kbin, beam_nfreq_avg, fov))
            return dict(obs, dimension=dim, elements=dim, resized=True)

        def beam_image_cube(obs, psf, logger, square=None, beam_threshold=None, n_freq_bin=None):
            log.append(("beam", obs.get("resized"), square, beam_threshold, n_freq_bin))
            z = np.arange(obs["n_pol"] * n_freq_bin)
            return np.ones((obs["n_pol"], n_freq_bin, 3, 3)) * (z + 1).reshape(obs["n_pol"], n_freq_bin, 1, 1), np.full((3, 3), 5.0)

        def generate(obs, mask, radius, cfg_, logger, nside=None):
            log.append(("cnv", float(mask[0, 0]), radius, nside))
            return dict(inds=np.arange(4)), dict(obs, converted=True)

        def flag_tiles(obs, w, tiles, logger):
            log.append(("flag", list(tiles)))
            w = w.copy()
            w[:, :, 0] = 0
            return w

        def weights_update(w, obs, psf, params):
            log.append(("update", float(w[:, :, 0].max())))
            return w * 2, dict(obs, updated=True)

        def split_weights(obs, w):
            log.append(("split", w.copy()))
            n = w.shape[2] // 2
            return w[:, :, : 2 * n] * 3, [np.arange(0, 2 * n, 2), np.arange(1, 2 * n, 2)]

        def noise(obs, vis, w, bi_use=None):
            log.append(("noise", w.copy(), None if bi_use is None else [list(x) for x in bi_use]))
            return np.array([4.0])

        def freq_split(obs, psf, params, w, model, vis, pol, cfg_, logger, uvf_name="", bi_use=None):
            log.append(("freq", pol, uvf_name, None if bi_use is None else (list(bi_use) if np.ndim(bi_use) else "scalar"), w.copy(), obs["vis_noise"][0]))
            nf = obs["n_freq"]
            n = -(-nf // cfg["n_avg"])
            s = 100 * pol + 1000 * (uvf_name == "odd")
            arr = lambda k: np.ones((n, 3, 3)) * (np.arange(n) + 10 * k + s).reshape(n, 1, 1)
            return dict(obs=dict(obs, nf_vis=np.arange(nf) + 1 + s), residual_arr=arr(1), weights_arr=arr(2), variance_arr=arr(3), model_arr=arr(4))

        def apply(image, cnv):
            return image[0, 0] + np.arange(4) / 8

        d = tempfile.mkdtemp()
        try:
            with patched("PyFHD.healpix.export", update_obs=update_obs, beam_image_cube=beam_image_cube, healpix_cnv_generate=generate, vis_flag_tiles=flag_tiles, vis_weights_update=weights_update, split_vis_weights=split_weights, vis_noise_calc=noise, vis_model_freq_split=freq_split, healpix_cnv_apply=apply):
                f(**dict(a.__dict__, pyfhd_config=dict(cfg, output_dir=d)))
            h = os.path.join(d, "healpix")
            return log, {n: load(os.path.join(h, n)) for n in sorted(os.listdir(h))}
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np

        log, files = r
        cfg, o, w = old.pyfhd_config, old.obs, old.vis_weights
        L = lambda k: [x[1:] for x in log if x[0] == k]
        deg = math.degrees(1)
        kb = cfg["ps_kbinsize"] or (deg / cfg["ps_fov"] if cfg["ps_fov"] else o["kpix"])
        fov = deg / kb
        dim = cfg["ps_kspan"] / kb if cfg["ps_kspan"] else cfg["ps_dimension"] if cfg["ps_dimension"] is not None else fov / (cfg["ps_degpix"] or o["degpix"])
        if abs(dim - round(dim)) < 1e-6 and not cfg["ps_kspan"] and cfg["ps_dimension"] is None:
            raise Skip
        dim = int(dim + 1e-9)
        avg = cfg["ps_nfreq_avg"] or float(np.round(o["n_freq"] / (old.psf["fbin_i"].max() + 1)))
        nf = o["n_freq"] // cfg["n_avg"]
        u = L("update_obs")
        yield "the observation is resized to the requested power spectrum plane", len(u) == 1 and u[0][0] == dim and bool(np.allclose([float(x) for x in u[0][1:]], [kb, avg, fov]))
        ns = 2.0 ** math.ceil(math.log2(math.sqrt(4 * math.pi * deg**2 / (fov / dim) ** 2 / 12)))
        k = L("cnv")
        yield "pixels of the resolution of the image within the field of view", len(k) == 1 and k[0][0] == 5 and abs(k[0][1] - fov / math.sqrt(2)) < 1e-9 and float(k[0][2]) == ns
        yield "squared beams of the frequencies of the cube", L("beam") == [(True, True, 0.1, nf)]
        flag = len(cfg["ps_tile_flag_list"]) > 0
        yield "requested tiles are flagged", L("flag") == ([(cfg["ps_tile_flag_list"],)] if flag else [])
        ww = w.copy()
        if flag:
            ww[:, :, 0] = 0
        ww = ww * 2
        n = w.shape[2] // 2
        sets = [list(range(0, 2 * n, 2)), list(range(1, 2 * n, 2))] if cfg["split_ps_export"] else [None]
        use = ww[:, :, : 2 * n] * 3 if cfg["split_ps_export"] else ww
        q = L("noise")
        yield "noise of the updated weights", len(q) == 1 and np.array_equal(q[0][0], ww) and q[0][1] == (sets if cfg["split_ps_export"] else None)
        uvf = ["even", "odd"] if cfg["split_ps_export"] else [""]
        q = L("freq")
        yield "every cube and polarization is made once, from its own half of the samples or all of them", sorted((x[:3] for x in q), key=str) == sorted(((p, nm, s) for nm, s in zip(uvf, sets) for p in range(o["n_pol"])), key=str)
        yield "with the weights of the split and the noise", all(np.array_equal(x[3], use) and x[4] == 4 for x in q)
        cube = ["hpx_even", "hpx_odd"] if cfg["split_ps_export"] else ["healpix_cube"]
        yield "a file per cube and polarization", sorted(files) == sorted(f"1234_{m}_{o['pol_names'][p]}.h5" for m in cube for p in range(o["n_pol"]))
        kind = "res_cube" if o["residual"] else "dirty_cube"
        for j, m in enumerate(cube):
            for p in range(o["n_pol"]):
                h = files[f"1234_{m}_{o['pol_names'][p]}.h5"]
                s = 100 * p + 1000 * j
                row = lambda v: np.asarray(v, float)[:, None] + np.arange(4) / 8
                fi = np.arange(nf)
                cnt = [sum(i + 1 + s for i in range(x * cfg["n_avg"], (x + 1) * cfg["n_avg"])) for x in range(nf)]
                yield "entries of the file", set(h) == {"obs", "hpx_inds", "n_avg", "beam_squared_cube", "weights_cube", "variance_cube", "model_cube", kind}
                yield "each cube holds its own planes", c.and_(*[c.all_same(h[q], row(fi + 10 * t + s)) for q, t in ((kind, 1), ("weights_cube", 2), ("variance_cube", 3), ("model_cube", 4))])
                yield "the beam cube is weighted with the number of visibilities", c.all_same(h["beam_squared_cube"], row((p * nf + fi + 1) * np.array(cnt)))
                yield "pixels", list(h["hpx_inds"]) == [0, 1, 2, 3] and h["n_avg"] == cfg["n_avg"]
