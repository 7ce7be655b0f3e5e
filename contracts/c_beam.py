"""Contracts on PyFHD/beam_setup (beam tables and beam images) and PyFHD/pyfhd_tools/unit_conv (coordinates)."""
import math, os, pathlib, shutil, tempfile
from pyvc.contract import contract, Contract, Skip
from contracts.c_calibration2 import rng_of
from contracts.c_gridding import call_lazy
from contracts.c_healpix import patched

BU = "PyFHD.beam_setup.beam_utils:"
UC = "PyFHD.pyfhd_tools.unit_conv:"


def lobes(p, n, npix=None, res=None):
    """the sum of the gaussians, row by row: each a product of a profile along the columns (x) and one along the rows (y)"""
    import numpy as np

    im = np.zeros((n, n))
    t = np.arange(n)
    for a, ox, sx, oy, sy in np.reshape(p, (-1, 5)):
        if npix is not None:
            ox, oy = ox + (n - npix) / 2, oy + (n - npix) / 2
        if res is not None:
            ox, oy = n / 2 + (ox - n / 2) * res, n / 2 + (oy - n / 2) * res
            sx, sy = sx * res, sy * res
        im += a * np.exp(-((t[:, None] - oy) ** 2) / (2 * sy**2) - (t[None, :] - ox) ** 2 / (2 * sx**2))
    return im


@contract
class gaussian_decomp(Contract):
    target = BU + "gaussian_decomp"
    prop = "B01"
    level = "bounded"
    why_bounded = "exponentials"
    bound = "planes up to 9 by 9, up to 4 lobes"
    n_quick = 300

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        n, k = int(g.integers(2, 10)), int(g.integers(1, 5))
        p = np.stack([g.normal(size=k), g.uniform(0, n, k), g.uniform(0.3, n, k), g.uniform(0, n, k), g.uniform(0.3, n, k)], axis=1).ravel()
        d = dict(x=np.arange(n), y=np.arange(n), p=p)
        if g.random() < 0.6:
            d["model_npix"] = float(g.uniform(1, 2.2 * n)) if g.random() < 0.9 else float(n)
        if g.random() < 0.6:
            d["model_res"] = float(g.uniform(0.2, 3))
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        O = old.__dict__
        e = lobes(old.p, old.x.size, O.get("model_npix"), O.get("model_res"))
        yield "sum of the gaussians with their own amplitudes, widths and centres on the requested grid", r[0].shape == e.shape and np.allclose(r[0], e, rtol=1e-9, atol=1e-12)


@contract
class beam_image(Contract):
    target = BU + "beam_image"
    prop = "B01"
    level = "bounded"
    why_bounded = "exponentials and Fourier transforms (library), data-dependent groups"
    bound = "planes of 4 to 14 pixels, up to 6 frequencies in 3 bins, 4 polarizations, 3 lobes"
    cases = (dict(gauss=True), dict(gauss=False))
    n_quick = 400

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        nf, npol, nbin, nb = int(g.integers(1, 7)), int(g.choice([1, 2, 4])), 3, int(g.integers(1, 4))
        d = 2 * int(g.integers(1, 3))
        n = 2 * int(g.integers(2, 8))
        if n < d + 2:
            raise Skip
        gid = np.zeros((npol, nbin, nb), dtype=int)
        if g.random() < 0.3:
            gid = np.tile(g.integers(0, 3, nb), (npol, nbin, 1))
        psf = dict(dim=d, id=gid, fnorm=g.uniform(0.5, 2, nbin), pix_horizon=float(g.uniform(0.4 * n, 1.5 * n)), resolution=1)
        psf["beam_ptr"] = g.normal(size=(npol, nbin, 2, 2, d * d)) + 1j * g.normal(size=(npol, nbin, 2, 2, d * d))
        if case["gauss"]:
            k = int(g.integers(1, 4))
            m = psf["pix_horizon"] * 1.3
            psf["beam_gaussian_params"] = np.stack([g.normal(size=(npol, nbin, k)), g.uniform(0, m, (npol, nbin, k)), g.uniform(0.3, n, (npol, nbin, k)), g.uniform(0, m, (npol, nbin, k)), g.uniform(0.3, n, (npol, nbin, k))], axis=-1).reshape(npol, nbin, 5 * k)
        use = (g.random(nf) < 0.7) * 1
        obs = dict(dimension=n, elements=n, kpix=float(g.uniform(0.3, 2)), baseline_info=dict(fbin_i=np.sort(g.integers(0, nbin, nf)) if g.random() < 0.7 else g.integers(0, nbin, nf), freq_use=use))
        a = dict(psf=psf, obs=obs, pol_i=int(g.integers(0, npol)), square=bool(g.random() < 0.6), lazy=bool(g.random() < 0.3))
        if g.random() < 0.4:
            a["freq_i"] = int(g.integers(0, nf))
        elif not use.any():
            raise Skip
        if not case["gauss"] and a["square"] and g.random() < 0.2:
            a["abs"] = True
        return a

    def call(self, f, a):
        return call_lazy(f, a)

    def ensures(self, c, a, old, r):
        import numpy as np

        psf, o, O = old.psf, old.obs, old.__dict__
        n, D = o["dimension"], psf["dim"]
        bi = o["baseline_info"]
        fs = [O["freq_i"]] if O.get("freq_i") is not None else list(np.nonzero(bi["freq_use"])[0])
        bins = [int(bi["fbin_i"][f]) for f in fs]
        scale = {}

        def uv(k):
            return psf["beam_ptr"][old.pol_i, k, 0, 0].reshape(D, D)

        def transform(K):
            """the image of a kernel whose centre is at the centre of the plane"""
            u = np.arange(D) - D / 2 + 1
            x = np.arange(n) - n / 2
            E = np.exp(2j * np.pi * np.outer(x, u) / n)
            return E @ K @ E.T

        norm = sum(psf["fnorm"][k] for k in bins)
        if "beam_gaussian_params" in psf:
            im = {k: lobes(psf["beam_gaussian_params"][old.pol_i, k], n, psf["pix_horizon"] * 1.3, n / psf["pix_horizon"]) for k in set(bins)}
            e = sum(im[k] ** (2 if old.square else 1) for k in bins) / norm
            ok = np.allclose(r, e, rtol=1e-9, atol=1e-9 * max(1, np.abs(e).max()))
        else:
            ab = np.abs if O.get("abs") else lambda z: z
            if old.square:
                e = sum(np.abs(transform(ab(uv(k)))) ** 2 for k in bins) / norm
            else:
                e = transform(sum(uv(k) for k in bins)).real / norm
            q = 4 if old.square else 2  # the inverse transform may carry its factor 1/N or not
            t = 1e-9 * np.abs(e).max()
            ok = np.allclose(r, e, rtol=1e-9, atol=t) or np.allclose(r * float(n) ** q, e, rtol=1e-9, atol=t)
        yield "shape and reality", c.and_(r.shape == (n, n), not np.iscomplexobj(r))
        yield "average over the used (or the one requested) frequencies of the (squared) beam of the frequency bin and polarization, over their normalization", ok
        yield "beam table and observation not modified", c.and_(*[c.unchanged(a.psf[k], psf[k]) for k in psf if hasattr(psf[k], "shape")], c.unchanged(a.obs["baseline_info"]["freq_use"], bi["freq_use"]))


@contract
class create_psf(Contract):
    target = "PyFHD.beam_setup.beam:create_psf"
    prop = "B01"
    level = "bounded"
    why_bounded = "HDF5 files"
    bound = "tables up to 2 by 3 by 3 by 3 by 16"
    cases = (dict(kind="h5"), dict(kind="sav"), dict(kind="fits"))
    n_quick = 60

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        npol, nfr, res, d = int(g.integers(1, 3)), int(g.integers(1, 4)), int(g.integers(1, 3)), int(2 * g.integers(1, 3))
        nb = int(g.integers(1, 4))
        psf = dict(dim=d, resolution=res, fnorm=g.uniform(0.5, 2, nfr), pix_horizon=float(g.uniform(10, 500)), id=g.integers(0, 2, (npol, nfr, nb)), freq=g.uniform(1e8, 2e8, nfr))
        psf["beam_ptr"] = g.normal(size=(npol, nfr, res + 1, res + 1, d * d)) + 1j * g.normal(size=(npol, nfr, res + 1, res + 1, d * d))
        psf["beam_gaussian_params"] = g.normal(size=(npol, nfr, 10))
        return dict(kind=case["kind"], psf=psf, nb=nb, ext=str(b.choice("ext", [".h5", ".hdf5"])), lazy=bool(g.random() < 0.5), logger=b.logger())

    def records(self, a):
        """the table as read from an IDL save file: one structure, with the axes of its arrays in the reversed order"""
        import numpy as np

        ps = a.psf
        npol, nfr, r1 = ps["beam_ptr"].shape[:3]
        ptr = np.empty((a.nb, nfr, npol), dtype=object)
        for b in range(a.nb):
            for f in range(nfr):
                for p in range(npol):
                    k = np.empty((r1, r1), dtype=object)
                    for i in range(r1):
                        for j in range(r1):
                            k[i, j] = ps["beam_ptr"][p, f, i, j] * (1 if b == 0 else 7 * b)
                    ptr[b, f, p] = k
        rec = np.empty(1, dtype=[(n, object) for n in ("beam_ptr", "id", "fnorm", "freq", "beam_gaussian_params")] + [("dim", ">i2"), ("resolution", ">i2"), ("pix_horizon", ">f8")]).view(np.recarray)
        rec["beam_ptr"][0], rec["id"][0] = ptr, ps["id"].T.copy()
        for n in ("fnorm", "freq", "beam_gaussian_params"):
            rec[n][0] = ps[n].copy()
        rec["dim"], rec["resolution"], rec["pix_horizon"] = ps["dim"], ps["resolution"], ps["pix_horizon"]
        return rec

    def call(self, f, a):
        import h5py
        from PyFHD.io.pyfhd_io import save, load

        d = tempfile.mkdtemp()
        try:
            if a.kind == "sav":
                path = pathlib.Path(d, "beam.sav")
                with patched("PyFHD.beam_setup.beam", readsav=lambda *x, **k: {"psf": self.records(a)}):
                    r = f(dict(beam_file_path=path, lazy_load_beam=False), a.logger)
                return False, r, load(pathlib.Path(d, "beam.h5"), logger=a.logger)
            if a.kind == "fits":
                return f(dict(beam_file_path=pathlib.Path(d, "beam.fits"), lazy_load_beam=a.lazy), a.logger)
            path = pathlib.Path(d, "beam" + a.ext)
            save(path, a.psf, "psf", logger=a.logger, to_chunk=dict(beam_ptr=dict(shape=a.psf["beam_ptr"].shape, chunk=tuple([1, 1] + list(a.psf["beam_ptr"].shape)[2:]))))
            r = f(dict(beam_file_path=path, lazy_load_beam=a.lazy), a.logger)
            lazy = isinstance(r, h5py.File)
            if lazy:
                g = {k: v[...] for k, v in r.items()}
                r.close()
                r = g
            return lazy, r, r
        finally:
            shutil.rmtree(d)

    def may_raise(self, c, old, e):
        return old.kind == "fits" and isinstance(e, SystemExit) and e.code not in (0, None)

    def raises_required(self, c, old):
        return old.kind == "fits"

    def ensures(self, c, a, old, r):
        import numpy as np

        if old.kind == "fits":
            return
        lazy, got, again = r
        if old.kind == "h5":
            yield "lazily read exactly if requested", lazy == old.lazy
        for t in (got, again):
            for k, v in old.psf.items():
                if old.kind == "sav" and k == "id":
                    v = old.psf["id"]
                yield f"the table holds the {k} of the file", k in t and c.and_(np.asarray(t[k]).size == np.asarray(v).size, np.shape(v) == () or np.shape(t[k]) == np.shape(v), np.array_equal(np.ravel(t[k]), np.ravel(v)))


# ------------------------------------------------------------------ coordinates (U08)


def astr_of(g):
    import numpy as np

    nx, ny = g.integers(2, 400, 2)
    deg = float(g.choice([0.02, 0.1, 0.3])) * float(g.uniform(0.5, 2))
    ra, dec = float(g.choice([0, g.uniform(0, 360), 359.9])), float(g.choice([g.uniform(-89, 89), -26.7, 0]))
    xi, eta = (0.0, 0.0) if g.random() < 0.3 else np.clip(g.normal(size=2) * 0.3, -0.5, 0.5)
    return dict(cdelt=np.array([deg, deg * float(g.choice([1, 0.7]))]), ctype=np.array(["RA---SIN", "DEC--SIN"]), crpix=np.array([nx / 2 + 1, ny / 2 + float(g.choice([1, 1, 3.25]))]), crval=np.array([ra, dec]), equinox=2000.0, mjdobs=56500.0, dateobs="2013-07-26T00:00:00", radecsys="ICRS", pv1=np.array([0, 0, 90, 180, 0.0]), pv2=np.array([xi, eta]))


def sky_near(g, ra0, dec0, n):
    """positions within 50 degrees of a centre"""
    import numpy as np

    t, p = np.radians(g.uniform(0, 50, n)), g.uniform(0, 2 * np.pi, n)
    d0 = math.radians(dec0)
    sd = np.sin(d0) * np.cos(t) + np.cos(d0) * np.sin(t) * np.cos(p)
    dec = np.arcsin(np.clip(sd, -1, 1))
    ra = math.radians(ra0) + np.arctan2(np.sin(t) * np.sin(p), np.cos(t) * np.cos(d0) - np.sin(t) * np.sin(d0) * np.cos(p))
    return np.degrees(ra) % 360, np.degrees(dec)


def slant_sine(ra, dec, w):
    """slant orthographic projection (Calabretta and Greisen 2002, eqs. 61 and 62)"""
    import numpy as np

    ra, dec, (ra0, dec0) = np.radians(ra), np.radians(dec), np.radians(w["crval"])
    l = np.cos(dec) * np.sin(ra - ra0)
    m = np.sin(dec) * np.cos(dec0) - np.cos(dec) * np.sin(dec0) * np.cos(ra - ra0)
    n = np.sin(dec) * np.sin(dec0) + np.cos(dec) * np.cos(dec0) * np.cos(ra - ra0)
    xi, eta = w["pv2"]
    k = 180 / np.pi
    return k * (l + xi * (1 - n)) / w["cdelt"][0] + w["crpix"][0] - 1, k * (m + eta * (1 - n)) / w["cdelt"][1] + w["crpix"][1] - 1


class pixels(Contract):
    prop = "U08"
    level = "bounded"
    why_bounded = "astropy projections"
    bound = "up to 6 positions at a time, within 50 degrees of the centre, slants up to 0.5"
    n_quick = 120

    def inputs(self, b, case):
        g = rng_of(b)
        w = astr_of(g)
        ra, dec = sky_near(g, *w["crval"], int(g.integers(1, 7)))
        if g.random() < 0.3:
            ra, dec = float(ra[0]), float(dec[0])
        return dict(ra=ra, dec=dec, astr=w)

    def same_astr(self, c, a, old):
        import numpy as np

        return c.and_(*[np.array_equal(a.astr[k], old.astr[k]) for k in old.astr])


@contract
class radec_to_pixel(pixels):
    target = UC + "radec_to_pixel"

    def ensures(self, c, a, old, r):
        import numpy as np

        e = slant_sine(old.ra, old.dec, old.astr)
        yield "pixel of the slant orthographic projection", c.and_(*[np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=0, atol=1e-6) for p, q in zip(r, e)])
        yield "inputs not modified", self.same_astr(c, a, old)


@contract
class pixel_to_radec(pixels):
    target = UC + "pixel_to_radec"

    def call(self, f, a):
        return f(*slant_sine(a.ra, a.dec, a.astr), a.astr)

    def ensures(self, c, a, old, r):
        import numpy as np

        ra, dec = (np.asarray(getattr(x, "deg", x), dtype=float) for x in r)
        yield "the position whose slant orthographic projection the pixel is", c.and_(np.shape(ra) == np.shape(old.ra), np.allclose((ra - old.ra + 180) % 360 - 180, 0, atol=1e-6 / max(0.01, math.cos(math.radians(np.abs(old.dec).max())))), np.allclose(dec, old.dec, atol=1e-6))
        yield "inputs not modified", self.same_astr(c, a, old)


def apart(lon1, lat1, lon2, lat2):
    lon1, lat1, lon2, lat2 = map(math.radians, (lon1, lat1, lon2, lat2))
    h = math.sin((lat1 - lat2) / 2) ** 2 + math.cos(lat1) * math.cos(lat2) * math.sin((lon1 - lon2) / 2) ** 2
    return math.degrees(2 * math.asin(min(1, math.sqrt(h))))


class horizon(Contract):
    prop = "U08"
    level = "bounded"
    why_bounded = "astropy transformations"
    bound = "single positions, dates from 2006 to 2022"
    n_quick = 100

    def inputs(self, b, case):
        g = rng_of(b)
        d = dict(lat=float(g.uniform(-80, 80)), lon=float(g.uniform(-180, 180)), height=float(g.choice([0, 377.8, 5000])))
        t = float(g.uniform(2453800, 2459800))
        d["time"] = t
        if g.random() < 0.3:
            d.update(time=t - 2400000.5, time_format="mjd")
        elif g.random() < 0.3:
            d["time_format"] = "jd"
        lon, lat = float(g.uniform(0, 360)), math.degrees(math.asin(g.uniform(-1, 1)))
        return dict(d, **{self.names[0]: lon, self.names[1]: lat})

    @staticmethod
    def jd(o):
        return o.time + (2400000.5 if getattr(o, "time_format", "jd") == "mjd" else 0)


@contract
class radec_to_altaz(horizon):
    target = UC + "radec_to_altaz"
    names = ("ra", "dec")

    def ensures(self, c, a, old, r):
        import erfa

        rad = math.radians
        # UT1-UTC and polar motion are left out: at most one second of time
        az, zd = erfa.atco13(rad(old.ra), rad(old.dec), 0, 0, 0, 0, self.jd(old), 0.0, 0.0, rad(old.lon), rad(old.lat), old.height, 0, 0, 0, 0, 0, 0.5)[:2]
        yield "altitude and azimuth of the position as seen from the place at the time", apart(float(r[1]), float(r[0]), math.degrees(az), 90 - math.degrees(zd)) < 0.01


@contract
class altaz_to_radec(horizon):
    target = UC + "altaz_to_radec"
    names = ("az", "alt")

    def ensures(self, c, a, old, r):
        import erfa

        rad = math.radians
        ra, dec = erfa.atoc13("A", rad(old.az), rad(90 - old.alt), self.jd(old), 0.0, 0.0, rad(old.lon), rad(old.lat), old.height, 0, 0, 0, 0, 0, 0.5)
        yield "position seen at the altitude and azimuth from the place at the time", apart(float(r[0]), float(r[1]), math.degrees(ra), math.degrees(dec)) < 0.01
