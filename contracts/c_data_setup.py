"""Contracts on PyFHD/data_setup: reading uvfits files, array layout, observation structure."""
import math
import shutil
import tempfile
from pyvc.contract import contract, Contract, Skip, NSp
from contracts.c_calibration2 import rng_of

UV = "PyFHD.data_setup.uvfits:"
OB = "PyFHD.data_setup.obs:"
JD = 2456528


class Site:
    """stand-in for astropy's site table, which needs the network"""

    lon = NSp(dict(deg=116.67, value=116.67))
    lat = NSp(dict(deg=-26.7, value=-26.7))
    height = NSp(dict(value=377.8))


def of_site(name):
    import astropy

    if name.lower() != "mwa":
        raise astropy.coordinates.errors.UnknownSiteException(name, "the name of a site", [])
    return Site


def with_stub(fn):
    from astropy.coordinates import EarthLocation

    keep = EarthLocation.__dict__["of_site"]
    EarthLocation.of_site = staticmethod(of_site)
    try:
        return fn()
    finally:
        EarthLocation.of_site = keep


@contract
class read_uvfits(Contract):
    target = UV + "extract_header"
    prop = "D01"
    level = "bounded"
    why_bounded = "file format and its parsing are library code (astropy); files are written and read back"
    bound = "random group files with up to 4 times, 6 baselines, 4 frequencies, 4 polarizations, all orders of group parameters"
    n_quick = 250

    def inputs(self, b, case):
        return dict(seed=b.int("seed", 0, 10**6, size=10**6), logger=b.logger())

    def file(self, seed):
        """what the file holds"""
        import numpy as np

        g = np.random.default_rng(seed)
        nt, nbl, nf, npol = g.integers(1, 5), g.integers(1, 7), g.integers(1, 5), g.choice([1, 2, 4])
        top = g.choice([5, 128, 255, 300])
        lo = g.choice([1, 1, 2, 3])
        first, second = (np.tile(g.integers(lo, top + 1, nbl), nt) for _ in range(2))
        first, second = np.minimum(first, second), np.maximum(first, second)
        n = nt * nbl
        F = dict(g=g, nf=nf, npol=npol, n=n, first=first, second=second, data=g.normal(size=(n, nf, npol, 3)).astype("f4"))
        F["uvw"] = (g.normal(size=(3, n)) * 1e-6).astype("f4")
        F["time"] = np.repeat(np.arange(nt) * 2.0**-12, nbl)
        F["dates"] = g.choice([1, 2])
        F["how"] = g.choice(["baseline", "baseline", "antennas", "antennas", "first antenna"])
        F["ref"], F["res"], F["pix"] = float(g.uniform(1e8, 2e8)), float(g.choice([8e4, 4e4])), float(g.integers(1, nf + 1)) + float(g.choice([0, 0, 0.5]))
        F["drop"] = g.choice(["", "", "", "", "", "", "UU", "VV", "WW", "DATE", "BASELINE"])
        F["lonlat"] = bool(g.random() < 0.5)
        F["instrument"] = g.choice(["mwa", "mwa", "elsewhere"])
        F["obskey"] = bool(g.random() < 0.5)
        F["config_pol"] = int(g.choice([0, *[p for p in (1, 2, 4) if p <= npol]]))
        F["axes"] = 2 if g.random() < 0.8 else 3
        F["model"] = bool(g.random() < 0.3)
        F["spectral"] = bool(g.random() < 0.1)
        if F["spectral"]:  # several spectral windows are not supported
            F["data"] = np.repeat(F["data"][:, None], 2, axis=1)
        return F

    def write(self, F, path):
        import numpy as np
        from astropy.io import fits

        g = F["g"]
        par = [("UU", F["uvw"][0], 0), ("VV", F["uvw"][1], 0), ("WW", F["uvw"][2], 0), ("DATE", F["time"], JD + 0.5)]
        if F["dates"] == 2:
            par.append(("DATE", F["time"] / 4, 0))
        big = F["second"].max() > 255
        if F["how"] != "antennas":
            par.append(("BASELINE", F["first"] * (2048 if big else 256) + F["second"] + (65536 if big else 0), 0))
        if F["how"] != "baseline":
            par += [("ANTENNA1", F["first"], 0), ("ANTENNA2", F["second"], 0)][: 2 if F["how"] == "antennas" else 1]
        date = [x for x in par if x[0] == "DATE"]
        par = [x for x in par if x[0] != F["drop"]]
        par = [par[i] for i in g.permutation(len(par))]
        if F["dates"] == 2 and F["drop"] != "DATE":  # the one with the day comes first
            k = [i for i, x in enumerate(par) if x[0] == "DATE"]
            par[k[0]], par[k[1]] = date
        h = fits.Header()
        h["SIMPLE"], h["BITPIX"] = True, -32
        ax = [0, 3, F["npol"], F["nf"]] + [1 + F["spectral"]] + [1] * (F["axes"] - 1)
        h["NAXIS"] = len(ax)
        for i, m in enumerate(ax):
            h[f"NAXIS{i + 1}"] = int(m)
        h["EXTEND"], h["GROUPS"], h["PCOUNT"], h["GCOUNT"] = True, True, len(par), int(F["n"])
        for i, x in enumerate(par):
            h[f"PTYPE{i + 1}"], h[f"PSCAL{i + 1}"], h[f"PZERO{i + 1}"] = x[0], 1.0, float(x[2])
        for k, v in dict(CTYPE2="COMPLEX", CTYPE3="STOKES", CRVAL3=-5, CDELT3=-1, CRPIX3=1, CTYPE4="FREQ", CRVAL4=F["ref"], CDELT4=F["res"], CRPIX4=F["pix"]).items():
            h[k] = v
        h["DATE-OBS" if g.random() < 0.5 else "DATEOBS"] = "2013-08-23T00:00:00"
        h["OBSRA" if F["obskey"] else "RA"] = 60.0
        h["OBSDEC" if F["obskey"] else "DEC"] = -27.0
        if F["lonlat"]:
            h["LON"], h["LAT"], h["ALT"] = 10.0, 20.0, 30.0
        ant = fits.BinTableHDU.from_columns([fits.Column(name="NOSTA", format="1J", array=np.arange(1, 4))])
        raw = np.concatenate([np.stack([np.asarray(x[1], "f8") for x in par], 1), F["data"].reshape(F["n"], -1)], 1).astype(">f4").tobytes()
        tmp = path + ".ant"
        fits.HDUList([fits.PrimaryHDU(), ant]).writeto(tmp)
        with open(path, "wb") as out, open(tmp, "rb") as extra:
            out.write(h.tostring().encode() + raw + b"\0" * (-len(raw) % 2880) + extra.read()[2880:])

    def call(self, f, a):
        import os

        F = self.file(a.seed)
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "1234.uvfits")
            self.write(F, p)
            cfg = dict(instrument=F["instrument"], n_pol=F["config_pol"])
            if F["model"]:
                cfg["model_file_path"] = p
            else:
                cfg.update(input_path=d, obs_id="1234")

            def go():
                from PyFHD.data_setup.uvfits import create_params, extract_visibilities

                h, pd, ah, ad = f(cfg, a.logger, model_uvfits=True) if F["model"] else f(cfg, a.logger)
                return h, create_params(h, pd, a.logger), extract_visibilities(h, pd, cfg, a.logger)

            return with_stub(go)
        finally:
            shutil.rmtree(d)

    def missing(self, F):
        return F["drop"] not in ("", "BASELINE") or F["drop"] == "BASELINE" and F["how"] != "antennas"

    def raises_required(self, c, old):
        F = self.file(old.seed)
        return self.missing(F) or F["spectral"]

    def may_raise(self, c, a, exc):
        F = self.file(a.seed)
        return isinstance(exc, KeyError) if self.missing(F) else F["spectral"] and isinstance(exc, SystemExit)

    def ensures(self, c, a, old, r):
        import numpy as np

        F = self.file(old.seed)
        h, p, (vis, w) = r
        npol = F["config_pol"] or F["npol"]
        yield "sizes of the observation", (h["n_freq"], h["n_pol"], h["n_baselines"]) == (F["nf"], F["npol"], F["n"])
        yield "frequencies from reference value, pixel and resolution", c.all_same(h["frequency_array"], [F["ref"] + (i + 1 - F["pix"]) * F["res"] for i in range(F["nf"])])
        yield "pointing", (h["obsra"], h["obsdec"]) == (60, -27)
        yield "location of the array from the file, else of the instrument", (h["lon"], h["lat"], h["alt"]) == ((10, 20, 30) if F["lonlat"] else (116.67, -26.7, 377.8))
        yield "baseline coordinates unchanged and in double precision", c.and_(*[c.and_(p[k].dtype == np.float64, np.array_equal(p[k], F["uvw"][i].astype(float))) for i, k in enumerate(("uu", "vv", "ww"))])
        yield "antennas of each baseline", c.and_(list(p["antenna1"]) == list(F["first"]), list(p["antenna2"]) == list(F["second"]))
        t = F["time"] * (1.25 if F["dates"] == 2 else 1)
        yield "Julian date of each sample", bool(np.allclose(np.asarray(p["time"], float) - JD, t + 0.5, rtol=0, atol=1e-6))
        yield "start of the observation", abs(h["jd0"] - JD - 0.5) < 1e-6
        d = F["data"].astype(float)[:, :, :npol]
        yield "every visibility at its own polarization, frequency and sample", c.and_(vis.dtype == np.complex128, c.all_same(vis, (d[..., 0] + 1j * d[..., 1]).transpose(2, 1, 0)))
        yield "every weight at its own polarization, frequency and sample", c.and_(w.dtype == np.float64, c.all_same(w, d[..., 2].transpose(2, 1, 0)))


LAYOUT = dict(  # entry: (table column or header key, default)
    gst0=("GSTIA0", -1), earth_degpd=("DEGPDY", 360.985), refdate=("RDATE", -1), time_system=("TIMESYS", "UTC"), dut1=("UT1UTC", 0), diff_utc=("DATUTC", 0), nleap_sec=("IAUTC", None), pol_type=("POLTYPE", "X-Y LIN"), n_pol_cal_params=("NOPCAL", 0), coordinate_frame=("FRAME", "IRTF"),
)
COLUMNS = dict(antenna_names=("ANNAME", None), antenna_numbers=("NOSTA", None), antenna_coords=("STABXYZ", None), mount_type=("MNTSTA", 0), axis_offset=("STAXOF", 0), pola=("POLTYA", "X"), pola_orientation=("POLAA", 0), polb=("POLTYB", "Y"), polb_orientation=("POLAB", 90), pola_cal_params=("POLCALA", None), polb_cal_params=("POLCALB", None), diameters=("DIAMETER", None), beam_fwhm=("BEAMFWHM", None))


@contract
class create_layout(Contract):
    target = UV + "create_layout"
    prop = "D02"
    level = "bounded"
    why_bounded = "tables and headers are library objects (astropy)"
    bound = "antenna tables with up to 6 antennas and all subsets of columns and header keywords"
    n_quick = 200

    def inputs(self, b, case):
        return dict(seed=b.int("seed", 0, 10**6, size=10**6), logger=b.logger())

    def table(self, seed):
        import numpy as np

        g = np.random.default_rng(seed)
        n = int(g.integers(1, 7))
        full = g.choice([0.2, 0.6, 1.0])
        there = lambda: g.random() < full
        H = dict(GSTIA0=float(g.uniform(0, 360)), DEGPDY=360.9, RDATE="2013-08-23", TIMESYS=g.choice(["UTC", "IAT"]) + "  ", UT1UTC=0.25, DATUTC=3, IAUTC=35, POLTYPE="X-Y LIN", NOPCAL=int(g.integers(0, 4)), FRAME="ITRF")
        H = {k: v for k, v in H.items() if there()}
        for k in "XYZ":
            H["ARRAY" + k] = float(g.normal() * 1e6)
        if not there():
            del H["ARRAYX"]
        same = lambda k: np.full(n, g.integers(0, 5)) if g.random() < 0.5 else g.integers(0, 5, n)
        nc = max(H.get("NOPCAL", 0), 1)
        C = dict(ANNAME=np.array([f"Tile{i:03d}" for i in range(n)]), NOSTA=g.permutation(200)[:n] + 1, STABXYZ=g.normal(size=(n, 3)), MNTSTA=same(0), STAXOF=same(0) * 1.0, POLTYA=np.array(["X"] * n), POLAA=same(0) * 1.0, POLTYB=np.array(["Y"] * n), POLAB=same(0) * 1.0, POLCALA=g.normal(size=(n, nc) if nc > 1 else n), POLCALB=g.normal(size=(n, nc) if nc > 1 else n), DIAMETER=g.normal(size=n), BEAMFWHM=g.normal(size=n))
        C = {k: v for k, v in C.items() if there()}
        return n, H, C

    def call(self, f, a):
        import numpy as np
        from astropy.io import fits
        from PyFHD.io.pyfhd_io import load

        n, H, C = self.table(a.seed)
        fmt = {"U": "8A", "i": "J", "f": "D"}
        cols = [fits.Column(name=k, format=(str(v.shape[1]) if v.ndim > 1 else "") + fmt[v.dtype.kind], array=v) for k, v in C.items()]
        cols.append(fits.Column(name="UNUSED", format="J", array=np.zeros(n, int)))
        t = fits.BinTableHDU.from_columns(cols)
        for k, v in H.items():
            t.header[k] = v
        d = tempfile.mkdtemp()
        try:
            r = f(t.header, t.data, dict(output_dir=d), a.logger)
            import os

            return r, load(os.path.join(d, "layout.h5"), a.logger)
        finally:
            shutil.rmtree(d)

    def ensures(self, c, a, old, r):
        import numpy as np

        n, H, C = self.table(old.seed)
        r, saved = r
        yield "number of antennas", r["n_antenna"] == n
        for k, (h, d) in LAYOUT.items():
            want = H[h] if h in H else d
            want = want.strip() if k == "time_system" else want
            if k == "nleap_sec" and h not in H:
                want = r["diff_utc"] if r["time_system"] == "IAT" else -1
            yield f"{k} from the header, else its default", r[k] == want
        yield "array centre from the header, else the one of the MWA", [float(x) for x in r["array_center"]] == ([H["ARRAYX"], H["ARRAYY"], H["ARRAYZ"]] if "ARRAYX" in H else [-2559454.07880307, 5095372.14368305, -2849057.18534633])
        for k, (h, d) in COLUMNS.items():
            if h in C:
                v = C[h]
                if k in ("mount_type", "axis_offset", "pola_orientation", "polb_orientation") and v.min() == v.max():
                    v = v[0]
                got = np.asarray(r[k])
                yield f"{k} of every antenna in table order", got.shape == np.asarray(v).shape and bool(np.all(got == v)) if got.dtype.kind != "f" else bool(np.array_equal(got, v))
            elif k in ("diameters", "beam_fwhm"):
                yield f"no {k} without its column", k not in r
            else:
                z = r["n_pol_cal_params"]
                v = dict(antenna_names=np.arange(n).astype(str), antenna_numbers=np.arange(1, n + 1), antenna_coords=np.zeros((n, 3)), pola_cal_params=np.zeros(z) if z > 1 else 0, polb_cal_params=np.zeros(z) if z > 1 else 0).get(k, d)
                yield f"default {k}", np.shape(r[k]) == np.shape(v) and bool(np.all(np.asarray(r[k]) == v))
        yield "the layout is saved", set(saved) == set(r) and bool(np.all(saved["antenna_numbers"] == r["antenna_numbers"]))


# ------------------------------------------------------------------------------ observation structure
def sidereal(jd):
    return (280.46061837 + 360.98564736629 * (jd - 2451545.0) + 116.67) % 360


def observation(seed, metafits):
    """header, params, layout and configuration of a small observation, and the metafits table or None"""
    import numpy as np

    g = np.random.default_rng(seed)
    n = int(g.integers(2, 8))
    numbers = [np.arange(1, n + 1), g.permutation(n) + 1, np.sort(g.permutation(20)[:n] + 1), g.permutation(20)[:n] + 1][g.integers(0, 4)]
    pairs = [(i, j) for i in range(n) for j in range(i, n) if i != j or g.random() < 0.5]
    pairs = [pairs[i] for i in g.permutation(len(pairs))[: max(1, int(len(pairs) * g.choice([0.5, 1.0])))]]
    nt, nf = int(g.choice([1, 1, 2, 3, 5])), int(g.integers(1, 7))
    ia, ib = np.tile([p[0] for p in pairs], nt), np.tile([p[1] for p in pairs], nt)
    nb = len(ia)
    integ = float(g.choice([2.0, 8.0]))
    res = 8e4
    freq = 1.8e8 + np.arange(nf) * res
    sc = float(g.choice([10.0, 100.0, 300.0])) / 3e8
    start = JD + 0.6
    if g.random() < 0.5:  # any sidereal time; often close to zero, where right ascensions wrap around
        start += (g.choice([g.uniform(-30, 30), g.uniform(0, 360)]) - sidereal(start)) % 360 / 361 - 0.5
    near = lambda: round(float((sidereal(start) + g.uniform(-40, 40)) % 360) if g.random() < 0.7 else float(g.choice([0.0, g.uniform(0, 360)])), 9)  # as many digits as a header keeps
    header = dict(n_tile=n, n_freq=nf, n_pol=int(g.choice([2, 4])), freq_res=res, frequency_array=freq, lat=-26.7, lon=116.67, alt=377.8, obsra=near(), obsdec=round(float(g.uniform(-80, 20)), 9))
    dt = [np.float64, np.float32, np.int64][g.integers(0, 3)]
    params = dict(uu=g.normal(size=nb) * sc, vv=g.normal(size=nb) * sc, ww=np.zeros(nb), time=np.repeat(start + np.arange(nt) * integ / 86400, len(pairs)), antenna1=numbers[ia].astype(dt), antenna2=numbers[ib].astype(dt))
    auto = ia == ib
    params["uu"][auto] = params["vv"][auto] = 0
    if auto.all():
        raise Skip
    layout = dict(antenna_numbers=numbers)
    if max(params["antenna1"].max(), params["antenna2"].max()) > 0 and min(params["antenna1"].max(), params["antenna2"].max()) == 0:
        raise Skip  # every baseline is with antenna number 0
    n_tile = n
    if seed % 8 == 7 and (0, 1) in pairs or max(params["antenna1"].max(), params["antenna2"].max()) == 0:
        # a file that gives baseline numbers only
        numbers = np.arange(1, n + 1)
        layout = dict(antenna_numbers=numbers)
        if ia.min() or ib[ia == 0].min() > 1:
            raise Skip
        params.update(baseline_arr=256.0 * (ia + 1) + ib + 1, antenna1=np.zeros(nb, dt), antenna2=np.zeros(nb, dt))
        n_tile = int(max(ia.max(), ib.max()) + 1)
        if metafits and n_tile != n:
            raise Skip
    opt = lambda *v: [None, *v][g.integers(0, len(v) + 1)]
    cfg = dict(n_pol=int(g.choice([0, 2])), instrument="mwa", obs_id="1234", beam_nfreq_avg=opt(1, 2, 3), FoV=opt(float(g.uniform(10, 120))), kbinsize=opt(0.5, 1.0), dimension=opt(32, 64, 48), elements=opt(32, 64, 48), min_baseline=opt(0, 1.0, 3.0), time_cut=opt(integ, -integ, [integ, -integ], [0.3 * integ], [2.4 * integ], [1.02 * integ], [0, -integ], 0, -1e4), dft_threshold=bool(g.random() < 0.5), healpix_inds=None, run_simulation=False, override_target_phasera=opt(12.0), override_target_phasedec=opt(-11.0))
    if cfg["dimension"] is None and cfg["elements"] is None and np.max(np.abs(np.outer(freq, np.stack([params["uu"], params["vv"]])))) < 2:
        raise Skip
    size = cfg["dimension"] or cfg["elements"]
    kp = math.degrees(1) / cfg["FoV"] if cfg["FoV"] else cfg["kbinsize"] or 0.5
    kx, ky = (np.abs(np.outer(freq, params[k])) for k in ("uu", "vv"))
    nx, ny = (cfg["dimension"] or size, cfg["elements"] or size) if size else [max(kx.max(), ky.max()) / kp] * 2
    if not np.any((kx < kp * nx / 2) & (ky < kp * ny / 2)):  # no baseline fits the plane
        raise Skip
    meta = None
    if metafits:
        ants = np.repeat(np.arange(n), 2)
        k = g.permutation(2 * n)
        flag = (g.random(n) < 0.3).astype(int)
        if flag.sum() >= n - 1:
            flag[:] = 0
        meta = dict(order=k, antenna=ants, pol=np.tile(["X", "Y"], n), tile=np.repeat(g.permutation(50)[:n] + 11, 2), height=np.repeat(g.normal(size=n) + 377, 2), flag=np.repeat(flag, 2), hdr=dict(RA=float(g.uniform(0, 360)), DEC=round(float(g.uniform(-80, 20)), 9), RAPHASE=near(), DECPHASE=round(float(g.uniform(-80, 20)), 9), INTTIME=integ, DELAYS="0,1,2", GRIDNAME="sweet"))
    return NSp(dict(n=n_tile, ia=ia, ib=ib, nt=nt, nf=nf, nbl=len(pairs), header=header, params=params, layout=layout, cfg=cfg, meta=meta, integ=integ, freq=freq))


def write_metafits(m, path):
    import numpy as np
    from astropy.io import fits

    k = m["order"]
    cols = [fits.Column(name=nm, format=f, array=np.asarray(v)[k]) for nm, f, v in (("Input", "J", np.arange(len(k))), ("Antenna", "J", m["antenna"]), ("Tile", "J", m["tile"]), ("Pol", "A", m["pol"]), ("Height", "D", m["height"]), ("Flag", "J", m["flag"]))]
    p = fits.PrimaryHDU()
    for a, v in m["hdr"].items():
        p.header[a] = v
    p.header["COMMENT"] = "made for a check"
    fits.HDUList([p, fits.BinTableHDU.from_columns(cols)]).writeto(path)


class Observation(Contract):
    target = OB + "create_obs"
    level = "bounded"
    why_bounded = "histogram, dictionaries of optional settings and library objects (astropy)"
    bound = "up to 7 antennas, 5 times, 6 frequencies, all combinations of settings, with and without metafits file"
    cases = (dict(meta=False), dict(meta=True))
    n_quick = 160

    def inputs(self, b, case):
        s = b.int("seed", 0, 10**6, size=10**6)
        observation(s, case["meta"])
        return dict(seed=s, meta=case["meta"], logger=b.logger())

    def call(self, f, a):
        import copy
        import os

        o = observation(a.seed, a.meta)
        d = tempfile.mkdtemp()
        try:
            if o.meta:
                write_metafits(o.meta, os.path.join(d, "1234.metafits"))
            p = copy.deepcopy(o.params)
            return f(o.header, p, o.layout, dict(o.cfg, input_path=d), a.logger), p
        finally:
            shutil.rmtree(d)


@contract
class create_obs_tiles(Observation):
    prop = "D02"

    def ensures(self, c, a, old, r):
        import numpy as np

        o = observation(old.seed, old.meta)
        obs, p = r
        bi = obs["baseline_info"]
        ta, tb = o.ia + 1, o.ib + 1
        yield "tile numbers are positions in the antenna table, counted from one", c.and_(list(bi["tile_a"]) == list(ta), list(bi["tile_b"]) == list(tb), list(p["antenna1"]) == list(ta), list(p["antenna2"]) == list(tb), all(x.dtype.kind == "i" for x in (bi["tile_a"], bi["tile_b"])))
        yield "numbers of times and baselines", (obs["n_time"], obs["n_baselines"], obs["n_vis"]) == (o.nt, o.nbl, o.nt * o.nbl * o.nf)
        yield "offset of each time step", list(bi["bin_offset"]) == [i * o.nbl for i in range(o.nt)]
        yield "numbers of tiles, frequencies and polarizations", (obs["n_tile"], obs["n_freq"], obs["n_pol"]) == (o.n, o.nf, o.cfg["n_pol"] or o.header["n_pol"])
        yield "times of the observation", c.all_same(bi["jdate"], o.params["time"][:: o.nbl])
        cut = o.cfg["time_cut"]
        use = [1] * o.nt
        res = o.integ if o.meta or o.nt > 1 else 1
        for t in [] if cut is None else np.atleast_1d(cut):
            k = abs(t) / res
            if abs(k - round(k)) < 1e-3 and not o.meta:  # rounding of the Julian date decides
                raise Skip
            k = min(math.ceil(k - 1e-9), o.nt)
            for i in range(k):
                use[i if t > 0 else o.nt - 1 - i] = 0
        yield "requested times at the start and the end are cut, rounded up to whole steps", c.and_(list(bi["time_use"]) == use, obs["n_time_flag"] == o.nt - sum(use))
        flag = list(o.meta["flag"][::2]) if o.meta else [int(i not in o.ia and i not in o.ib) for i in range(o.n)]
        yield "tiles flagged in the metadata, or without any baseline, are not used", c.and_([int(x) for x in bi["tile_use"]] == [1 - x for x in flag], obs["n_tile_flag"] == sum(flag), [int(x) for x in bi["tile_flag"]] == flag)


@contract
class create_obs_plane(Observation):
    prop = "D03"

    def ensures(self, c, a, old, r):
        import numpy as np

        o = observation(old.seed, old.meta)
        obs, _ = r
        cfg, bi = o.cfg, obs["baseline_info"]
        kp = math.degrees(1) / cfg["FoV"] if cfg["FoV"] else 0.5 if cfg["kbinsize"] is None else cfg["kbinsize"]
        yield "uv pixel size from the field of view, else as configured", c.same(obs["kpix"], kp)
        kx, ky = np.outer(o.freq, o.params["uu"]), np.outer(o.freq, o.params["vv"])
        nx, ny = obs["dimension"], obs["elements"]
        if cfg["dimension"] is None and cfg["elements"] is None:
            top = max(np.abs(kx).max(), np.abs(ky).max()) * 2 / kp
            yield "plane is a square whose size is the largest power of two within twice the longest baseline", nx == ny and nx & (nx - 1) == 0 and top / 2 < nx * 1.0001 and nx <= top * 1.0001
        else:
            yield "plane has the configured size", (nx, ny) == (cfg["dimension"] or cfg["elements"], cfg["elements"] or cfg["dimension"])
        yield "angular size of a pixel", c.same(obs["degpix"], math.degrees(1) / (kp * nx))
        kr = np.hypot(kx, ky)
        inside = (np.abs(kx) / kp < nx / 2) & (np.abs(ky) / kp < ny / 2)
        yield "longest baseline whose coordinates fit the plane", c.same(obs["max_baseline"], kr[inside].max())
        m = kr[kr != 0].min()
        yield "shortest baseline, at least the configured one", c.same(obs["min_baseline"], m if cfg["min_baseline"] is None else max(m, cfg["min_baseline"]))
        k = cfg["beam_nfreq_avg"] or 1
        yield "each frequency belongs to the bin of its distance from the first", list(bi["fbin_i"]) == [i // k for i in range(o.nf)]
        yield "uv planes start out square to the sky, unsubtracted and without map", c.and_(c.same(obs["dft_threshold"], nx / (4 * math.pi**2) if cfg["dft_threshold"] else 0), (obs["degrid_spectral_terms"], obs["grid_spectral_terms"], obs["alpha"], obs["residual"]) == (0, 0, -0.8, False), obs["pol_names"] == ["XX", "YY", "XY", "YX", "I", "Q", "U", "V"], (obs["healpix"]["n_pix"], obs["healpix"]["nside"], obs["healpix"]["n_zero"]) == (0, 0, -1))
        yield "visibilities per frequency start at zero", c.and_(obs["nf_vis"].shape == (o.nf,), bool((obs["nf_vis"] == 0).all()))
        yield "frequencies", c.and_(c.all_same(bi["freq"], o.freq), c.same(obs["freq_center"], float(np.median(o.freq))), list(bi["freq_use"]) == [1] * o.nf)


@contract
class update_obs(Contract):
    target = OB + "update_obs"
    prop = "D03"
    level = "bounded"
    why_bounded = "histogram and nested dictionaries"
    bound = "observations of up to 6 frequencies"
    n_quick = 150

    def inputs(self, b, case):
        import numpy as np

        g = rng_of(b)
        nf = int(g.integers(1, 9))
        k0 = int(g.integers(1, 4))
        obs = dict(n_freq=nf, freq_res=8e4, dimension=64, elements=64, obsx=32, obsy=32, kpix=0.5, degpix=1.0, max_baseline=float(g.uniform(1, 200)), astr=dict(naxis=np.array([64, 64]), cdelt=np.full(2, 1.0), crpix=np.array([33, 33]), crval=np.array([60.0, -27.0])), baseline_info=dict(freq=1.8e8 + np.arange(nf) * 8e4, fbin_i=np.arange(nf) // k0))
        d = dict(obs=obs, dimension=int(2 * g.integers(4, 64)), kbinsize=float(g.uniform(0.3, 2)))
        if g.random() < 0.6:
            d["beam_nfreq_avg"] = int(g.integers(1, 4))
        elif nf % k0:
            raise Skip
        if g.random() < 0.4:
            d["fov"] = float(g.uniform(10, 100))
        return d

    def ensures(self, c, a, old, r):
        import numpy as np

        k = old.__dict__.get("beam_nfreq_avg") or round(old.obs["n_freq"] / (old.obs["baseline_info"]["fbin_i"].max() + 1))
        n = old.dimension
        kp = math.degrees(1) / old.fov if "fov" in old.__dict__ else old.kbinsize
        yield "each frequency belongs to the bin of its distance from the first", list(r["baseline_info"]["fbin_i"]) == [i // k for i in range(old.obs["n_freq"])]
        yield "size of the plane and its centre", (r["dimension"], r["elements"], r["obsx"], r["obsy"]) == (n, n, n / 2, n / 2)
        yield "pixel sizes", c.and_(c.same(r["kpix"], kp), c.same(r["degpix"], math.degrees(1) / (kp * n)))
        yield "longest baseline is limited by the plane", c.same(r["max_baseline"], min(old.obs["max_baseline"], n * kp / math.sqrt(2)))
        s = r["astr"]
        yield "projection follows the new plane", c.and_(c.all_same(s["naxis"], [n, n]), c.all_same(s["cdelt"], [r["degpix"]] * 2), c.all_same(s["crpix"], [n / 2 + 1] * 2), c.all_same(s["crval"], [60, -27]))


@contract
class read_metafits(Observation):
    prop = "D04"
    n_quick = 120

    def ensures(self, c, a, old, r):
        import numpy as np

        o = observation(old.seed, old.meta)
        obs, _ = r
        bi, m, h = obs["baseline_info"], o.meta, o.header
        if m:
            yield "tile names, heights and flags in antenna order", c.and_(list(bi["tile_names"]) == list(m["tile"][::2]), c.all_same(bi["tile_height"], m["height"][::2] - 377.8), list(bi["tile_flag"]) == list(m["flag"][::2]))
            ra, dec, pra, pdec = (m["hdr"][k] for k in ("RA", "DEC", "RAPHASE", "DECPHASE"))
            yield "metadata are kept", c.and_(obs["meta_hdr"]["GRIDNAME"] == "sweet", obs["meta_hdr"]["COMMENT"] == ["made for a check"], len(obs["meta_data"]) == 2 * o.n, list(obs["delays"]) == ["0", "1", "2"], obs["time_res"] == o.integ)
        else:
            yield "default tile names and heights", c.and_(list(bi["tile_names"]) == list(range(1, o.n + 1)), c.all_same(bi["tile_height"], [0] * o.n))
            ra, dec = pra, pdec = h["obsra"], h["obsdec"]
            yield "time resolution from the times", abs(obs["time_res"] - (o.integ if o.nt > 1 else 1)) < 1e-3
        yield "pointing and phase centre", (obs["obsra"], obs["obsdec"], obs["phasera"], obs["phasedec"]) == (ra, dec, pra, pdec)
        over = lambda k, v: v if o.cfg[k] is None else o.cfg[k]
        yield "target phase centre is the phase centre unless overridden", (obs["orig_phasera"], obs["orig_phasedec"]) == (over("override_target_phasera", pra), over("override_target_phasedec", pdec))
        yield "start time", obs["jd0"] == o.params["time"].min()
        rad = math.radians

        def sep(r1, d1, r2, d2):
            x = math.sin(rad(d1)) * math.sin(rad(d2)) + math.cos(rad(d1)) * math.cos(rad(d2)) * math.cos(rad(r1 - r2))
            return math.degrees(math.acos(max(-1, min(1, x))))

        zr, zd = obs["zenra"], obs["zendec"]
        lst = sidereal(obs["jd0"])
        yield "zenith is at the local sidereal time and the latitude", sep(lst, -26.7, zr, zd) < 0.3
        yield "altitude is the complement of the distance to the zenith", abs(obs["obsalt"] - 90 + sep(ra, dec, zr, zd)) < 0.02
        s = obs["astr"]
        nx, ny = obs["dimension"], obs["elements"]
        yield "projection centred on the phase centre", c.and_((obs["obsx"], obs["obsy"]) == (nx // 2, ny // 2), c.all_same(s["crpix"], [nx // 2 + 1, ny // 2 + 1]), c.all_same(s["crval"], [pra, pdec]), c.all_same(s["cdelt"], [obs["degpix"]] * 2), c.all_same(s["naxis"], [nx, ny]))
        z = sep(pra, pdec, zr, zd)
        if z > 60 or z < 0.5:
            return
        H = rad(pra - zr)
        q = math.atan2(math.sin(H), math.cos(rad(pdec)) * math.tan(rad(zd)) - math.sin(rad(pdec)) * math.cos(H))
        q2 = math.atan(math.sin(H) / (math.cos(rad(pdec)) * math.tan(rad(zd)) - math.sin(rad(pdec)) * math.cos(H)))
        xi, eta = -math.tan(rad(z)) * math.sin(q), math.tan(rad(z)) * math.cos(q)
        yield "slant of the projection is the tangent of the zenith angle along the parallactic angle", abs(s["pv2"][0] - xi) + abs(s["pv2"][1] - eta) < 1e-6 * (1 + math.tan(rad(z))) or abs(s["pv2"][0] + math.tan(rad(z)) * math.sin(q2)) + abs(s["pv2"][1] - math.tan(rad(z)) * math.cos(q2)) < 1e-6 * (1 + math.tan(rad(z)))
        dr = rad(zr - pra)
        l, mm = math.cos(rad(zd)) * math.sin(dr), math.sin(rad(zd)) * math.cos(rad(pdec)) - math.cos(rad(zd)) * math.sin(rad(pdec)) * math.cos(dr)
        n = math.cos(rad(z))
        k = math.degrees(1) / obs["degpix"]
        x, y = nx // 2 + k * (l + s["pv2"][0] * (1 - n)), ny // 2 + k * (mm + s["pv2"][1] * (1 - n))
        yield "pixel of the zenith", obs["zenx"] != obs["zenx"] or abs(obs["zenx"] - x) + abs(obs["zeny"] - y) < 1e-5 * (1 + abs(x) + abs(y))
