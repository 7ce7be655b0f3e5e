"""Contracts discharged for all sizes and values: functions whose bodies the verifier takes in full, or in full up to calls of
library routines that appear as uninterpreted call-site contracts (stated with each contract)."""
import math
from pyvc.contract import contract, Contract, Skip, NSp
from contracts import _models as M

U = "PyFHD.pyfhd_tools.pyfhd_utils:"
UV = "PyFHD.data_setup.uvfits:"
OB = "PyFHD.data_setup.obs:"
CU = "PyFHD.calibration.calibration_utils:"
WI = {"PyFHD.pyfhd_tools.pyfhd_utils:weight_invert": M.weight_invert}


# ------------------------------------------------------------------ reading the file (D01)
class Groups(dict):
    """the part of astropy's GroupData that the reader uses: columns by name; `par` adds up columns of the same name"""

    def par(self, name):
        return self[name]


@contract
class create_params_all(Contract):
    target = UV + "create_params"
    prop = "D01"
    cases = (dict(how="baseline"), dict(how="antennas"))
    n_quick = 100

    def inputs(self, b, case):
        n = b.int("n", 1)
        g = Groups({k: b.arr(k, "f", n) for k in ("UU", "VV", "WW", "DATE")})
        if case["how"] == "baseline":
            g["BASELINE"] = b.arr("baseline", "i", n, 257, 65536 + 2048 * 2047, gen=lambda r, s: [r.choice([257, 65535, 65536, 65537, 67585 + 2048, r.randint(257, 65536), 65536 + 2048 * r.randint(1, 900) + r.randint(1, 900)]) for _ in range(s[0])])
            h = dict(ant1_i=0, ant2_i=0)
        else:
            g["ANTENNA1"], g["ANTENNA2"] = b.arr("ant1", "i", n, 1), b.arr("ant2", "i", n, 1)
            h = dict(ant1_i=5, ant2_i=6)
        return dict(pyfhd_header=h, params_data=g, logger=b.logger())

    def ensures(self, c, a, old, r):
        g = old.params_data
        n = c.dim(g["UU"])
        for k, s in (("uu", "UU"), ("vv", "VV"), ("ww", "WW"), ("time", "DATE")):
            yield f"{k} is what the file holds", c.and_(c.is_shape(r[k], n), c.all_same(r[k], g[s]))
        if "BASELINE" in g:
            B = g["BASELINE"]
            off, mod = (lambda i: c.ite(c(B, i) > 65536, lambda: 65536, lambda: 0)), (lambda i: c.ite(c(B, i) > 65536, lambda: 2048, lambda: 256))
            yield "the two antennas encode the baseline", c.forall([n], lambda i: c.eq(c(r["antenna1"], i) * mod(i) + c(r["antenna2"], i) + off(i), c(B, i)))
            yield "the second antenna is the remainder", c.forall([n], lambda i: c.and_(c(r["antenna2"], i) >= 0, c(r["antenna2"], i) < mod(i)))
            yield "antenna numbers are whole", c.forall([n], lambda i: c.eq(c.floor(c(r["antenna1"], i)), c(r["antenna1"], i)))
        else:
            yield "antennas as in the file", c.and_(c.all_same(r["antenna1"], g["ANTENNA1"]), c.all_same(r["antenna2"], g["ANTENNA2"]))
        for k in g:
            yield f"{k} not modified", c.unchanged(a.params_data[k], g[k])


@contract
class extract_visibilities_all(Contract):
    target = UV + "extract_visibilities"
    prop = "D01"
    cases = tuple(dict(extra=e, config=p) for e in (0, 1, 2) for p in (0, 1, 2, 4))
    n_quick = 30

    def inputs(self, b, case):
        n, nf = b.int("n", 1), b.int("n_freq", 2)
        npol = case["config"] or 2
        order = b.choice("order", [(0, 1, 2), (1, 0, 2), (2, 0, 1)])
        d = b.arr("data", "f", (n, *[1] * case["extra"], nf, max(npol, 2) if case["extra"] else npol, 3))
        h = dict(n_pol=2, real_index=order[0], imaginary_index=order[1], weights_index=order[2])
        return dict(pyfhd_header=h, params_data=dict(DATA=d), pyfhd_config=dict(n_pol=case["config"]), logger=b.logger())

    def ensures(self, c, a, old, r):
        vis, w = r
        d, h = old.params_data["DATA"], old.pyfhd_header
        npol = old.pyfhd_config["n_pol"] or h["n_pol"]
        sh = c.shape(d)
        n, nf, mid = sh[0], sh[-3], [0] * (len(sh) - 4)
        yield "shape", c.and_(c.is_shape(vis, npol, nf, n), c.is_shape(w, npol, nf, n))
        at = lambda p, f, i, k: c(d, i, *mid, f, p, h[k])
        yield "visibilities are real and imaginary part of the polarization, frequency and baseline", c.forall([npol, nf, n], lambda p, f, i: c.eq(c(vis, p, f, i), c.cplx(at(p, f, i, "real_index"), at(p, f, i, "imaginary_index"))))
        yield "weights of the polarization, frequency and baseline", c.forall([npol, nf, n], lambda p, f, i: c.eq(c(w, p, f, i), at(p, f, i, "weights_index")))
        yield "file data not modified", c.unchanged(a.params_data["DATA"], d)


# ------------------------------------------------------------------ auto-correlations (C05)
@contract
class vis_extract_autocorr_all(Contract):
    target = CU + "vis_extract_autocorr"
    prop = "C05"
    n_quick = 60

    def inputs(self, b, case):
        npol, nf, nb = b.choice("n_pol", [1, 2]), b.int("n_freq", 1), b.int("nb", 1)
        tile = lambda nm: b.arr(nm, "i", nb, 1, 4)
        return dict(obs=dict(n_pol=npol, n_freq=nf, baseline_info=dict(tile_a=tile("tile_a"), tile_b=tile("tile_b"))), vis_arr=b.arr("vis", "c", (npol, nf, nb)), pyfhd_config=dict(cal_time_average=False))

    def ensures(self, c, a, old, r):
        auto, tiles = r
        bi, v = old.obs["baseline_info"], old.vis_arr
        npol, nf, nb = c.shape(v)
        A, B = bi["tile_a"], bi["tile_b"]
        if not c.symbolic and not (A == B).any():
            yield "nothing without auto-correlations", c.and_(c.size(auto) == 1, c.size(tiles) == 0)
            return
        if c.symbolic and c.ndim(auto) == 1:
            yield "nothing only without auto-correlations", c.forall([nb], lambda i: c.not_(c.eq(c(A, i), c(B, i))))
            return
        n = c.dim(tiles)
        yield "one column per auto-correlation", c.is_shape(auto, npol, nf, n)
        yield "every column is the real part of an auto-correlation of its tile", c.forall([npol, nf, n], lambda p, f, k: c.exists([nb], lambda i: c.and_(c.eq(c(A, i), c(B, i)), c.eq(c(tiles, k), c(A, i) - 1), c.eq(c(auto, p, f, k), c.re(c(v, p, f, i))))))
        yield "every auto-correlation has its column", c.forall([npol, nf, nb], lambda p, f, i: c.implies(c.eq(c(A, i), c(B, i)), lambda: c.exists([n], lambda k: c.and_(c.eq(c(tiles, k), c(A, i) - 1), c.eq(c(auto, p, f, k), c.re(c(v, p, f, i)))))))
        yield "visibilities not modified", c.unchanged(a.vis_arr, v)


# ------------------------------------------------------------------ phase of the shift of the phase centre (H02)
class Pixel:
    """radec_to_pixel as an uninterpreted call: the pixel of the original phase centre, any two numbers"""

    def __init__(self, xy):
        self.xy = xy


def radec_to_pixel(prog, ra, dec, astr):
    return astr.xy


@contract
class phase_shift_uv_image_all(Contract):
    target = "PyFHD.healpix.healpix_utils:phase_shift_uv_image"
    prop = "H02"
    cases = (dict(moved=1), dict(moved=0))
    models = {"PyFHD.pyfhd_tools.unit_conv:radec_to_pixel": radec_to_pixel}
    n_quick = 60

    def inputs(self, b, case):
        dim, el = b.int("dimension", 1), b.int("elements", 1)
        ra, dec = b.real("ra", 0, 360), b.real("dec", -90, 90)
        xy = (b.real("x"), b.real("y"))
        return dict(obs=dict(moved=case["moved"], dimension=dim, elements=el, orig_phasera=ra, orig_phasedec=dec, phasera=ra + (b.real("moved", 0.5, 5) if case["moved"] else 0), phasedec=dec, astr=Pixel(xy)))

    def call(self, f, a):
        from contracts.c_healpix import patched

        if isinstance(a.obs["dimension"], int):
            with patched("PyFHD.healpix.healpix_utils", radec_to_pixel=lambda ra, dec, astr: astr.xy):
                return f(**a.__dict__)
        return f(**a.__dict__)

    def ensures(self, c, a, old, r):
        o = old.obs
        dim, el = o["dimension"], o["elements"]
        yield "shape", c.is_shape(r, el, dim)
        if not o["moved"]:
            yield "no shift, no phase", c.forall([el, dim], lambda j, i: c.eq(c(r, j, i), 1))
            return
        x, y = o["astr"].xy
        pi = c.pi
        ph = lambda j, i: (i - dim / 2) * ((x - dim / 2) * (2 * pi / dim)) + (j - el / 2) * ((y - el / 2) * (2 * pi / el))
        yield "phase factor of the shift theorem at every pixel", c.forall([el, dim], lambda j, i: c.eq(c(r, j, i), c.cplx(c.cos(ph(j, i)), c.sin(ph(j, i)))))


# ------------------------------------------------------------------ geometry (U06)
@contract
class parallactic_angle(Contract):
    target = U + "parallactic_angle"
    prop = "U06"
    n_quick = 150

    def inputs(self, b, case):
        return dict(latitude=b.real("latitude", -89, 89), hour_angle=b.real("hour_angle", -180, 180), dec=b.real("dec", -89, 89))

    def requires(self, c, a):
        L, H, D = c.radians(a.latitude), c.radians(a.hour_angle), c.radians(a.dec)
        if c.symbolic:
            yield "away from the poles", c.not_(c.eq(c.cos(L), 0))
        den = c.cos(D) * c.tan(L) - c.sin(D) * c.cos(H)
        yield "not on the meridian plane where the angle is a right angle", c.not_(c.eq(den, 0)) if c.symbolic else abs(den) > 1e-6

    def ensures(self, c, a, old, r):
        L, H, D, q = c.radians(old.latitude), c.radians(old.hour_angle), c.radians(old.dec), c.radians(r)
        yield "tangent of the angle", c.eq(c.sin(q) * (c.cos(D) * c.tan(L) - c.sin(D) * c.cos(H)), c.cos(q) * c.sin(H))
        yield "between -90 and 90 degrees", c.and_(r >= -90, r <= 90)


# ------------------------------------------------------------------ flags (F01)
@contract
class vis_flag_tiles_all(Contract):
    target = "PyFHD.flagging.flagging:vis_flag_tiles"
    prop = "F01"
    cases = tuple(dict(names=n, flags=f) for n, f in ((("Tile11", "Tile12", "Tile13"), ("Tile12",)), (("Tile11", "Tile12", "Tile13"), (" Tile13", "Tile11 ")), (("a ", " b", "c", "d"), ("b", "x", "a", "b")), ((" 5", "1", "2"), (1, 5)), (("1", "2"), ()), (("1", "2"), ("3",)), (("2", "1", "3"), (1,))))
    n_quick = 40

    def inputs(self, b, case):
        npol, nf, nb, nt = b.int("n_pol", 1), b.int("n_freq", 1), b.int("nb", 1), len(case["names"])
        return dict(obs=dict(n_tile=nt, baseline_info=dict(tile_names=list(case["names"]), tile_a=b.arr("tile_a", "i", nb, 1, nt), tile_b=b.arr("tile_b", "i", nb, 1, nt))), vis_weight_arr=b.arr("w", "f", (npol, nf, nb)), tiles_to_flag=list(case["flags"]), logger=b.logger())

    def ensures(self, c, a, old, r):
        bi, w = old.obs["baseline_info"], old.vis_weight_arr
        npol, nf, nb = c.shape(w)
        want = {str(x).strip() for x in old.tiles_to_flag}
        cut = [i + 1 for i, n in enumerate(bi["tile_names"]) if n.strip() in want]
        hit = lambda i: c.or_(False, *[c.eq(c(bi[t], i), k) for k in cut for t in ("tile_a", "tile_b")])
        yield "shape", c.same_shape(r, w)
        yield "weights of baselines with a flagged tile are zero, others unchanged", c.forall([npol, nf, nb], lambda p, f, i: c.ite(hit(i), lambda: c.eq(c(r, p, f, i), 0), lambda: c.eq(c(r, p, f, i), c(w, p, f, i))))
        for k in ("tile_a", "tile_b"):
            yield f"{k} not modified", c.unchanged(a.obs["baseline_info"][k], bi[k])


# ------------------------------------------------------------------ weights (W01)


@contract
class vis_weights_update_all(Contract):
    target = U + "vis_weights_update"
    prop = "W01"
    cases = [1, 2]
    n_quick = 60
    merge_ifs = True
    budget_s = 300
    models = {U + "array_match": M.array_match_positions, U + "histogram": M.histogram_opaque}

    def inputs(self, b, case):
        npol, nf, nt, nb, ntile = case, b.int("n_freq", 1), b.int("n_time", 1), b.int("n_baselines", 1), b.int("n_tile", 1)
        flag = lambda nm, n: b.arr(nm, "i", n, 0, 1)
        lo = b.real("min_baseline", 0)
        obs = dict(kpix=b.real("kpix", 0.1, 2), dimension=2 * b.int("dimx", 1), elements=2 * b.int("dimy", 1), n_pol=npol, n_vis=-1, n_time_flag=0, n_tile_flag=0, n_freq_flag=0, min_baseline=lo, max_baseline=lo + b.real("span", 0),
                   baseline_info=dict(freq=b.arr("freq", "f", nf, 1, 10), freq_use=flag("freq_use", nf), tile_use=flag("tile_use", ntile), time_use=flag("time_use", nt), tile_a=b.arr("tile_a", "i", nb, 1), tile_b=b.arr("tile_b", "i", nb, 1), bin_offset=b.arr("bin_offset", "i", nt, 0)))
        return dict(vis_weights=b.arr("w", "f", (npol, nf, nb)), obs=obs, psf=dict(dim=2 * b.int("psf", 1)), params=dict(uu=b.arr("uu", "f", nb), vv=b.arr("vv", "f", nb)))

    def ensures(self, c, a, old, r):
        w, obs = r
        w0, bi = old.vis_weights, old.obs["baseline_info"]
        npol, nf, nb = c.shape(w0)
        yield "shape", c.same_shape(w, w0)
        yield "every weight is kept or becomes zero", c.forall([npol, nf, nb], lambda p, f, i: c.or_(c.eq(c(w, p, f, i), c(w0, p, f, i)), c.eq(c(w, p, f, i), 0)))
        yield "zero at unused frequencies", c.forall([npol, nf, nb], lambda p, f, i: c.implies(c.eq(c(bi["freq_use"], f), 0), lambda: c.eq(c(w, p, f, i), 0)))


# ------------------------------------------------------------------ flagging (F01)


@contract
class vis_flag_basic_all(Contract):
    target = "PyFHD.flagging.flagging:vis_flag_basic"
    prop = "F01"
    cases = [(1, 384), (2, 192)]
    n_quick = 40
    merge_ifs = True
    budget_s = 300

    def inputs(self, b, case):
        (npol, nf), nt, nb, ntile = case, b.int("n_time", 1), b.int("n_baselines", 1), b.int("n_tile", 1)
        flag = lambda nm, n: b.arr(nm, "i", n, 0, 1)
        obs = dict(n_pol=npol, n_freq=nf, n_time=nt, n_tile=ntile, n_time_flag=0, n_tile_flag=0, n_freq_flag=0,
                   baseline_info=dict(freq=b.arr("freq", "f", nf, 1, 400e6), freq_use=flag("freq_use", nf), tile_use=flag("tile_use", ntile), time_use=flag("time_use", nt), tile_a=b.arr("tile_a", "i", nb, 1, ntile), tile_b=b.arr("tile_b", "i", nb, 1, ntile), bin_offset=b.arr("bin_offset", "i", nt, 0, gen=lambda r, s: [0] + sorted(r.randrange(nb + 1) for _ in range(s[0] - 1)))))
        cfg = dict(flag_freq_start=b.real("fstart", 1, 200), flag_freq_end=b.real("fend", 1, 400), flag_tiles=[], flag_frequencies=True)
        return dict(vis_weight_arr=b.arr("w", "f", (npol, nf, nb)), vis_arr=b.arr("vis", "c", (npol, nf, nb)), obs=obs, pyfhd_config=cfg, logger=b.logger())

    def requires(self, c, a):
        bi, nt = a.obs["baseline_info"], a.obs["n_tile"]
        off, n, nb = bi["bin_offset"], c.dim(bi["bin_offset"]), c.dim(bi["tile_a"])
        yield "the samples of a time follow those of the time before", c.and_(c.eq(c(off, 0), 0), c.forall([n, n], lambda t, u: c.implies(t <= u, lambda: c.and_(c(off, t) <= c(off, u), c(off, u) <= nb))))
        yield "tiles exist", c.forall([c.dim(bi["tile_a"])], lambda i: c.and_(c(bi["tile_a"], i) >= 1, c(bi["tile_a"], i) <= nt, c(bi["tile_b"], i) >= 1, c(bi["tile_b"], i) <= nt))

    def ensures(self, c, a, old, r):
        w, obs = r
        w0, bi, cfg = old.vis_weight_arr, old.obs["baseline_info"], old.pyfhd_config
        npol, nf, nb = c.shape(w0)
        yield "shape", c.same_shape(w, w0)
        avg = 768 // old.obs["n_freq"]
        width, cc = -(-2 // avg), 32 // avg
        edge = lambda f: c.or_(c.mod(f, cc) < width, cc - 1 - c.mod(f, cc) < width)
        off = lambda f: c.or_(c(bi["freq"], f) / 1000000.0 < cfg["flag_freq_start"], c(bi["freq"], f) / 1000000.0 > cfg["flag_freq_end"], edge(f))
        nt = c.dim(bi["time_use"])
        inside = lambda t, i: c.and_(c(bi["bin_offset"], t) <= i, i < c.ite(t + 1 < nt, lambda: c(bi["bin_offset"], t + 1), lambda: nb))
        yield "zero outside the frequency limits and at the channel edges", c.forall([npol, nf, nb], lambda p, f, i: c.implies(off(f), lambda: c.eq(c(w, p, f, i), 0)))
        yield "zero at times not in use", c.forall([nt, npol, nf, nb], lambda t, p, f, i: c.implies(c.and_(inside(t, i), c(bi["time_use"], t) <= 0), lambda: c.eq(c(w, p, f, i), 0)))
        yield "every other weight is kept", c.forall([nt, npol, nf, nb], lambda t, p, f, i: c.implies(c.and_(inside(t, i), c(bi["time_use"], t) > 0, c.not_(off(f))), lambda: c.eq(c(w, p, f, i), c(w0, p, f, i))))
        nbi = obs["baseline_info"]
        for k in ("tile_use", "freq_use"):
            yield f"{k}: 0 or 1, and 0 where it was 0", c.forall([c.dim(bi[k])], lambda j: c.and_(c.or_(c.eq(c(nbi[k], j), 0), c.eq(c(nbi[k], j), 1)), c(nbi[k], j) <= c(bi[k], j)))
        yield "frequencies outside the limits and at channel edges are not in use", c.forall([nf], lambda f: c.implies(off(f), lambda: c.eq(c(nbi["freq_use"], f), 0)))
        yield "recorded number of flagged times", c.eq(obs["n_time_flag"], c.count(0, nt, lambda j: c.eq(c(bi["time_use"], j), 0)))
        yield "visibilities not modified", c.unchanged(a.vis_arr, old.vis_arr)


# ------------------------------------------------------------------ filter of the uv plane (G06)


@contract
class filter_uv_uniform_all(Contract):
    target = "PyFHD.gridding.filters:filter_uv_uniform"
    prop = "G06"
    n_quick = 40
    models = {U + "weight_invert": M.weight_invert}

    def inputs(self, b, case):
        m, n = b.int("m", 1), b.int("n", 2)
        return dict(image_uv=b.arr("image", "c", (m, n)), vis_count=b.arr("count", "f", (m, n), 0, vals=[0.0, 0.5, 1.0, 2.0, 3.0]))

    def requires(self, c, a):
        yield "something was counted", c(a.vis_count, 0, 0) >= 1

    def ensures(self, c, a, old, r):
        img, f = r
        n = old.vis_count
        M_, N_ = c.shape(n)
        yield "shape", c.and_(c.same_shape(f, n), c.same_shape(img, n))
        yield "zero where less than one visibility was counted", c.forall([M_, N_], lambda i, j: c.implies(c(n, i, j) < 1, lambda: c.eq(c(f, i, j), 0)))
        yield "in inverse proportion to the count elsewhere", c.forall([M_, N_], lambda i, j: c.implies(c(n, i, j) >= 1, lambda: c.eq(c(f, i, j) * c(n, i, j), c(f, 0, 0) * c(n, 0, 0))))
        yield "the image is multiplied by the filter", c.forall([M_, N_], lambda i, j: c.eq(c(img, i, j), c(old.image_uv, i, j) * c(f, i, j)))
        yield "inputs not modified", c.and_(c.unchanged(a.image_uv, old.image_uv), c.unchanged(a.vis_count, n))


# ------------------------------------------------------------------ noise (W03)


@contract
class vis_noise_calc_all(Contract):
    target = U + "vis_noise_calc"
    prop = "W03"
    cases = [1, 2]
    n_quick = 40
    merge_ifs = True

    def inputs(self, b, case):
        npol, nf, nb, k = case, b.int("n_freq", 1), b.int("nb", 1), b.int("pairs", 1)
        at = lambda nm: b.arr(nm, "i", k, 0, nb - 1)
        return dict(obs=dict(n_time=b.int("n_time", 2), n_pol=npol, n_freq=nf), vis_arr=b.arr("vis", "c", (npol, nf, nb)), vis_weights=b.arr("w", "f", (npol, nf, nb)), bi_use=[at("even"), at("odd")])

    def ensures(self, c, a, old, r):
        w, (e, o), v = old.vis_weights, old.bi_use, old.vis_arr
        npol, nf, nb = c.shape(w)
        k = c.dim(e)
        used = lambda p, f, j: c.and_(c(w, p, f, c(e, j)) > 0, c(w, p, f, c(o, j)) > 0)
        diff = lambda p, f, j: c.im(c(v, p, f, c(e, j))) - c.im(c(v, p, f, c(o, j)))
        yield "one value per polarization and frequency", c.is_shape(r, npol, nf)
        yield "zero where no pair has two positive weights", c.forall([npol, nf], lambda p, f: c.implies(c.forall([k], lambda j: c.not_(used(p, f, j))), lambda: c.eq(c(r, p, f), 0)))
        yield "inputs not modified", c.and_(c.unchanged(a.vis_arr, v), c.unchanged(a.vis_weights, w))


# ------------------------------------------------------------------ beam (B01)


@contract
class gaussian_decomp_all(Contract):
    target = "PyFHD.beam_setup.beam_utils:gaussian_decomp"
    prop = "B01"
    cases = (dict(npix=False, res=False), dict(npix=True, res=False), dict(npix=False, res=True), dict(npix=True, res=True))
    n_quick = 40

    def inputs(self, b, case):
        n, k = b.int("n", 1, size=6), b.int("lobes", 1, size=3)
        d = dict(x=b.arr("x", "f", n), y=b.arr("y", "f", n), p=b.arr("p", "f", 5 * k))
        if case["npix"]:
            d["model_npix"] = b.real("npix", 0)
        if case["res"]:
            d["model_res"] = b.real("res", vals=[0.5, 1.0, 2.0])
        return d

    def requires(self, c, a):
        k = c.div(c.dim(a.p), 5)
        yield "widths are not zero", c.forall([k], lambda l: c.and_(c.not_(c.eq(c(a.p, 5 * l + 2), 0)), c.not_(c.eq(c(a.p, 5 * l + 4), 0))))
        if "model_res" in a.__dict__:
            yield "resolution is positive", a.model_res > 0

    def ensures(self, c, a, old, r):
        O, p = old.__dict__, old.p
        n, k = c.dim(old.x), c.div(c.dim(old.p), 5)
        half = c.div(n, 2) if False else n / 2

        def lobe(i, j, l):
            am, ox, sx, oy, sy = [c(p, 5 * l + t) for t in range(5)]
            if "model_npix" in O:
                ox, oy = ox + (half - O["model_npix"] / 2), oy + (half - O["model_npix"] / 2)
            if "model_res" in O:
                ox, oy = (ox - half) * O["model_res"] + half, (oy - half) * O["model_res"] + half
                sx, sy = sx * O["model_res"], sy * O["model_res"]
            return am * (c.exp(-((c(old.y, i) - oy) ** 2) / (2 * sy**2)) * c.exp(-((c(old.x, j) - ox) ** 2) / (2 * sx**2)))

        yield "square plane", c.is_shape(r[0], n, n)
        yield "sum of the gaussians with their own amplitudes, widths and centres on the requested grid", c.forall([n, n], lambda i, j: c.eq(c(r[0], i, j), c.sum(0, k, lambda l: lobe(i, j, l))))
        yield "grid not modified", c.and_(c.unchanged(a.x, old.x), c.unchanged(a.y, old.y))


# ------------------------------------------------------------------ band pass (C03)


def nonzero(c, x):
    """positions of the entries of a flag array that are set"""
    import pyvc.contract as K

    if c.symbolic:
        from pyvc import npshim

        return npshim.nonzero(x)[0]
    import numpy as np

    return np.nonzero(x)[0]


@contract
class vis_cal_bandpass_all(Contract):
    target = CU + "vis_cal_bandpass"
    prop = "C03"
    cases = [1, 2]
    n_quick = 60
    merge_ifs = True
    models = {U + "resistant_mean": M.resistant_mean, U + "weight_invert": M.weight_invert}

    def inputs(self, b, case):
        npol, nf, nt = case, b.int("n_freq", 1, size=5), b.int("n_tile", 3, size=4)
        return dict(obs=dict(n_freq=nf, n_tile=nt, baseline_info=dict(freq=b.arr("freq", "f", nf), freq_use=b.arr("freq_use", "i", nf, 0, 1), tile_use=b.arr("tile_use", "i", nt, 0, 1))), cal=dict(n_pol=npol, gain=b.arr("gain", "c", (npol, nf, nt))), pyfhd_config=dict(cal_bp_transfer=None, cable_bandpass_fit=False), logger=b.logger())

    def requires(self, c, a):
        bi = a.obs["baseline_info"]
        yield "a tile and a frequency in use", c.and_(c.exists([a.obs["n_tile"]], lambda t: c(bi["tile_use"], t) > 0), c.exists([a.obs["n_freq"]], lambda f: c(bi["freq_use"], f) > 0))

    def ensures(self, c, a, old, r):
        g, bi = old.cal["gain"], old.obs["baseline_info"]
        B, R = r[0]["gain"], r[1]["gain"]
        npol, nf, nt = c.shape(g)
        fu, tu = nonzero(c, bi["freq_use"]), nonzero(c, bi["tile_use"])
        used = lambda f: c.not_(c.eq(c(bi["freq_use"], f), 0))
        yield "shapes", c.and_(c.same_shape(B, g), c.same_shape(R, g))
        yield "band pass times remainder is the gain wherever the band pass is not zero", c.forall([npol, nf, nt], lambda p, f, t: c.implies(c.not_(c.eq(c(B, p, f, t), 0)), lambda: c.eq(c(B, p, f, t) * c(R, p, f, t), c(g, p, f, t))))
        yield "at used frequencies the remainder is zero where the band pass is zero", c.forall([npol, nf, nt], lambda p, f, t: c.implies(c.and_(used(f), c.eq(c(B, p, f, t), 0)), lambda: c.eq(c(R, p, f, t), 0)))
        yield "unused frequencies have no band pass and keep their gain", c.forall([npol, nf, nt], lambda p, f, t: c.implies(c.not_(used(f)), lambda: c.and_(c.eq(c(B, p, f, t), 0), c.eq(c(R, p, f, t), c(g, p, f, t)))))
        yield "the band pass is real and the same for every tile", c.forall([npol, nf, nt], lambda p, f, t: c.and_(c.eq(c.im(c(B, p, f, t)), 0), c.eq(c(B, p, f, t), c(B, p, f, 0))))
        yield "input gains not modified", c.unchanged(a.cal["gain"], g)
