"""Contracts on PyFHD/pyfhd_tools/pyfhd_setup.py: options, validation and the configuration that is written for a run."""
import contextlib
import io
import os
import shutil
import tempfile
from pathlib import Path
from pyvc.contract import contract, Contract, Skip
from contracts.c_calibration2 import rng_of

SU = "PyFHD.pyfhd_tools.pyfhd_setup:"
FILES = ["cal-bp-transfer", "diffuse-calibrate", "calibration_catalog-file-path", "transfer-calibration", "transfer-model-uv", "transfer-weights", "diffuse-model", "model-catalog-file-path", "in-situ-sim-input", "eor-vis-filepath", "sim-noise", "healpix-inds", "IDL_variables_file"]


@contextlib.contextmanager
def scratch():
    """a scratch directory to work in, and the root logger as it was"""
    import logging

    d, cwd, log = tempfile.mkdtemp(), os.getcwd(), logging.getLogger()
    handlers, level = list(log.handlers), log.level
    os.chdir(d)
    log.handlers = [logging.NullHandler()]
    try:
        yield d
    finally:
        for h in log.handlers:
            h.close()
        log.handlers = handlers
        log.setLevel(level)
        logging.captureWarnings(False)
        os.chdir(cwd)
        shutil.rmtree(d)


def dest(o):
    return o.replace("-", "_")


@contract
class pyfhd_setup(Contract):
    target = SU + "pyfhd_setup"
    prop = "S01"
    level = "bounded"
    why_bounded = "files and the argument parser"
    bound = "random combinations of all options that are validated"
    cases = (dict(wrong=False), dict(wrong=True))
    n_quick = 500

    def inputs(self, b, case):
        g = rng_of(b)
        yes = lambda p=0.5: bool(g.random() < p)
        pick = lambda xs: xs[int(g.integers(len(xs)))]
        few = pick([0.05, 0.25])
        files = {o: False for o in FILES if yes(few)}  # option -> missing
        sim = yes() or any(o in files for o in ("in-situ-sim-input", "eor-vis-filepath", "sim-noise"))
        enhance = pick([1.0, 0.5, 1.5, 3.0])
        if enhance > 1:
            files["eor-vis-filepath"], sim = False, True
        psf = {n: False for n in ("a.sav", "b.npz") if yes(0.3)}
        flags = [o for o in ("recalculate-all", "recalculate-grid", "recalculate-beam", "snapshot-healpix-export", "save-visibilities", "beam-per-baseline", "interpolate-kernel", "cal-reflection-hyperresolve", "cal-reflection-mode-file", "cal-reflection-mode-delay", "restrict-healpix-inds", "log-file", "calibration-polyfit", "filter-background") if yes()]
        d = dict(files=files, sim=sim, enhance=enhance, psf=psf, flags=flags, offset=pick([56.0, 0.0, -3.5, -0.5]), gain=pick([None, 1.0, 0.0, 0.3]), pad=pick([1.0, 2.5]), ring=pick([10.0, 3.0]), uvfits=True, metafits=True, indir=True, model=True, mtype=pick(["sav", "uvfits"]), n_pol=pick([2, 2, 0, 4]), savs=["params", "vis_model_XX", "vis_model_YY", "vis_model_XY", "vis_model_YX"], desc=None if yes() else "a run")
        if d["n_pol"] != 4 and yes():
            d["savs"] = d["savs"][:3]
        if case["wrong"]:  # mostly one thing wrong at a time
            for _ in range(pick([1, 1, 1, 2, 4])):
                k = pick(["file", "file", "psf", "psf", "type", "uvfits", "metafits", "indir", "model", "sav", "sim", "enhance", "sidelobe"])
                if k == "file":
                    o = pick(FILES)
                    files[o] = True
                    if o in ("in-situ-sim-input", "eor-vis-filepath", "sim-noise"):
                        d["sim"] = True
                elif k == "psf":
                    psf[pick(["a.sav", "b.npz"])] = True
                elif k == "type":
                    psf[pick(["c.txt", "c.sav.txt"])] = False
                elif k == "sim":
                    d["sim"] = False
                    files.setdefault(pick(["in-situ-sim-input", "eor-vis-filepath", "sim-noise"]), False)
                elif k == "enhance":
                    files.pop("eor-vis-filepath", None)
                    d["enhance"] = pick([1.5, 3.0])
                elif k == "sav":
                    d["mtype"] = "sav"
                    d["savs"] = [x for x in d["savs"][: d["n_pol"] + 1 if d["n_pol"] == 4 else 3]]
                    d["savs"].remove(pick(d["savs"]))
                elif k == "sidelobe":
                    flags.append("allow-sidelobe-model-sources")
                else:
                    d[k] = False
        return d

    def wrong(self, a):
        miss = dict(a.files)
        if "restrict-healpix-inds" not in a.flags:
            miss.pop("healpix-inds", None)
        return any(miss.values()) or any(a.psf.values()) or any(n.endswith(".txt") for n in a.psf) or "allow-sidelobe-model-sources" in a.flags or not (a.uvfits and a.metafits and a.indir and a.model) or a.mtype == "sav" and len(a.savs) < (5 if a.n_pol == 4 else 3) or not a.sim and any(o in a.files for o in ("in-situ-sim-input", "eor-vis-filepath", "sim-noise")) or a.enhance > 1 and "eor-vis-filepath" not in a.files

    def call(self, f, a):
        from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser

        with scratch() as d:
            Path("conf.yaml").write_text("silent : true\n")
            os.makedirs("input")
            os.makedirs("models")
            for k in ("uvfits", "metafits"):
                if getattr(a, k):
                    Path("input", "77." + k).touch()
            os.makedirs("out")
            if a.mtype == "sav":
                for n in a.savs:
                    Path("models", f"77_{n}.sav").touch()
            args = ["-c", "conf.yaml", "--model-file-type", a.mtype, f"--n-pol={a.n_pol}", "-i", "input" if a.indir else "nowhere", "--output-path", "out", "--model-file-path", "models" if a.model else "missing", f"--enhance-eor={a.enhance}", f"--beam-offset-time={a.offset}", f"--pad-uv-image={a.pad}", f"--ring-radius-multi={a.ring}"]
            for o, missing in a.files.items():
                args += ["--" + o, o + ".dat"]
                if not missing:
                    Path(o + ".dat").touch()
            for n, missing in a.psf.items():
                if not missing:
                    Path(n).touch()
            args += ["--" + o for o in a.flags] + (["--run-simulation"] if a.sim else [])
            if a.gain is not None:
                args.append(f"--cal-base-gain={a.gain}")
            if a.desc:
                args += ["--description", a.desc]
            if a.psf:
                args += ["--grid_psf_file", *a.psf, "--silent"]
            options = pyfhd_parser().parse_args(args + ["77"])
            before = dict(vars(options))
            try:
                cfg, _ = f(options)
                code = None
            except SystemExit as e:
                cfg, code = None, e.code
            written = sorted(str(p.relative_to(d)) for p in Path(d, "out").rglob("*") if p.is_file() and p.suffix != ".log")
            return cfg and dict(cfg), code, before, written, os.path.realpath(d)

    def ensures(self, c, a, old, r):
        cfg, code, before, written, d = r
        if self.wrong(old):
            yield "a configuration that cannot be run stops with a failure", code is not None and code != 0
            yield "nothing is written for it", written == []
            return
        yield "a configuration that can be run is accepted", code is None
        want = dict(before)
        on = set(old.flags)
        if "recalculate-all" in on:
            want.update(recalculate_beam=True, recalculate_grid=True, recalculate_mapfn=True)
        if "snapshot-healpix-export" in on:
            want["save_visibilities"] = True
        want["beam_offset_time"] = max(old.offset, 0)
        if "beam-per-baseline" in on:
            want["interpolate_kernel"] = False
        if "cal-reflection-mode-file" in on:
            want["cal_reflection_hyperresolve"] = False
        want["cal_base_gain"] = 0.75 if old.gain is None else old.gain
        want["ring_radius"] = old.pad * old.ring
        for o in old.files:
            if o != "healpix-inds" or "restrict-healpix-inds" in on:
                want[dest(o)] = Path(d, o + ".dat")
        want["model_file_path"] = Path(d, "models")
        want["cal_reflection_mode_file"], want["cal_reflection_mode_delay"] = ("cal-reflection-mode-" + k in on for k in ("file", "delay"))
        for n in old.psf:
            want["grid_psf_file_" + n[-3:]] = Path(d, n)
        for k, v in want.items():
            yield f"{k} is as given, or as its dependencies require", cfg.get(k) == v or isinstance(v, Path) and os.path.realpath(cfg.get(k)) == os.path.realpath(v) and os.path.isabs(cfg[k])
        yield "the configuration of the run is written", len([w for w in written if w.endswith(".yaml")]) == 1
        yield "into the directory of the run", str(cfg["output_dir"]).startswith("out/pyfhd_") and (old.desc is None or str(cfg["output_dir"]) == "out/pyfhd_a_run")


@contract
class write_collated_yaml_config(Contract):
    target = SU + "write_collated_yaml_config"
    prop = "S02"
    level = "bounded"
    why_bounded = "files and the argument parser"
    bound = "random values for all options of the parser"
    cases = (dict(some=False), dict(some=True))
    n_quick = 100

    def inputs(self, b, case):
        return dict(seed=b.int("seed", 0, 10**6, size=10**6), some=case["some"])

    def call(self, f, a):
        import argparse
        import numpy as np
        from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser, pyfhd_setup

        g = np.random.default_rng([a.seed, a.some])
        words = ["plain", "two words", "it's", "a:b", "x#y", "0123", "true", "1e5", "~", "null", "[q]", "dash-ed", "under_scored", "''"]
        text = lambda: str(g.choice(words))
        with scratch() as d:
            Path("conf.yaml").write_text("silent : true\n")
            os.makedirs("input dir")
            for k in ("uvfits", "metafits"):
                Path("input dir", "77." + k).touch()
            os.makedirs("out")
            for n in ("params", "vis_model_XX", "vis_model_YY", "vis_model_XY", "vis_model_YX"):
                Path("input dir", f"77_{n}.sav").touch()
            p = pyfhd_parser()
            args = ["-c", "conf.yaml", "-i", "input dir", "--output-path", "out", "--model-file-path", "input dir"]
            sim = False
            for x in p._actions:
                if not x.option_strings or x.dest in ("help", "config", "version", "input_path", "output_path", "model_file_path", "silent", "allow_sidelobe_model_sources", "run_simulation", "enhance_eor", "grid_psf_file_sav", "grid_psf_file_npz", "instrument"):
                    continue
                if g.random() < (0.6 if a.some else 0.15):
                    o = x.option_strings[-1]
                    if isinstance(x, argparse._StoreTrueAction):
                        args.append(o)
                    elif x.dest == "grid_psf_file":
                        use = [n for n in ("a.sav", "b b.npz") if g.random() < 0.7]
                        for n in use:
                            Path(n).touch()
                        args += [o, *use, "--silent"]
                    elif x.dest == "time_cut":
                        args += [o, *[str(v) for v in np.round(g.normal(0, 5, int(g.integers(1, 3))), 2)], "--silent"]
                    elif x.nargs == "+":
                        args += [o, *[text() for _ in range(g.integers(1, 4))], "--silent"]
                    elif x.choices:
                        args.append(f"{o}={g.choice(x.choices)}")
                    elif x.type is int:
                        args.append(f"{o}={g.integers(0, 3000)}")
                    elif x.type is float:
                        args.append(f"{o}={float(g.choice([0.0, 1.5, -2.25, 1e-07, 3e20, 7.0, float(g.normal())]))!r}")
                    elif x.type is Path or x.dest in ("IDL_variables_file", "IDL_output_dir"):
                        n = f"{x.dest} {text()}"
                        Path(n).touch()
                        args.append(f"{o}={n}")
                        sim = sim or x.dest in ("in_situ_sim_input", "eor_vis_filepath", "sim_noise")
                        if x.dest == "eor_vis_filepath" and g.random() < 0.5:
                            args.append("--enhance-eor=2.5")
                    elif isinstance(x, argparse._AppendAction):
                        args += [f"{o}={text()}" for _ in range(g.integers(1, 4))]
                    else:
                        args.append(f"{o}={text()}")
            if sim:
                args.append("--run-simulation")
            # (duplicates of --silent only end lists of values)
            cfg, _ = pyfhd_setup(p.parse_args(args + ["77"]))
            out = Path(cfg["output_dir"], "config")
            names = [n for n in os.listdir(out) if n.endswith(".yaml")]
            back = []
            inner = dict(cfg, checkpoint_dir=Path("x"), visibilities_path=Path("y"), metadata_dir=Path("z"))
            f(inner, out, "-final")
            for n in [*names, cfg["log_name"] + "-final.yaml"]:
                err = io.StringIO()
                try:
                    with contextlib.redirect_stderr(err):
                        back.append(dict(vars(pyfhd_parser().parse_args(["-c", str(out / n), "77"]))))
                except SystemExit as e:
                    back.append(f"refused: {err.getvalue()[-300:]}")
            return dict(cfg), back, [x.dest for x in p._actions]

    def ensures(self, c, a, old, r):
        cfg, back, dests = r
        same = lambda x, y: str(x) == str(y) if isinstance(y, (str, Path)) and isinstance(x, (str, Path)) else x == y
        for q in back:
            yield f"the written configuration is accepted when it is fed back ({q if isinstance(q, str) else ''})", isinstance(q, dict)
            for k in dests:
                if k not in ("help", "version", "config", "grid_psf_file_sav", "grid_psf_file_npz"):
                    yield f"{k} is the same when the written configuration is fed back ({cfg[k]!r})", k in q and same(q[k], cfg[k])
