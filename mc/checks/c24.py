"""C24 - the pipeline driver stores exactly what the documented steps, done one at a time, produce."""

import glob
import itertools
import os
import runpy
import shutil
import sys
import warnings

import numpy as np

from mc import build as B
from mc import table as T
from mc import uvd as V
from mc.pscutil import fresh

PID = "C24"
LEVEL = "model_checking"
RULE = (
    "All pairs (thorough: also triples over a core) of non-default option values of pspec_run: data source (objects, files, lists of files, patterns), number "
    "of datasets, labels, dataset pairs, group and name, windows, delay counts, polarization pairs, baseline-pairs or redundancy options, "
    "weighting, normalization, taper, covariance, beam, cosmology, interleaving, rephasing, trimming, flag broadcasting, unit "
    "conversion, overwriting, history. For each, the container is compared bit for bit (names, data, labels, metadata) with the documented "
    "steps carried out one by one on the individual operations. The command-line script is run with every option spelling and compared with the function. "
    "States are distinct stored containers; transitions are calls."
)
ASSUMPTIONS = [
    "the individual steps (pair selection, trimming, broadcasting, estimation) are the subject of C19-C23, C28",
    "options that contradict each other (interleaving several datasets, missing beams) must be refused or are left out",
]

NF, NT = 8, 6
KEY = ("xx", "yy")


def flags(bl, pol, t, nf):
    f = np.zeros(nf, bool)
    if bl == (0, 1) and t % 3 == 1:
        f[2] = True
    if bl == (1, 2) and t == 2:
        f[:] = True
    return f


def nsamp(bl, pol, t, nf):
    return 1.0 + (t + (pol == -6)) % 2


def dsets(n, nt=NT, std=False):
    kw = dict(bls=((0, 1), (1, 2), (2, 3), (0, 2), (1, 3)), nf=NF, pols=(-5, -6), ants=(0, 1, 2, 3), autos=True, flags=flags, nsamp=nsamp)
    t = [tuple(range(nt)), tuple(range(1, nt + 1)), tuple(range(nt))]
    if std:
        return [V.cached(salt=60 + i, **dict(kw, times=t[i], flags=None)) for i in range(n)]
    return [V.cached(salt=i, **dict(kw, times=t[i])) for i in range(n)]


_BEAM = []


def beam():
    if not _BEAM:
        from hera_pspec import conversions, pspecbeam

        from mc.checks import c27

        c27.memo()
        fr = 1.0e8 + 1e5 * np.arange(NF)
        om = lambda a: {"XX": a * (fr / fr[0]) ** -2, "YY": 1.5 * a * (fr / fr[0]) ** -2.5}  # noqa: E731
        _BEAM.append(pspecbeam.PSpecBeamFromArray(OmegaP=om(0.02), OmegaPP=om(0.01), beam_freqs=fr, cosmo=conversions.Cosmo_Conversions()))
    return _BEAM[0]


def other_cosmo():
    from hera_pspec import conversions

    return conversions.Cosmo_Conversions(H0=55.0, Om_L=0.7, Om_M=0.3)


EXPL = [((0, 1), (0, 1)), ((0, 1), (1, 2)), ((2, 1), (3, 2)), ((0, 2), (1, 3)), ((0, 5), (0, 1))]
RP = dict(filter_centers=[0.0], filter_half_widths=[1e-6], filter_factors=[1e-3])


def r_params():
    return {k + (p,): RP for k in ((0, 1), (1, 2), (2, 3), (0, 2), (1, 3)) for p in KEY}


_KNOWN = {}


def known_cov(model):
    """Covariances for every pair of datasets, polarizations and the explicit baseline-pairs."""
    from mc.checks.c38 import CONJ

    if model not in _KNOWN:
        g, out = np.random.default_rng(24), {}
        for blp, p, q, dp, t in itertools.product(EXPL[:4], KEY, KEY, itertools.product(range(3), range(3)), [None] + list(range(NT))):
            k = [(dp[0], blp[0] + (p,)), (dp[1], blp[1] + (q,))]
            for piece, conj in CONJ.items():
                for a, b in itertools.product(k, k):
                    key = ((a[0], b[0]), (a[1], b[1]), model, t) + tuple(conj)
                    if key not in out:
                        m = g.normal(size=(NF, NF)) + 1j * g.normal(size=(NF, NF))
                        out[key] = m @ m.conj().T
        _KNOWN[model] = out
    return dict(_KNOWN[model])


DIMS = {
    "n": {"1": dict(n=1), "3": dict(n=3)},
    "src": {"file": dict(src="file"), "list": dict(src="list"), "glob": dict(src="glob")},
    "labels": {"given": dict(labels=["aa", "bb", "cc"])},
    "pairs": {"same": dict(dset_pairs=[(0, 0)]), "back": dict(dset_pairs=[(1, 0)]), "two": dict(dset_pairs=[(0, 1), (1, 1)])},
    "group": {"g": dict(groupname="grp")},
    "ext": {"x": dict(psname_ext="-x")},
    "spw": {"one": dict(spw_ranges=[(0, 5)]), "two": dict(spw_ranges=[(3, 8), (0, 4)])},
    "dly": {"n": dict(n_dlys=True)},
    "pol": {"xx": dict(pol_pairs=[("xx", "xx")]), "mix": dict(pol_pairs=[("xx", "yy"), ("yy", "yy")])},
    "blp": {
        "expl": dict(blpairs=EXPL), "noauto": dict(exclude_auto_bls=True), "nocross": dict(exclude_cross_bls=True), "perm": dict(exclude_permutations=False),
        "len": dict(bl_len_range=(20.0, 100.0)), "deg": dict(bl_deg_range=(0.0, 60.0)), "auto": dict(include_autocorrs=True),
        "onlyauto": dict(include_autocorrs=True, include_crosscorrs=False), "group": dict(Nblps_per_group=2), "tol": dict(bl_error_tol=40.0), "xant": dict(xant_flag_thresh=0.1),
    },
    "w": {"iC": dict(input_data_weight="iC"), "dayenu": dict(input_data_weight="dayenu", r_params=True)},
    "norm": {"H": dict(norm="H^-1"), "exact": dict(exact_norm=True, need_beam=True)},
    "taper": {"hann": dict(taper="hann"), "asym": dict(taper="hann", symmetric_taper=False)},
    "sampling": {"T": dict(sampling=True)},
    "win": {"F": dict(store_window=False)},
    "cov": {"emp": dict(store_cov=True), "diag": dict(store_cov_diag=True, cov_model="autos"), "autos": dict(store_cov=True, cov_model="autos"), "std": dict(store_cov=True, cov_model="dsets", std=True), "fg": dict(store_cov=True, cov_model="foreground_dependent"), "known": dict(store_cov=True, cov_model="mine", known_cov=True), "knownd": dict(store_cov_diag=True, cov_model="empirical", known_cov=True)},
    "q": {"q": dict(return_q=True)},
    "beam": {"b": dict(need_beam=True), "c": dict(need_beam=True, cosmo=True), "jy": dict(need_beam=True, Jy2mK=True)},
    "time": {"inter": dict(n=1, interleave_times=True), "trim": dict(trim_dset_lsts=True), "rephase": dict(rephase_to_dset=0), "rephase1": dict(rephase_to_dset=1)},
    "flag": {"none": dict(broadcast_dset_flags=False), "thr": dict(time_thresh=0.6)},
    "fft": {"T": dict(allow_fft=True)},
    "ext2": {"e": dict(filter_extensions=True)},
    "hist": {"h": dict(history="my history")},
    "over": {"again": dict(twice=True), "keep": dict(twice=True, overwrite=False)},
    "exact": {"obj": dict(exact_windows=True, ftbeam="obj", need_beam=True), "file": dict(exact_windows=True, ftbeam="file", need_beam=True)},
    "verbose": {"F": dict(verbose=False)},
}
CORE = ["n", "pairs", "pol", "spw", "blp", "time", "flag", "cov"]


LOAD = {"src", "n", "blp", "pol", "cov", "time", "pairs", "exact"}  # what decides which data are read from files
QUICK = {"src": ("file", "list"), "blp": ("expl", "onlyauto"), "cov": ("autos", "fg", "std", "known"), "time": ("inter", "trim"), "pairs": ("back", "same"), "n": ("1", "3")}


def combos(tier):
    vals = [(d, v) for d in DIMS for v in DIMS[d]]
    out = [()] + [(a,) for a in vals]
    out += [c for c in itertools.combinations(vals, 2) if c[0][0] != c[1][0]]
    core = CORE if tier == "thorough" else None
    for c in itertools.combinations(vals, 3):
        d = {x[0] for x in c}
        if len(d) == 3 and (d <= LOAD and ("src" in d) or core and d <= set(core)):
            if d <= LOAD and tier != "thorough" and not all(x[1] in QUICK.get(x[0], x[1]) for x in c):
                continue
            out.append(c)
    return out


def tasks(tier, seed):
    V.warm()
    cs = combos(tier)
    k = 24
    out = [dict(mode="pairs", opts=[[list(x) for x in c] for c in cs[i::k]]) for i in range(k)]
    if tier == "thorough":
        k = 96
        out = [dict(mode="pairs", opts=[[list(x) for x in c] for c in cs[i::k]]) for i in range(k)]
    return out + [dict(mode="script", k=i) for i in range(3)] + [dict(mode="refuse")]


def options(c):
    o = dict(n=2)
    for d, v in c:
        if "n" in DIMS[d][v] and d == "time" and any(x[0] == "n" and x[1] != "1" for x in c):
            return None  # several datasets cannot be interleaved (refused: mode 'refuse')
        o.update(DIMS[d][v])
    if o.get("rephase_to_dset") == 1 and o["n"] == 1:
        return None
    if o["n"] == 1 and any(max(p) > 0 for p in o.get("dset_pairs", [])) and not o.get("interleave_times"):
        return None
    if o.get("interleave_times") and "dset_pairs" in o:
        return None
    if o.get("trim_dset_lsts") and o["n"] == 1:
        pass
    if o.get("known_cov"):
        if any(d == "blp" and v != "expl" for d, v in c):
            return None  # the covariances are those of the explicit baseline-pairs
        o["blpairs"] = EXPL[:4]
    if o.get("exact_norm") and o.get("norm"):
        return None
    if o.get("exact_norm") and (o.get("allow_fft") or o.get("filter_extensions")):
        return None  # refused by the estimator (C20)
    if o.get("filter_extensions") and o.get("symmetric_taper") is False and False:
        return None
    return o


def call_args(o):
    """keyword arguments of pspec_run for an option set"""
    kw = {k: v for k, v in o.items() if k not in ("n", "src", "labels", "need_beam", "twice", "std", "cosmo", "r_params", "n_dlys", "filter_extensions", "known_cov")}
    spws = o.get("spw_ranges") or [(0, NF)]
    if o.get("labels"):
        kw["dset_labels"] = o["labels"][: o["n"]]
    if o.get("n_dlys"):
        kw["n_dlys"] = [e - s - 1 for s, e in spws]
    if o.get("filter_extensions"):
        kw["filter_extensions"] = [(1, 1)] * len(spws)
    if o.get("r_params"):
        kw["r_params"] = r_params()
    if o.get("need_beam"):
        kw["beam"] = beam()
    if o.get("cosmo"):
        kw["cosmo"] = other_cosmo()
    if o.get("known_cov"):
        kw["known_cov"] = known_cov(o["cov_model"])
    if "ftbeam" in kw:
        kw["ftbeam"] = ftbeam(kw["ftbeam"])
    if "blpairs" in kw:
        kw["blpairs"] = list(kw["blpairs"])
    return kw


# ------------------------------------------------------------------ data sources
_FILES = {}


def paths(src, n, std=False):
    """File arguments for each dataset; made once per worker."""
    key = (src, n, std)
    if "dir" not in _FILES:
        import atexit

        _FILES["dir"] = fresh()
        atexit.register(shutil.rmtree, _FILES["dir"], True)
    if key not in _FILES:
        out = []
        for i, d in enumerate(dsets(n, std=std)):
            stem = os.path.join(_FILES["dir"], f"{'std' if std else 'd'}{i}")
            if src == "file":
                f = stem + ".uvh5"
                if not os.path.exists(f):
                    d.write_uvh5(f)
                out.append(f)
            else:
                fs = []
                ts = np.unique(d.time_array)
                for j, part in enumerate((ts[:3], ts[3:])):
                    f = f"{stem}.part{j}.uvh5"
                    if not os.path.exists(f):
                        d.select(times=part, inplace=False).write_uvh5(f)
                    fs.append(f)
                out.append(fs if src == "list" else stem + ".part*.uvh5")
        _FILES[key] = out
    return _FILES[key]


def loaded(src, n, std=False):
    """The datasets as they come out of the files, whole."""
    from pyuvdata import UVData

    if src is None:
        return dsets(n, std=std)
    key = ("loaded", src, n, std)
    if key not in _FILES:
        out = []
        for p in paths(src, n, std):
            u = UVData()
            u.read(sorted(glob.glob(p)) if isinstance(p, str) else p)
            out.append(u)
        _FILES[key] = out
    return [V.light(u) for u in _FILES[key]]


_FT = {}


def ftbeam(kind):
    """A beam object of its own, or the common stem of files with one beam per polarization, on the channels of the data."""
    if "obj" not in _FT:
        from hera_pspec.uvwindow import FTBeam

        from mc.checks import c33

        fr = 1.0e8 + 1e5 * np.arange(NF)
        _FT["obj"] = FTBeam(data=c33.beam_data("skew", NF), pol="xx", freq_array=fr, mapsize=c33.MAP)
        paths("file", 1)
        _FT["file"] = os.path.join(_FILES["dir"], "ftb")
        for pol, k in zip(KEY, ("wide", "narrow")):
            c33.write_beam(f"{_FT['file']}_{pol}.hdf5", k, NF, df=1e5, f0=1.0e8)
    return _FT[kind]


# ------------------------------------------------------------------ reference
def reference(o):
    """{(group, name): UVPSpec} from the documented steps done one at a time."""
    from hera_pspec import PSpecData, utils

    n = o["n"]
    ds_in = loaded(o.get("src"), n)
    std = loaded(o.get("src"), n, True) if o.get("std") else None
    labels = o["labels"][:n] if o.get("labels") else [f"dset{i}" for i in range(n)]
    pairs = o.get("dset_pairs") or ([(i, j) for i in range(n) for j in range(i + 1, n)] if n > 1 else [(0, 0)])
    bm = None
    if o.get("need_beam"):
        import copy

        bm = copy.copy(beam())
        if o.get("cosmo"):
            bm.cosmo = other_cosmo()
    if o.get("interleave_times"):
        t = np.unique(ds_in[0].time_array)
        m = len(t) // 2 * 2
        odd, even = [t[i] for i in range(m) if i % 2], [t[i] for i in range(m) if not i % 2]
        if o.get("trim_dset_lsts"):
            pass  # nothing to trim in one dataset
        ds_in = [ds_in[0].select(times=even, inplace=False), ds_in[0].select(times=odd, inplace=False)]
        if std:
            std = [std[0].select(times=even, inplace=False), std[0].select(times=odd, inplace=False)]
        labels = labels + ["dset1"]
        pairs = [(0, 1)]
    ds = PSpecData(ds_in, [None] * len(ds_in), labels=list(labels), dsets_std=std, beam=bm)
    if o.get("trim_dset_lsts") and not o.get("interleave_times"):
        ds.trim_dset_lsts()
    if o.get("rephase_to_dset") is not None:
        ds.rephase_to_dset(o["rephase_to_dset"])
    if o.get("broadcast_dset_flags", True):
        ds.broadcast_dset_flags(time_thresh=o.get("time_thresh", 0.2), spw_ranges=o.get("spw_ranges"))
    if o.get("Jy2mK"):
        ds.Jy_to_mK()
    pols = o.get("pol_pairs") or [("yy", "yy"), ("xx", "xx")]  # by polarization number
    spws = o.get("spw_ranges") or [(0, NF)]
    out = {}
    for i, j in pairs:
        if o.get("blpairs"):
            have = [{frozenset(b) for b in ds.dsets[k].get_antpairs()} for k in (i, j)]
            blps = [(a, b) for a, b in o["blpairs"] if frozenset(a) in have[0] and frozenset(b) in have[1]]
            b1, b2 = [a for a, _ in blps], [b for _, b in blps]
        else:
            b1, b2, *_ = utils.calc_blpair_reds(
                ds.dsets[i], ds.dsets[j], filter_blpairs=True, exclude_auto_bls=o.get("exclude_auto_bls", False), exclude_cross_bls=o.get("exclude_cross_bls", False),
                exclude_permutations=o.get("exclude_permutations", True), Nblps_per_group=o.get("Nblps_per_group"), bl_len_range=o.get("bl_len_range", (0, 1e10)),
                bl_deg_range=o.get("bl_deg_range", (0, 180)), include_autocorrs=o.get("include_autocorrs", False), include_crosscorrs=o.get("include_crosscorrs", True),
                bl_tol=o.get("bl_error_tol", 1.0), xant_flag_thresh=o.get("xant_flag_thresh", 0.95))
        if not len(b1):
            continue
        u = ds.pspec(
            b1, b2, (i, j), pols, spw_ranges=o.get("spw_ranges"), n_dlys=[e - s - 1 for s, e in spws] if o.get("n_dlys") else None,
            input_data_weight=o.get("input_data_weight", "identity"), norm=o.get("norm", "I"), taper=o.get("taper", "none"), sampling=o.get("sampling", False),
            symmetric_taper=o.get("symmetric_taper", True), store_cov=o.get("store_cov", False), store_cov_diag=o.get("store_cov_diag", False),
            return_q=o.get("return_q", False), store_window=o.get("store_window", True), verbose=False, history=o.get("history", ""),
            filter_extensions=[(1, 1)] * len(spws) if o.get("filter_extensions") else None, exact_norm=o.get("exact_norm", False),
            r_params=r_params() if o.get("r_params") else None, known_cov=known_cov(o["cov_model"]) if o.get("known_cov") else None, cov_model=o.get("cov_model", "empirical"), allow_fft=o.get("allow_fft", False))
        if o.get("exact_windows"):
            u.get_exact_window_functions(ftbeam=ftbeam(o["ftbeam"]), x_orientation="east", inplace=True)
        out[o.get("groupname") or "_".join(labels), f"{labels[i]}_x_{labels[j]}{o.get('psname_ext', '')}"] = u
    return out


SKIP = ("symmetric_taper", "history")  # symmetric_taper is not stored (known finding of C06); history holds a time stamp


def compare(rec, f, want, o, tr):
    from hera_pspec import PSpecContainer

    p = PSpecContainer(f, mode="r", keep_open=False)
    tree = {g: sorted(v) for g, v in p.tree(return_str=False).items()} if os.path.exists(f) else {}
    exp = {}
    for g, nme in want:
        exp.setdefault(g, []).append(nme)
    rec.expect(tree == {g: sorted(v) for g, v in exp.items()}, "names", f"stored {tree}, documented {exp}", tr)
    for (g, nme), w in want.items():
        if nme not in tree.get(g, []):
            continue
        got = p.get_pspec(g, nme)
        d = T.attr_diff(T.attrs(got, SKIP), T.attrs(w, SKIP))
        rec.expect(d is None, f"stored:{d and d[0]}", (nme, d and d[1]), tr)
        if o.get("history"):
            rec.expect(o["history"] in got.history, "stored:history", got.history, tr)
        rec.state((sorted(tr["opts"]) if "opts" in tr else 0, nme, np.array([np.abs(x).sum() for x in got.data_array.values()])))
    return p


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"pairs": run_pairs, "script": run_script, "refuse": run_refuse}[task["mode"]](rec, task)


def run_pairs(rec, task):
    for c in task["opts"]:
        c = [tuple(x) for x in c]
        o = options(c)
        if o is None:
            continue
        one(rec, o, dict(mode="pairs", opts=[c]))
    rec.sample(task["opts"][:2])


def driver(o, f, **over):
    from hera_pspec import pspecdata

    kw = dict(call_args(o), **over)
    src = o.get("src")
    a = dsets(o["n"]) if src is None else list(paths(src, o["n"]))
    if src is not None:
        kw["file_type"] = "uvh5"
    if o.get("std"):
        kw["dsets_std"] = dsets(o["n"], std=True) if src is None else list(paths(src, o["n"], True))
    kw.setdefault("verbose", False)
    return pspecdata.pspec_run(a, f, **kw)


def one(rec, o, tr):
    d = fresh()
    try:
        f = os.path.join(d, "out.h5")
        rec.step(2)
        try:
            want = reference(o)
            why = None
        except Exception as e:  # noqa: BLE001
            want, why = None, f"{type(e).__name__}: {e}"
        if o.get("twice"):
            first = dict(o, history="first run")
            if want is not None:
                ok, _ = rec.attempt("first", driver, first, f, trace=tr)
                if not ok:
                    return
        if o.get("twice") and o.get("overwrite") is False and want:
            rec.expect(rec.raises(driver, o, f), "overwrite", "stored spectra were overwritten without being asked", tr)
            compare(rec, f, want, dict(o, history="first run"), tr)
            rec.trace()
            return
        if want is None:
            # the step itself refuses this combination: so must the driver
            rec.expect(rec.raises(driver, o, f), "refused", f"the driver accepts what the steps refuse ({why})", tr)
            rec.outcome(("refused", why[:40]))
            return
        ok, ds = rec.attempt("run", driver, o, f, trace=tr)
        rec.trace()
        if not ok:
            return
        rec.outcome(repr(sorted(want)) + repr(tr["opts"]))
        if not want:
            return
        compare(rec, f, want, o, tr)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ command line
CLI = {  # option value -> command-line words
    "n:1": [], "n:3": [], "labels:given": None, "src:glob": [], "src:list": None,
    "pairs:same": ["--dset_pairs", "0~0"], "pairs:back": ["--dset_pairs", "1 0"], "pairs:two": ["--dset_pairs", "0~1,1~1"],
    "group:g": ["--groupname", "grp"], "ext:x": ["--psname_ext=-x"],
    "spw:one": ["--spw_ranges", "0~5"], "spw:two": ["--spw_ranges", "3 8, 0 4"], "dly:n": ["--n_dlys"],
    "pol:xx": ["--pol_pairs", "xx xx"], "pol:mix": ["--pol_pairs", "xx~yy,yy~yy"],
    "blp:expl": ["--blpairs", "0~1~0~1,0~1~1~2,2~1~3~2,0~2~1~3,0~5~0~1"], "blp:noauto": ["--exclude_auto_bls"], "blp:nocross": ["--exclude_cross_bls"],
    "blp:len": ["--bl_len_range", "20", "100"], "blp:deg": ["--bl_deg_range", "0", "60"], "blp:auto": ["--include_autocorrs"],
    "blp:onlyauto": ["--include_autocorrs", "--exclude_crosscorrs"], "blp:tol": ["--bl_error_tol", "40"], "blp:xant": ["--xant_flag_thresh", "0.1"],
    "w:iC": ["--input_data_weight", "iC"], "norm:H": ["--norm", "H^-1"], "taper:hann": ["--taper", "hann"], "taper:asym": ["--taper", "hann", "--symmetric_taper", "False"],
    "cov:emp": ["--store_cov"], "cov:diag": ["--store_cov_diag", "--cov_model", "autos"], "cov:autos": ["--store_cov", "--cov_model", "autos"], "q:q": ["--return_q"],
    "time:inter": ["--interleave_times"], "time:trim": ["--trim_dset_lsts"], "time:rephase": ["--rephase_to_dset", "0"], "time:rephase1": ["--rephase_to_dset", "1"],
    "fft:T": ["--allow_fft"], "ext2:e": ["--filter_extensions"], "over:again": ["--overwrite"], "verbose:F": [],
}
SYM = [(["--symmetric_taper", s], b) for s, b in (("True", True), ("False", False), ("false", False), ("1", True), ("0", False))]


def script(argv):
    import logging

    import hera_pspec

    path = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(hera_pspec.__file__)))), "scripts", "pspec_run.py")
    old, handlers = sys.argv, logging.getLogger().handlers[:]
    sys.argv = ["pspec_run.py"] + argv
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
        logging.getLogger().handlers[:] = handlers


def run_script(rec, task):
    base = dict(n=2, src="file", broadcast_dset_flags=False, exclude_permutations=False, store_window=False)
    todo = []
    for name, words in CLI.items():
        if words is None:
            continue
        d, v = name.split(":")
        todo.append((name, dict(base, **DIMS[d][v]), list(words)))
    todo += [(f"sym{w[1]}", dict(base, taper="hann", symmetric_taper=b), ["--taper", "hann"] + w) for w, b in SYM]
    todo += [
        ("window", dict(base, store_window=True), ["--store_window"]),
        ("perm", dict(base, exclude_permutations=True), ["--exclude_permutations"]),
        ("bcast", dict(base, broadcast_dset_flags=True, time_thresh=0.6), ["--broadcast_dset_flags", "--time_thresh", "0.6"]),
        ("bcast2", dict(base, broadcast_dset_flags=True), ["--broadcast_dset_flags"]),
        ("std", dict(base, store_cov=True, cov_model="dsets", std=True), ["--store_cov", "--cov_model", "dsets"]),
        ("labels", dict(base, labels=["aa", "bb"]), ["--dset_labels", "aa", "bb"]),
        ("many", dict(base, spw_ranges=[(3, 8), (0, 4)], pol_pairs=[("xx", "yy"), ("yy", "yy")], dset_pairs=[(1, 0)], n_dlys=True), ["--spw_ranges", "3~8,0~4", "--pol_pairs", "xx yy, yy yy", "--dset_pairs", "1~0", "--n_dlys"]),
    ]
    for i, (name, o, words) in enumerate(todo):
        if i % 3 != task["k"]:
            continue
        tr = dict(mode="script", k=task["k"], name=name, words=words)
        spws = o.get("spw_ranges") or [(0, NF)]
        for flag, vals in (("--n_dlys", [str(e - s - 1) for s, e in spws]), ("--filter_extensions", [",".join(["1~1"] * len(spws))])):
            if flag in words:
                k = words.index(flag) + 1
                words[k:k] = vals
        d = fresh()
        try:
            f = os.path.join(d, "out.h5")
            args = list(paths(o["src"], o["n"])) + [f]
            if o.get("std"):
                words += ["--dsets_std"] + list(paths(o["src"], o["n"], True))
            want = reference(o)
            if o.get("twice"):
                script(args)
                if "--overwrite" in words:
                    rec.expect(rec.raises(script, args), "script:overwrite", "a second run without --overwrite replaced the stored spectra", tr)
            rec.step()
            rec.trace()
            # every second run uses the positional arguments first
            ok, _ = rec.attempt("script", script, args + words if i % 2 else words + ["--"] + args, trace=tr)
            if not ok:
                continue
            if want:
                p = compare(rec, f, want, {}, dict(tr, opts=[name]))
                for g, nme in want:
                    rec.expect("out.h5" in p.get_pspec(g, nme).history, "script:history", "the command line is not in the history", tr)
            rec.outcome(("script", name))
        finally:
            shutil.rmtree(d)
    if task["k"] == 0:
        cli_beam(rec)


def cli_beam(rec):
    """--beam and --cosmo reach the beam with the stated cosmology (the beam loader is replaced by a stand-in)."""
    from hera_pspec import pspecbeam

    import copy

    orig = pspecbeam.PSpecBeamUV
    seen = []

    def load(name, cosmo=None):
        seen.append((name, cosmo))
        b = copy.copy(beam())
        if cosmo is not None:
            b.cosmo = cosmo
        return b

    class Loader(orig):
        def __new__(cls, *a, **k):
            return load(*a, **k)

    for nums in (None, ["0.7", "0.05", "0.25", "60.0"], ["0.7", "0.05", "0.25", "60.0", "0.3", "0.0"]):
        d = fresh()
        pspecbeam.PSpecBeamUV = Loader
        tr = dict(mode="script", cosmo=nums)
        try:
            f = os.path.join(d, "out.h5")
            rec.step()
            ok, _ = rec.attempt("script:beam", script, list(paths("file", 2)) + [f, "--beam", "my.beamfits", "--Jy2mK"] + (["--cosmo"] + nums if nums else []), trace=tr)
            pspecbeam.PSpecBeamUV = orig
            if not ok:
                continue
            from hera_pspec import PSpecContainer, conversions

            u = PSpecContainer(f, mode="r").get_pspec("dset0_dset1", "dset0_x_dset1")
            w = conversions.Cosmo_Conversions(*[float(x) for x in nums]) if nums else conversions.Cosmo_Conversions()
            rec.expect(u.cosmo.get_params() == w.get_params(), "script:cosmo", u.cosmo.get_params(), tr)
            rec.expect(seen and seen[-1][0] == "my.beamfits", "script:beamname", seen, tr)
        finally:
            pspecbeam.PSpecBeamUV = orig
            shutil.rmtree(d)


# ------------------------------------------------------------------ refusals and empty results
def run_refuse(rec, task):
    from hera_pspec import pspecdata

    def go(f, n=2, **kw):
        return pspecdata.pspec_run(dsets(n), f, verbose=False, **kw)

    bad = {
        "interleave-two": dict(interleave_times=True), "labels_": dict(dset_labels=["a_b", "c"]), "spw-long": dict(spw_ranges=[(0, NF + 1)]), "spw-back": dict(spw_ranges=[(4, 2)]),
        "spw-neg": dict(spw_ranges=[(-2, 4)]), "spw-3": dict(spw_ranges=[(0, 2, 4)]), "blpairs-type": dict(blpairs=[[(0, 1), (0, 1)]]), "pairs-type": dict(dset_pairs=[[0, 1]]),
        "pairs-range": dict(dset_pairs=[(0, 5)]), "beam-type": dict(beam=3.0), "ext-type": dict(psname_ext=3), "std-len": dict(dsets_std=dsets(1, std=True)), "nopol": dict(pol_pairs=[]), "contradiction": dict(exclude_auto_bls=True, exclude_cross_bls=True), "groups": dict(Nblps_per_group=2),
    }
    for name, kw in bad.items():
        d = fresh()
        try:
            f = os.path.join(d, "out.h5")
            rec.step()
            rec.expect(rec.raises(go, f, **kw), f"refuse:{name}", f"{kw} was accepted", dict(mode="refuse", name=name))
            if os.path.exists(f):
                from hera_pspec import PSpecContainer

                rec.expect(not any(PSpecContainer(f, mode="r").tree(return_str=False).values()), f"refuse:{name}:stored", "a refused run stored spectra", dict(mode="refuse", name=name))
        finally:
            shutil.rmtree(d)
    # nothing matches: warned, nothing stored
    empty = {"blpairs": dict(blpairs=[((0, 5), (0, 5))]), "len": dict(bl_len_range=(900.0, 1000.0))}
    for name, kw in empty.items():
        d = fresh()
        try:
            f = os.path.join(d, "out.h5")
            tr = dict(mode="refuse", empty=name)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                ok, _ = rec.attempt("empty", go, f, trace=tr, **kw)
            rec.step()
            rec.expect(any("no output" in str(x.message) for x in w), "empty:warned", name, tr)
            if os.path.exists(f):
                from hera_pspec import PSpecContainer

                rec.expect(not any(PSpecContainer(f, mode="r").tree(return_str=False).values()), "empty:stored", name, tr)
        finally:
            shutil.rmtree(d)
    # files without the baselines
    d = fresh()
    try:
        f = os.path.join(d, "out.h5")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ok, ds = rec.attempt("empty:file", pspecdata.pspec_run, list(paths("file", 2)), f, blpairs=[((0, 5), (0, 5))], file_type="uvh5", verbose=False, trace=task)
        rec.step()
        rec.expect(ok and ds is None and any("no output" in str(x.message) for x in w), "empty:file", ds, task)
    finally:
        shutil.rmtree(d)
    rec.state("refuse")
    rec.outcome("refuse")
