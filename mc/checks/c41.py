"""C41 - operations on spectra change only what they are about, never their inputs, and lose no history."""

import copy
import json
import os
import shutil
import warnings

import numpy as np

from mc import build as B
from mc import table as T
from mc.core import digest
from mc.pscutil import fresh

PID = "C41"
LEVEL = "model_checking"
RULE = (
    "All sequences, up to the depth bound, over an alphabet of the operations on spectrum objects (in place and copying forms of selection, averaging, "
    "folding, Delta^2, new cosmology, exact windows, approximate covariance, errors, statistics, spherical and delay binning, bootstrap, combination, "
    "common selection, subtraction), from several kinds of object whose every attribute is distinctive. After each step every attribute outside the "
    "documented reach of the operation must be what it was, the history must still contain the earlier one, inputs of copying forms must be "
    "unchanged and share no array with the result, and the copying form must equal the one in place. In every state, and every state one step away, each of "
    "the reading methods is called twice: they must leave the object as it is, and answer the same again. States are distinct contents; transitions operations."
)
ASSUMPTIONS = ["values of what an operation does change are the subject of the other properties", "sequences of two operations (thorough: three)"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((4, 5), (1, 2))]
CFG = {
    "full": dict(blps=BL, tps=[(0, 0), (1, 2)], spws=[(0, 5, 5), (10, 6, 6)], pols=[(-5, -5), (-6, -6)], cov=True, stats=["e", "P_N"], omega=True, history="made;"),
    "bare": dict(blps=BL[:2], tps=[(0, 1), (2, 2)], order="tb", spws=[(3, 7, 7)], pols=[(-6, -6)], win=False, omega=True, history="bare;"),
    "exact": dict(blps=BL[:2], tps=[(0, 0), (1, 2)], spws=[(0, 5, 5), (10, 5, 5)], pols=[(-5, -5)], exact=True, stats=["P_N"], omega=True, history="ex;"),
    "other": dict(blps=BL, tps=[(0, 0), (1, 2)], spws=[(0, 6, 6)], pols=[(-5, -5), (-6, -6)], stats=["e"], omega=True, history="oth;", labels="const"),
}
WORDS = {
    "full": dict(weighting="iC", norm="H^-1", taper="bh", cov_model="dsets"),
    "bare": dict(weighting="w2", norm="n2", taper="hann"),
    "exact": dict(weighting="identity", norm="I", taper="blackmanharris"),
    "other": dict(weighting="dayenu", norm="V^-1/2", taper="none"),
}

# what may change: names of groups of attributes
SPW = "spw_array freq_array dly_array spw_freq_array spw_dly_array Nspws Nspwfreqs Nspwdlys Nfreqs Ndlys scalar_array".split()
POL = "polpair_array Npols scalar_array OmegaP OmegaPP".split()
ROW = """blpair_array time_1_array time_2_array time_avg_array lst_1_array lst_2_array lst_avg_array Nbltpairs Nblpairs Ntpairs Ntimes Nbls
bl_array bl_vecs""".split()
WIN = "window_function_array window_function_kperp window_function_kpara".split()
COV = "cov_array_real cov_array_imag".split()
WGT = "wgt_array integration_array nsample_array".split()
LBL = "label_1_array label_2_array".split()
CELL = ["data_array", "stats_array"] + WGT + WIN + COV + LBL
ALL = CELL + ROW + POL + SPW + ["labels"]


def start(name):
    u = B.uvp(**CFG[name])
    for s in getattr(u, "stats_array", {}):
        for i in range(u.Nspws):
            u.stats_array[s][i] = u.stats_array[s][i].real + 0j
    for k, v in WORDS[name].items():
        setattr(u, k, v)
    if not CFG[name].get("cov"):
        del u.cov_model
    if name in ("full", "exact"):  # weighting parameters of every visibility
        from hera_pspec.uvpspec_utils import compress_r_params

        u.r_params = compress_r_params({b + (p,): {"filter_centers": [0.0], "filter_half_widths": [float(b[0])]} for blp in CFG[name]["blps"] for b in blp for p in ("xx", "yy")[: u.Npols]})
    return u


def cosmo():
    from hera_pspec import conversions

    return conversions.Cosmo_Conversions(H0=61.0)


def ftbeam():
    from hera_pspec.uvwindow import FTBeam

    from mc.checks.c33 import MAP, beam_data

    return FTBeam(data=beam_data("skew", 24), pol="pI", freq_array=B.F0 + B.DF * np.arange(24), mapsize=MAP)


def attributes(u):
    return {k: v for k, v in u.__dict__.items() if not k.startswith("_") and type(v).__name__ != "PSpecParam" and k not in ("symmetric_taper", "git_hash")}


def snap(u):
    return {k: copy.deepcopy(v) for k, v in attributes(u).items()}


def equal(a, b, tol=0.0):
    if type(a).__name__ == "Cosmo_Conversions" or type(b).__name__ == "Cosmo_Conversions":
        return type(a) is type(b) and a.get_params() == b.get_params()
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return T.same(a, b, tol, tol) if np.asarray(a).dtype.kind in "fciu" else T.same(a, b)
    if hasattr(a, "data_array") and hasattr(b, "data_array"):
        return equal(snap(a), snap(b), tol)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * abs(b)
    return bool(a == b)


def changed(before, after, may, tol=0.0):
    if before.get("r_params") != after.get("r_params") and before.get("r_params"):  # the order of its text is free
        before, after = (dict(x, r_params=json.loads(x.get("r_params") or "{}")) for x in (before, after))
        for x in (before, after):
            x["r_params"] = {tuple(b): {k: v for k, v in g.items() if k != "baselines"} for g in x["r_params"].values() for b in g["baselines"]}
    return sorted(k for k in set(before) | set(after) if k not in may and k != "history" and not (k in before and k in after and equal(before[k], after[k], tol)))


def arrays(v):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from arrays(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrays(x)


def shared(u, w):
    """Attributes of w that share memory with an array of u."""
    mine = [(k, a) for k, v in attributes(u).items() for a in arrays(v)]
    out = []
    for k, v in attributes(w).items():
        for a in arrays(v):
            if any(np.may_share_memory(a, b) and np.shares_memory(a, b) for _, b in mine):
                out.append(k)
                break
    return out


class Op:
    """run(u) -> results (list of new objects; None: in place). may: attributes it is about."""

    def __init__(self, run, may, inplace=None):
        self.run, self.may, self.inplace = run, set(may), inplace
        self.whole = may is ALL  # put together again: the same cells


def two(u):
    """Another object with the same labels but other values."""
    w = copy.deepcopy(u)
    for i in w.data_array:
        w.data_array[i] = w.data_array[i] * 0.5 + 1j
    w.history = "second;"
    return w


def operations():
    from hera_pspec import grouping, testing, uvpspec  # noqa: F401
    from hera_pspec import uvpspec_utils as uu
    from hera_pspec.uvpspec import combine_uvpspec, get_uvp_overlap, recursive_combine_uvpspec  # noqa: F401

    def first_bl(u):
        return list(dict.fromkeys(u.blpair_array.tolist()))

    def both(f, may, **kw):
        """The in-place and the copying form of one method."""
        return (Op(lambda u: f(u, True), may, inplace=True, **kw), Op(lambda u: [f(u, False)], may, **kw))

    ops = {}

    def add(name, pair):
        ops[name + "!"], ops[name] = pair

    def sel(**kw):
        return lambda u, ip: u.select(inplace=ip, **{k: (v(u) if callable(v) else v) for k, v in kw.items()})

    add("sel:spw", both(sel(spws=lambda u: [u.Nspws - 1]), CELL + SPW))
    add("sel:pol", both(sel(polpairs=lambda u: [u.polpair_array[-1]]), CELL + POL))
    add("sel:blp", both(sel(blpairs=lambda u: first_bl(u)[:1]), CELL + ROW))
    add("sel:time", both(sel(times=lambda u: [np.unique(u.time_avg_array)[0]]), CELL + ROW))
    add("avg:time", both(lambda u, ip: u.average_spectra(time_avg=True, inplace=ip, add_to_history="AVG"), CELL + ROW))
    add("avg:blp", both(lambda u, ip: u.average_spectra(blpair_groups=[first_bl(u)], inplace=ip), CELL + ROW))
    ops["fold!"] = Op(lambda u: u.fold_spectra(), ["data_array", "stats_array", "folded"] + COV + WIN + WGT, inplace=True)
    add("deltasq", both(lambda u, ip: u.convert_to_deltasq(inplace=ip), ["data_array", "stats_array", "norm_units"] + COV))
    ops["cosmo!"] = Op(lambda u: u.set_cosmology(cosmo(), overwrite=True, verbose=False), ["data_array", "stats_array", "cosmo", "scalar_array"] + COV, inplace=True)
    add("appcov", both(lambda u, ip: u.add_approximate_covariance("P_N", inplace=ip, taper="none"), COV))
    ops["stat!"] = Op(lambda u: [u.set_stats("new", k, np.ones((len(u.key_to_indices(k)[1]), u.data_array[k[0]].shape[1]))) for k in u.get_all_keys()] and None, ["stats_array"], inplace=True)
    ops["slice!"] = Op(lambda u: u.set_stats_slice(sorted(u.stats_array)[0], 0.0, 1e-7, above=True), ["stats_array"], inplace=True)

    def exact(u, ip):
        r = u.get_exact_window_functions(ftbeam=ftbeam(), inplace=ip)
        if ip:
            return None
        w = copy.copy(u)  # the functions come back by themselves
        w.__dict__ = dict(u.__dict__)
        w.window_function_kperp, w.window_function_kpara, w.window_function_array = r
        return w

    ops["exact!"] = Op(lambda u: exact(u, True), WIN + ["exact_windows"], inplace=True)
    ops["exact"] = Op(lambda u: [exact(u, False)], WIN)
    ops["sph"] = Op(lambda u: [grouping.spherical_average(u, np.arange(0.1, 2.0, 0.3), np.full(7, 0.3), add_to_history="S")], CELL + ROW + SPW)
    ops["dlybin"] = Op(lambda u: [grouping.average_in_delay_bins(u, np.array([0.25, 0.5, 0.25]), cov_weighted_stats=())], CELL + SPW)

    def boot(u):
        r = grouping.bootstrap_resampled_error(u, blpair_groups=[first_bl(u)], Nsamples=3, seed=1, normal_std=True, verbose=False)
        return list(r[:1]) + list(r[1]) if isinstance(r[1], list) else [r[0]]

    ops["boot"] = Op(boot, CELL + ROW)

    def bootavg(u):
        r, w = grouping.bootstrap_average_blpairs([u], [first_bl(u)], seed=2)
        return list(r)

    ops["bootavg"] = Op(bootavg, CELL + ROW)

    def split(u):
        a = [u.select(spws=[i], inplace=False) for i in range(u.Nspws)]
        return [combine_uvpspec(a, verbose=False) if len(a) > 1 else a[0]]

    ops["recombine"] = Op(split, ALL)

    def splitp(u):
        a = [u.select(polpairs=[p], inplace=False) for p in u.polpair_array]
        return [recursive_combine_uvpspec(a)]

    ops["recombine:pol"] = Op(splitp, ALL)
    ops["add"] = Op(lambda u: [u.select(times=[np.unique(u.time_avg_array)[0]], inplace=False) + u.select(times=np.unique(u.time_avg_array)[1:], inplace=False)], ALL)
    ops["common"] = Op(lambda u: uu.select_common([u, two(u)], inplace=False)[:1], [])
    ops["sub"] = Op(lambda u: [uu.subtract_uvp(u, two(u))], ["data_array", "stats_array"] + WGT + WIN + COV)
    return ops


def readers():
    from hera_pspec import plot, utils, uvpspec  # noqa: F401
    from hera_pspec import uvpspec_utils as uu

    def keyed(name, *a, **kw):
        return lambda u: [getattr(u, name)(*a, k, **kw) for k in u.get_all_keys()]

    def stats(u):
        return [u.get_stats(s, k) for s in u.stats_array for k in u.get_all_keys()]

    def stored(u):
        root = fresh()
        p = os.path.join(root, "a.h5")
        u.write_hdf5(p)
        w = uvpspec.UVPSpec()
        w.read_hdf5(p)
        shutil.rmtree(root, ignore_errors=True)
        return {k: v for k, v in snap(w).items()}

    def drawn(u):
        import matplotlib

        matplotlib.use("agg")
        import matplotlib.pyplot as plt

        blps = list(dict.fromkeys(u.blpair_array.tolist()))
        for f in (lambda: plot.delay_spectrum(u, [[b] for b in blps], 0, u.polpair_array[0], average_blpairs=False, average_times=True, delay=False, deltasq=True), lambda: plot.delay_waterfall(u, [[b] for b in blps], 0, u.polpair_array[0])):
            try:
                f()
            finally:
                plt.close("all")

    out = dict(
        data=keyed("get_data"), wgts=keyed("get_wgts"), ints=keyed("get_integrations"), nsmp=keyed("get_nsamples"), flags=keyed("get_data", omit_flags=True),
        dlys=lambda u: [u.get_dlys(k[0]) for k in u.get_all_keys()], seps=lambda u: u.get_blpair_seps(), vecs=lambda u: u.get_blpair_blvecs(), vecs2=lambda u: u.get_blpair_blvecs(use_second_bl=True),
        kperps=lambda u: [u.get_kperps(i) for i in range(u.Nspws)], kparas=lambda u: [u.get_kparas(i) for i in range(u.Nspws)], blps=lambda u: u.get_blpairs(), pols=lambda u: u.get_polpairs(), keys=lambda u: u.get_all_keys(),
        ranges=lambda u: u.get_spw_ranges(), enu=lambda u: u.get_ENU_bl_vecs(), rp=lambda u: u.get_r_params(), red=lambda u: u.get_red_bls()[1:], redp=lambda u: u.get_red_blpairs()[0],
        noise=lambda u: [u.generate_noise_spectra(i, p, 300.0) for i in range(u.Nspws) for p in u.polpair_array], scalar=lambda u: [u.compute_scalar(i, p, num_steps=50) for i in range(u.Nspws) for p in u.polpair_array],
        text=lambda u: str(u), units=lambda u: u.units, check=lambda u: u.check(), same=lambda u: u == copy.deepcopy(u), store=stored, reds=lambda u: utils.get_blvec_reds(u)[:3], overlap=lambda u: uvpspec.get_uvp_overlap([u, u.select(polpairs=[u.polpair_array[0]], inplace=False)], verbose=False)[0] if u.Npols > 1 else None, plots=drawn,
        idx=lambda u: [u.key_to_indices(k) for k in u.get_all_keys()] + [u.spw_indices(s) for s in u.get_spw_ranges()] + [u.time_to_indices(t) for t in u.time_avg_array],
    )
    cov = dict(covr=keyed("get_cov"), covi=keyed("get_cov", component="imag"))
    win = dict(win=keyed("get_window_function"))
    st = dict(stats=stats)
    return out, dict(cov_array_real=cov, window_function_array=win, stats_array=st)


# operations that do not apply to an object, by the state of the object
def applies(name, u):
    n = name.rstrip("!")
    if n in ("appcov",) and "P_N" not in getattr(u, "stats_array", {}):
        return False
    if n in ("appcov",) and any(np.sum(u.spw_dly_array == i) != np.sum(u.spw_freq_array == i) for i in range(u.Nspws)):
        return False
    if n == "slice" and not getattr(u, "stats_array", {}):
        return False
    if n == "add" and len(np.unique(u.time_avg_array)) < 2:
        return False
    binned = any(np.sum(u.spw_dly_array == i) != np.sum(u.spw_freq_array == i) for i in range(u.Nspws))
    if n in ("sph", "dlybin", "exact") and (u.folded or not np.any(u.bl_vecs)):  # delays no longer in order about zero
        return False
    if n == "exact" and binned:
        return False
    if n == "dlybin" and len(u.dly_array) < 6:
        return False
    return not (n == "fold" and (u.folded or not np.any(u.bl_vecs)))


def tasks(tier, seed):
    names = list(operations())
    return [dict(cfg=c, first=n, tier=tier) for c in CFG for n in names]


def perform(rec, name, op, u, tr, strict):
    """Run one operation with all the checks; the object to go on with, or None."""
    before = snap(u)
    tr = dict(tr)
    rec.step()
    rec.trace()
    work = u
    if op.inplace:
        work = copy.deepcopy(u)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            out = op.run(work)
        except Exception as e:  # noqa: BLE001
            rec.evaluations += 1
            rec.fail(f"{name}:raised", f"{type(e).__name__}: {e}", tr)
            rec.outcome((name, type(e).__name__))
            bad = changed(before, snap(u), ())
            rec.expect(op.inplace or not bad, f"{name}:input", f"changed {bad} of the input and raised {type(e).__name__}", tr)
            return None
    res = [work] if op.inplace else list(out)
    if op.inplace:
        rec.expect(out is None, f"{name}:returns", f"{type(out)}", tr) if name != "appcov!" else None
    else:
        bad = changed(before, snap(u), ())
        rec.expect(not bad and u.history == before["history"], f"{name}:input", f"changed {bad} of the input", tr)
    for w in res:
        after = snap(w)
        # in later steps the labels of averaged spectra stand for others, whose parameters a selection drops
        bad = changed(before, after, op.may | (set() if strict and name.rstrip("!") not in ("sel:pol", "sel:blp") else {"r_params"}))
        rec.expect(not bad, f"{name}:frame:{bad[0] if bad else ''}", f"changed {bad}: {[(before.get(k), after.get(k)) for k in bad[:1]]}", tr)
        rec.expect(before["history"] in w.history, f"{name}:history", f"{before['history']!r} lost in {w.history!r}", tr)
        if op.whole:
            d = T.diff(T.table(w), T.table(u))
            rec.expect(d is None, f"{name}:content", str(d), tr)
        if not op.inplace and name != "exact":
            bad = shared(u, w)
            rec.expect(not bad, f"{name}:shared:{bad[0] if bad else ''}", f"the result shares {bad} with the input", tr)
    rec.state(digest_of(res[0]))
    return None if name == "exact" else res[0]


def digest_of(u):
    return digest({k: (v.get_params() if k == "cosmo" and hasattr(v, "get_params") else v) for k, v in attributes(u).items()})


def read(rec, u, tr):
    out, more = readers()
    for a, m in more.items():
        if hasattr(u, a):
            out.update(m)
    before = snap(u)
    for name, f in out.items():
        tt = dict(tr, reader=name)
        rec.step()
        got = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for _ in range(1 if name in ("plots", "store") else 2):
                try:
                    got.append(f(u))
                except Exception as e:  # noqa: BLE001
                    got.append(type(e).__name__)
                    rec.outcome(("read", name, type(e).__name__))
        bad = changed(before, snap(u), ())
        rec.expect(not bad and u.history == before["history"], f"read:{name}:changed", f"changed {bad}", tt)
        if bad:
            for k in list(u.__dict__):
                if not k.startswith("_") and k not in before:
                    delattr(u, k)
            for k, v in before.items():
                setattr(u, k, copy.deepcopy(v))
        if len(got) > 1:
            rec.expect(equal(got[0], got[1]), f"read:{name}:again", "another answer the second time", tt)


def run(task, rec):
    ops = operations()
    name = task["first"]
    u = start(task["cfg"])
    rec.state(digest_of(u))
    tr = dict(cfg=task["cfg"], ops=[name])
    if name == next(iter(ops)):
        read(rec, u, dict(cfg=task["cfg"], ops=[]))
    if not applies(name, u):
        return
    w = perform(rec, name, ops[name], u, tr, True)
    if w is None:
        return
    if name + "!" in ops and name != "exact":
        # the form in place comes to the same
        v = copy.deepcopy(u)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ops[name + "!"].run(v)
        bad = changed(snap(v), snap(w), ())
        rec.expect(not bad and v.history == w.history, f"{name}:inplace", f"differs in {bad} from the form in place", tr)
    read(rec, w, tr)
    explore(rec, ops, w, tr, 1 if task["tier"] == "quick" else 2)
    rec.sample(tr)


def explore(rec, ops, u, tr, depth):
    if depth == 0:
        return
    for n, op in ops.items():
        if not applies(n, u):
            continue
        if depth == 1 and n.rstrip("!") == "exact" and len(tr["ops"]) > 0 and n.endswith("!"):
            continue
        t2 = dict(tr, ops=tr["ops"] + [n])
        w = perform(rec, n, op, u, t2, False)
        if w is not None:
            explore(rec, ops, w, t2, depth - 1)
