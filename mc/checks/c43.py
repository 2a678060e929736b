"""C43 - results do not depend on how visibilities are laid out in their files."""

import contextlib
import io
import itertools
import warnings

import numpy as np

from mc import table as T
from mc import uvd as V
from mc.checks import c31

PID = "C43"
LEVEL = "model_checking"
RULE = (
    "One set of visibilities is stored in every layout of {every order of the baselines x time or baseline axis fastest x ragged interleavings, every "
    "joint order of the integrations, reversed polarizations, every subset of baselines stored with their antennas exchanged, permuted antenna table, further "
    "antennas and baselines}; every pair of layouts of the two datasets is taken through pspec with and without covariances, and every preparation step "
    "{flag broadcasting, trimming, rephasing, unit conversion, pseudo-Stokes, time differences, system temperatures and noise errors, pspec from "
    "data} is run on every layout. Every value must be found under the same labels as in the reference layout. States are (layouts, step)."
)
ASSUMPTIONS = ["integrations of two datasets are paired by position, so both datasets share the order of integrations",
               "data to be rephased whose baselines interleave irregularly are in order of time (hera_cal reorders other data)"]
BLS = ((0, 1), (1, 2), (2, 3))
B1, B2 = [(0, 1), (1, 2), (0, 1)], [(1, 2), (2, 3), (2, 3)]
NT, NF = 3, 7
POLS = (-5, -6)
ROW = ("data_array", "flag_array", "nsample_array", "integration_time", "time_array", "lst_array", "uvw_array", "ant_1_array", "ant_2_array", "baseline_array",
       "phase_center_id_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa")


def layouts(full):
    """name -> (order of baselines, major, order of times, reversed baselines, reversed pols, antenna order, extras)"""
    base = dict(bl=(0, 1, 2), major="time", t=(0, 1, 2), conj=(), pols=False, ants=False, extra=False)
    out = {"ref": base}
    for p in itertools.permutations(range(3)):
        for m in ("time", "bl", "ragged"):
            out[f"rows{p}{m}"] = dict(base, bl=p, major=m)
    for n in (1, 2, 3):
        for c in itertools.combinations(range(3), n):
            out[f"conj{c}"] = dict(base, conj=c)
    out["pols"] = dict(base, pols=True)
    out["ants"] = dict(base, ants=True)
    out["extra"] = dict(base, extra=True)
    out["mix"] = dict(base, bl=(2, 0, 1), major="ragged", conj=(1,), pols=True, ants=True, extra=True)
    out["mix2"] = dict(base, bl=(1, 0, 2), major="bl", conj=(0, 2), pols=True, ants=True)
    return out


def joint(full):
    """orders of integrations, used for all datasets alike"""
    return list(itertools.permutations(range(3)))


def flags(b, p, t, n):
    a, c = sorted(b)
    return np.array([(a + 2 * c + t * 3 + k + p) % 6 == 0 or (t == 1 and (a, c) == (1, 2) and p == -6) for k in range(n)])


def nsamples(b, p, t, n):
    return 1.0 + (np.arange(n) + t + sum(b) - p) % 3


_RAW = {}


def data(salt, ly, t=None, shift=0, units="Jy", times=(0, 1, 2)):
    key = (salt, ly["extra"], units, times)
    if key not in _RAW:
        # the fourth baseline (0, 3) and antenna 4 are there in one layout only
        bls = BLS + (((0, 3), (1, 3)) if ly["extra"] else ())
        _RAW[key] = V.uvdata(bls=bls, times=times, nf=NF, salt=salt, pols=POLS, flags=flags, nsamp=nsamples, autos=True, units=units,
                             ants=(0, 1, 2, 3, 4) if ly["extra"] else (0, 1, 2, 3), integ=lambda b, k: 10.0 + k + sum(b), df=1e6)
    u = V.light(_RAW[key])
    t = t or ly["t"]
    tt = np.unique(u.time_array)
    bl = {(int(a), int(b)) for a, b in zip(u.ant_1_array, u.ant_2_array)}
    first = [BLS[i] for i in ly["bl"]]
    rest = sorted(bl - set(BLS))
    order = rest[:2] + first + rest[2:] if ly["bl"][0] else first + rest
    if ly["major"] == "time":
        seq = [(b, k) for k in t for b in order]
    elif ly["major"] == "bl":
        seq = [(b, k) for b in order for k in t]
    else:  # each baseline a step later than the one before
        seq = sorted(((b, k) for b in order for k in t), key=lambda x: (order.index(x[0]) + 2 * t.index(x[1]), order.index(x[0])))
    where = {(int(a), int(b), int(np.argmin(abs(tt - x)))): n for n, (a, b, x) in enumerate(zip(u.ant_1_array, u.ant_2_array, u.time_array))}
    idx = np.array([where[b + (k,)] for b, k in seq])
    for k in ROW:
        v = getattr(u, k, None)
        if v is not None:
            setattr(u, k, np.array(v)[idx])
    for c in ly["conj"]:
        r = (u.ant_1_array == BLS[c][0]) & (u.ant_2_array == BLS[c][1])
        u.data_array[r] = u.data_array[r].conj()
        u.uvw_array[r] *= -1
        a, b = u.ant_1_array.copy(), u.ant_2_array.copy()
        a[r], b[r] = BLS[c][1], BLS[c][0]
        u.ant_1_array, u.ant_2_array = a, b
    u.baseline_array = u.antnums_to_baseline(u.ant_1_array, u.ant_2_array)
    u.Nbls, u.Nblts = len(set(u.baseline_array)), len(u.baseline_array)
    u.blt_order = None
    u.blts_are_rectangular = None
    u.time_axis_faster_than_bls = None
    if ly["pols"]:
        u.polarization_array = np.array(u.polarization_array)[::-1].copy()
        for k in ("data_array", "flag_array", "nsample_array"):
            setattr(u, k, getattr(u, k)[:, :, ::-1].copy())
    if ly["ants"]:
        tel = u.telescope.copy()
        p = np.roll(np.arange(tel.Nants)[::-1], 1)
        for k in ("antenna_numbers", "antenna_positions", "antenna_names", "antenna_diameters"):
            v = getattr(tel, k, None)
            if v is not None:
                setattr(tel, k, np.array(v)[p])
        for k in ("feed_array", "feed_angle", "mount_type"):
            v = getattr(tel, k, None)
            if v is not None:
                setattr(tel, k, list(np.array(v)[p]) if k == "mount_type" else np.array(v)[p])
        u.telescope = tel
    if shift:
        u.lst_array = u.lst_array + shift
    return u


def vis(u, bls=BLS):
    """(baseline as in BLS, polarization, time) -> (data, flags, samples, integration, lst)"""
    out = {}
    for n in range(u.Nblts):
        b = (int(u.ant_1_array[n]), int(u.ant_2_array[n]))
        for k, p in enumerate(u.polarization_array):
            x = u.data_array[n, :, k]
            bb = b
            if bb[0] > bb[1]:
                bb, x = bb[::-1], x.conj()
            if bb in bls:
                out[bb, int(p), round(float(u.time_array[n]), 7)] = (x, u.flag_array[n, :, k], u.nsample_array[n, :, k], u.integration_time[n], u.lst_array[n])
    return out


def differ(got, want, tol=1e-9):
    if set(got) != set(want):
        return f"labels: {len(got)} {len(want)}: {sorted(set(got) ^ set(want), key=repr)[:2]}"
    for k in want:
        g, w = got[k], want[k]
        if isinstance(w, dict):
            if set(g) != set(w):
                return f"{k}: {set(g) ^ set(w)}"
            pairs = [(f, g[f], w[f]) for f in w]
        else:
            pairs = list(zip(range(len(w)), g, w))
        for f, x, y in pairs:
            if isinstance(y, str):
                if x != y:
                    return f"{k} {f}: {x} {y}"
                continue
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                return f"{k} {f}: shape {x.shape} {y.shape}"
            size = np.abs(y[np.isfinite(y)]).max(initial=0.0) if y.dtype.kind in "fc" else 0
            if not np.allclose(x, y, rtol=tol, atol=tol * size, equal_nan=True):
                return f"{k} {f}"
    return None


def uvp_cells(u):
    t = dict(T.table(u))
    t["meta"] = dict(bls=np.sort(u.bl_array), ntimes=u.Ntimes, ntp=u.Ntpairs, nb=u.Nblpairs, freq=u.freq_array, pols=np.sort(u.polpair_array),
                     vecs=u.bl_vecs[np.argsort(u.bl_array)], cw=u.channel_width, r=u.norm_units + u.vis_units + u.weighting)
    return t


def tasks(tier, seed):
    V.warm()
    full = tier == "thorough"
    names = list(layouts(full))
    out = [dict(mode="pairs", first=n, full=full) for n in names]
    out += [dict(mode="times", order=o, full=full) for o in joint(full)]
    out += [dict(mode="steps", part=i, full=full) for i in range(8)]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        dict(pairs=run_pairs, times=run_times, steps=run_steps)[task["mode"]](task, rec)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def container(u1, u2, beam=None):
    from hera_pspec import pspecdata

    return pspecdata.PSpecData(dsets=[u1, u2], wgts=[None, None], labels=["a", "b"], beam=beam)


def estimate(ds, cov=None, **kw):
    opt = dict(input_data_weight="identity", norm="I", taper="blackman-harris", spw_ranges=[(1, 6)], verbose=False, store_window=False)
    opt.update(kw)
    if cov:
        opt.update(store_cov=True, cov_model=cov)
    return uvp_cells(ds.pspec(B1, B2, (0, 1), [("xx", "xx"), ("yy", "yy")], **opt))


SETTINGS = (dict(), dict(input_data_weight="iC", norm="H^-1", store_window=True), dict(cov="autos"), dict(cov="empirical"), dict(beam=True, taper="none"))
_REF = {}


def reference(i, order=(0, 1, 2)):
    """What the reference layout gives."""
    if i not in _REF:
        s = dict(SETTINGS[i])
        ref = layouts(True)["ref"]
        bm = c31.array_beam(pols=POLS) if s.pop("beam", False) else None
        _REF[i] = quiet(estimate, container(data(1, ref), data(2, ref), bm), **s)
    return _REF[i]


def compare(rec, u1, u2, settings, tr, sig):
    for i in settings:
        s = dict(SETTINGS[i])
        bm = c31.array_beam(pols=POLS) if s.pop("beam", False) else None
        want = reference(i)
        rec.step()
        rec.trace()
        rec.state((sig, repr(tr), i))
        ok, got = rec.attempt(sig, lambda: quiet(estimate, container(V.light(u1), V.light(u2), bm), **s), trace=dict(tr, settings=SETTINGS[i]))
        if ok:
            d = differ(got, want, 1e-7 if i == 1 else 1e-9)
            rec.expect(d is None, f"{sig}:{'cov' if s.get('cov') else 'plain'}", d, dict(tr, settings=SETTINGS[i]))


def run_pairs(task, rec):
    ls = layouts(task["full"])
    a = task["first"]
    for n, b in enumerate(ls):
        all_ = task["full"] or a == b or a == "ref" or b == "ref"
        compare(rec, data(1, ls[a]), data(2, ls[b]), range(len(SETTINGS)) if all_ else [n % len(SETTINGS)], dict(first=a, second=b), "pair")


def run_times(task, rec):
    ls = layouts(task["full"])
    o = tuple(task["order"])
    for n, (a, b) in enumerate(itertools.product(ls, ("ref", "mix", "rows(2, 1, 0)bl"))):
        compare(rec, data(1, ls[a], t=o), data(2, ls[b], t=o), range(len(SETTINGS)) if task["full"] or b == "ref" else [n % len(SETTINGS)], dict(order=o, first=a, second=b), "times")


def st_flags(mk):
    ds = container(mk(1), mk(2))
    ds.broadcast_dset_flags(spw_ranges=[(1, 5)], time_thresh=0.4)
    return {(i,) + k: v for i, d in enumerate(ds.dsets) for k, v in vis(d).items()}


def st_trim(mk):
    ds = container(mk(1), mk(2, times=(1, 2, 3)))
    ds.trim_dset_lsts()
    return {(i,) + k: v for i, d in enumerate(ds.dsets) for k, v in vis(d).items()}


def st_rephase(mk):
    ds = container(mk(1), mk(2, shift=0.003))
    ds.rephase_to_dset(0)
    return {(i,) + k: v for i, d in enumerate(ds.dsets) for k, v in vis(d).items()}


def st_units(mk):
    ds = container(mk(1), mk(2), c31.array_beam(pols=POLS))
    ds.Jy_to_mK()
    return {(i,) + k: v for i, d in enumerate(ds.dsets) for k, v in vis(d).items()}


def st_getters(mk):
    ds = container(mk(1), mk(2))
    ds.set_spw((1, 6))
    out = {}
    for i, b, p in itertools.product((0, 1), BLS + tuple(x[::-1] for x in BLS), ("xx", "yy")):
        k = (i,) + b + (p,)
        out[k] = (ds.x(k), ds.w(k), ds.C_model(k, model="empirical"), ds.C_model(k, model="autos", time_index=1), ds.R(k))
    return out


def st_stokes(mk):
    from hera_pspec import pstokes

    out = {}
    for s in ("pI", "pQ"):
        v = pstokes.construct_pstokes(mk(1), mk(2), pstokes=s)
        out.update({(s,) + k: x for k, x in vis(v).items()})
    return out


def st_noise(mk):
    from hera_pspec import utils

    u = mk(1)
    beam = c31.array_beam(pols=POLS)
    ds = container(mk(1), mk(2), beam)
    uvp = ds.pspec(B1, B2, (0, 1), [("xx", "xx"), ("yy", "yy")], spw_ranges=[(1, 6)], verbose=False)
    ts = utils.uvd_to_Tsys(u, beam)
    utils.uvp_noise_error(uvp, ts, err_type=["P_N", "P_SN"], num_steps_scalar=50)
    out = uvp_cells(uvp)
    autos = tuple((a, a) for a in range(4))
    out.update({("tsys",) + k: x for k, x in vis(ts, autos).items()})
    return out


def st_auto(mk):
    """variances from autocorrelations, antenna by antenna"""
    from hera_pspec import utils

    u = mk(1)
    return {(b, p, t): (utils.variance_from_auto_correlations(u, b + (p,), (1, 6), t),) for b in BLS for p in ("xx", "yy") for t in range(NT)}


def st_pspec(mk):
    from hera_pspec import testing

    u = mk(1)
    uvp = testing.uvpspec_from_data(u, [[(0, 1), (1, 2), (2, 3)]], beam=c31.array_beam(pols=POLS), spw_ranges=[(1, 6)], taper="none", verbose=False)
    return uvp_cells(uvp)


STEPS = dict(flags=st_flags, trim=st_trim, rephase=st_rephase, units=st_units, getters=st_getters, stokes=st_stokes, noise=st_noise, auto=st_auto, pspec=st_pspec)


def run_steps(task, rec):
    ls = layouts(True)
    ref = ls["ref"]
    want = {}
    names = list(ls)[task["part"] :: 8]
    for n, f in STEPS.items():
        ok, want[n] = rec.attempt("step:" + n, quiet, f, lambda s, **k: data(s, ref, **k))
        if not ok:
            continue
        for name in names:
            if n == "pspec" and ls[name]["pols"]:
                continue  # estimates the first polarization only
            for o in joint(True) if n not in ("getters", "auto", "trim") else [(0, 1, 2)]:
                # the first dataset alone, the second alone, both; the order of integrations is the same in both
                if n == "rephase" and o != (0, 1, 2) and ls[name]["major"] == "ragged":
                    continue  # hera_cal sorts the rows of such data by time
                for w in ((1,), (2,), (1, 2)) if n not in ("stokes",) else ((1, 2),):
                    tr = dict(step=n, layout=name, order=o, which=w)
                    rec.step()
                    rec.trace()
                    rec.state((n, name, o, w))
                    ok, got = rec.attempt("step:" + n, quiet, f, lambda s, **k: data(s, ls[name] if s in w else ref, t=o, **k), trace=tr)
                    if ok:
                        d = differ(got, want[n])
                        rec.expect(d is None, "step:" + n, d, tr)
