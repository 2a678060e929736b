"""C30 - analytic noise error bars come from each bandpower's own autocorrelations, times, flags and power."""

import copy
import inspect
import itertools
import os
import runpy
import shutil
import sys
import warnings

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T
from mc import uvd as V
from mc.checks import c27
from mc.pscutil import fresh

PID = "C30"
LEVEL = "model_checking"
RULE = (
    "P_N: every flag pattern of {which times of which antenna are flagged} x {channel patterns} x tapers x pair layouts x time pairings x "
    "polarizations and their orders x autocorrelation files that hold just what is needed or more (antennas, times per antenna, channels); every bandpower's "
    "error bar against a per-label computation. P_SN: every form of err_type x correction x precomputed P_N x statistics "
    "already present x power values. Tsys: every set and order of polarizations x every kind of beam. Also all delay cuts of "
    "set_stats_slice on plain, folded and averaged objects, approximate covariances for every taper, and the command-line script with every "
    "combination of groups, spectra and error types. States are distinct statistics; transitions are calls."
)
ASSUMPTIONS = [
    "polarization pairs of equal polarizations; unfolded objects for P_N and P_SN (folded ones are refused)",
    "a flagged time takes the nearest unflagged time of the same baseline; ties either way",
    "the scalar is compared with an independent quadrature to 2e-5",
]
NFILE = 12
BLPS = [((1, 2), (1, 2)), ((1, 3), (2, 3)), ((3, 1), (3, 3))]
TPS = {"same": [(0, 0), (1, 1), (2, 2)], "inter": [(0, 1), (2, 3), (4, 5)], "down": [(4, 5), (0, 1), (2, 3)], "one": [(2, 3)], "two": [(0, 0), (1, 2)]}
SPWS = {"a": [(0, 6, 6)], "ab": [(0, 6, 6), (5, 5, 5)], "b": [(3, 4, 4)]}
POLS = {"x": [(-5, -5)], "yx": [(-6, -6), (-5, -5)], "I": [(1, 1)], "Q": [(2, 2)], "IQ": [(1, 1), (2, 2)]}
TAPERS = ["none", "hann", "blackman-harris", "blackman"]
CHAN = {"all": lambda k: True, "odd": lambda k: k % 2, "inner": lambda k: k not in (0, 5), "low": lambda k: k < 3, "one": lambda k: k == 4}


def tasks(tier, seed):
    V.warm()
    out = []
    full = tier == "thorough"
    pats = sorted(CHAN)
    for taper, chan in itertools.product(TAPERS, pats):
        out.append(dict(mode="flags", taper=taper, chan=chan, tps="inter" if full or (TAPERS.index(taper) + pats.index(chan)) % 2 else "same", full=full))
        if full:
            out.append(dict(mode="flags", taper=taper, chan=chan, tps="down", full=True))
    k = 48 if full else 8
    for i in range(k):
        out.append(dict(mode="layout", part=i, of=k, full=full))
    for i in range(4):
        out.append(dict(mode="psn", part=i, of=4, full=full))
    out += [dict(mode="tsys", part=i, of=4, full=full) for i in range(4)] + [dict(mode="script", part=i, of=6, full=full) for i in range(6)]
    out += [dict(mode="slice", full=full), dict(mode="approx", full=full)]
    return out


def run(task, rec):
    c27.memo()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["m_" + task["mode"]](task, rec)


# ------------------------------------------------------------------ reference
def autos(ants, times, pols, nf=NFILE, f0=0, flags=None, extra_times=(), order="time"):
    """Autocorrelations in Kelvin; extra_times: (antenna, time) pairs that exist for that antenna only."""
    bls = [(a, a) for a in ants]
    kw = dict(bls=tuple(bls), nf=nf, pols=tuple(pols), f0=f0, chan0=B.F0, df=B.DF, pos=tuple((a, x, y) for a, (x, y) in B.ANT.items()), order=order)
    u = V.cached(times=tuple(sorted(set(times) | {t for _, t in extra_times})), **kw)
    if flags is not None:
        ts = T_index(u)
        for a in ants:
            for j in np.where(u.ant_1_array == a)[0]:
                for p, pol in enumerate(pols):
                    u.flag_array[j, :, p] = [flags(a, ts[j], f0 + k, pol) for k in range(nf)]
    if extra_times:
        ts = T_index(u)
        keep = np.array([ts[j] in times or (int(u.ant_1_array[j]), ts[j]) in extra_times for j in range(u.Nblts)])
        u = u.select(blt_inds=np.where(keep)[0], inplace=False)
    return u


def T_index(u):
    return [round((t - B.T0) / B.DT) for t in u.time_array]


def tsys_bl(bl, pol, ts, chans, taper, flags):
    """mean over unflagged channels of the geometric mean of the two antennas, per time; flagged times from the nearest one."""
    from uvtools import dspec

    w = dspec.gen_window(taper, len(chans))
    vals = {}
    for t in ts:
        x = np.array([np.sqrt(auto(bl[0], pol, t, k) * auto(bl[1], pol, t, k)) for k in chans])
        ok = np.array([not (flags(bl[0], t, k, pol) or flags(bl[1], t, k, pol)) for k in chans]) * w
        vals[t] = (ok * x).sum() / ok.sum() if ok.sum() > 1e-10 else None
    good = [t for t in ts if vals[t] is not None]
    out = []
    for t in ts:
        d = sorted({abs(g - t) for g in good})
        out.append([vals[g] for g in good if abs(g - t) == d[0]] if good else [])
    return out


_A = {}


def auto(a, pol, t, k):
    if (a, pol, t) not in _A:
        _A[a, pol, t] = V.vis((a, a), pol, t, 20).real
    return _A[a, pol, t][k]


def no_flags(a, t, k, pol):
    return False


def p_n(v, co, little_h, taper, flags, steps, omegas):
    """cell -> list of admissible P_N values (several when the nearest time is a tie)."""
    out, memo = {}, {}
    for key, c in v.items():
        sk, pol, blp, t1, t2 = key[0], key[1], key[2], c["t1"], c["t2"]
        g = (sk, pol, blp)
        if g not in memo:
            rows = [(k2, c2) for k2, c2 in v.items() if k2[:3] == g]
            apol = 1 if pol[0] > 0 else pol[0]
            chans = list(range(sk[0], sk[0] + sk[1]))
            ts1, ts2 = [c2["t1"] for _, c2 in rows], [c2["t2"] for _, c2 in rows]
            a, b = tsys_bl(blp[0], apol, ts1, chans, taper, flags), tsys_bl(blp[1], apol, ts2, chans, taper, flags)
            joint = all(
                flags(blp[0][0], x, k, apol) or flags(blp[0][1], x, k, apol) or flags(blp[1][0], y, k, apol) or flags(blp[1][1], y, k, apol)
                for x, y in zip(ts1, ts2) for k in chans)
            s = c27.scalar(co, sk, omegas(pol), taper, "I", little_h, noise=True, steps=steps)
            memo[g] = {k2: (s, [np.inf] if joint or not a[i] or not b[i] else [np.sqrt(x * y) for x in a[i] for y in b[i]]) for i, (k2, _) in enumerate(rows)}
        s, ts = memo[g][key]
        with np.errstate(all="ignore"):
            out[key] = [s * (x * 1e3) ** 2 / c["int"] / np.sqrt(c["nsmp"]) / np.sqrt(2) for x in ts]
    return out


def omegas(pol):
    return [np.array([B.omega_of(pol, i)[0] for i in range(7)]), np.array([B.omega_of(pol, i)[1] for i in range(7)])]


CO = c27.Cosmo(H0=70.0)


def indexed(u):
    """label view with integer time indices"""
    v = A.view(u)
    rows = {}
    for i, b in enumerate(u.blpair_array):
        rows[(T.blp_key(b), T.tk(u.time_1_array[i]), T.tk(u.time_2_array[i]))] = (round((u.time_1_array[i] - B.T0) / B.DT), round((u.time_2_array[i] - B.T0) / B.DT))
    for k, c in v.items():
        c["t1"], c["t2"] = rows[k[2:5]]
    return v


def check_pn(rec, u, before, flags, tr, little_h=True, steps=40, stat="P_N", sig="P_N"):
    v = indexed(u)
    want = p_n(before, CO, little_h, u.taper, flags, steps, omegas)
    bad = None
    for k, c in v.items():
        g = c["stat:" + stat]
        if not any(np.allclose(g, w, rtol=2e-5, equal_nan=False) if np.isfinite(w) else np.all(np.isposinf(g.real)) for w in want[k]):
            bad = (k, g[:2], want[k])
            break
    rec.expect(bad is None, sig, bad, tr)
    return want


def untouched(rec, u, t0, new, tr, sig="changed"):
    t1 = T.table(u)
    skip = tuple("stat:" + s for s in new)
    d = T.diff({k: {f: x for f, x in c.items() if f not in skip} for k, c in t1.items()}, {k: {f: x for f, x in c.items() if f not in skip} for k, c in t0.items()})
    rec.expect(d is None, sig, d, tr)


def obj(tps, spws, pols, order, taper, **kw):
    u = B.uvp(blps=BLPS, tps=TPS[tps], spws=SPWS[spws], pols=POLS[pols], order=order, omega=True, win=False, **kw)
    u.taper = taper
    return u


# ------------------------------------------------------------------ P_N: flags
def m_flags(task, rec):
    from hera_pspec import utils

    tps = TPS[task["tps"]]
    times = sorted({t for p in tps for t in p})
    sets = [c for n in range(len(times) + 1) for c in itertools.combinations(times, n)]
    if task["tps"] == "same":
        others = list(itertools.product(sets, sets))
    elif task["full"]:
        others = [((), s) for s in sets]
    else:
        others = [((), s) for s in ((), times[:1], times[1:], times, times[1::2], times[::2], times[2:4], times[:5])]
    base = obj(task["tps"], "a", "x", "bt", task["taper"])
    t0 = T.table(base)
    before = indexed(base)
    chan = CHAN[task["chan"]]
    for s1, (s2, s3) in itertools.product(sets, others):
        def flags(a, t, k, pol, s1=s1, s2=s2, s3=s3):
            return bool((a == 1 and t in s1 and chan(k)) or (a == 2 and t in s2 and not chan(k)) or (a == 3 and t in s3 and (k < 2 or chan(k))))

        au = autos((1, 2, 3), times, (-5,), nf=6, flags=flags)
        u = copy.copy(base)
        tr = dict(task, flagged1=list(s1), flagged2=list(s2), flagged3=list(s3))
        rec.step()
        ok, _ = rec.attempt("P_N", utils.uvp_noise_error, u, au, num_steps_scalar=40, trace=tr)
        if not ok:
            continue
        check_pn(rec, u, before, flags, tr)
        rec.outcome((task["taper"], task["chan"], s1, s2, tuple(s3)))
        rec.state(u.stats_array["P_N"][0])
    rec.expect(T.diff(T.table(base), t0) is None, "changed", "the object was changed", task)
    rec.trace()


# ------------------------------------------------------------------ P_N: layouts
def m_layout(task, rec):
    from hera_pspec import utils

    combos = list(itertools.product(TPS, SPWS, POLS, ("bt", "tb"), ("exact", "wide", "ragged", "reverse")))
    for i, (tps, spws, pols, order, file) in enumerate(combos):
        if i % task["of"] != task["part"]:
            continue
        taper = TAPERS[i % 3]
        u = obj(tps, spws, pols, order, taper, stats=["x"] if i % 2 else [], weights="mixed")
        need = sorted({t for p in TPS[tps] for t in p})
        autop = sorted({1 if p[0] > 0 else p[0] for p in POLS[pols]}, reverse=True)
        if file == "exact":
            kw = dict(ants=(1, 2, 3), times=need, pols=autop)
        elif file == "wide":
            kw = dict(ants=(1, 2, 3, 5), times=list(range(-1, 8)), pols=[-6, -5] if autop[0] < 0 else [1, 3], nf=14, f0=0)
        elif file == "ragged":  # one antenna has earlier and later times than the others
            kw = dict(ants=(1, 2, 3), times=need, pols=autop, extra_times=((1, -1), (3, 3 if 3 not in need else 6), (2, 7)))
        else:
            kw = dict(ants=(3, 2, 1), times=need, pols=autop[::-1], order="bl")

        def flags(a, t, k, pol, i=i):
            return bool(B.h("fl", i, a, t, k // 2, pol) % 7 == 0 or (B.h("ft", i, a, t) % 9 == 0))

        tr = dict(task, i=i, tps=tps, spws=spws, pols=pols, order=order, file=file, taper=taper)
        au = autos(flags=flags, **kw)
        t0 = T.table(u)
        before = indexed(u)
        a0 = copy.deepcopy((au.data_array, au.flag_array))
        hh = bool(i % 3)
        rec.step()
        ok, _ = rec.attempt("layout", utils.uvp_noise_error, u, au, num_steps_scalar=40, little_h=hh, trace=tr)
        if not ok:
            continue
        check_pn(rec, u, before, flags, tr, little_h=hh, sig="layout:P_N")
        untouched(rec, u, t0, ["P_N"], tr)
        rec.expect(np.array_equal(a0[0], au.data_array) and np.array_equal(a0[1], au.flag_array), "layout:autos changed", "", tr)
        rec.outcome((tps, spws, pols, order, file))
        rec.state(u.stats_array["P_N"][0])
    rec.trace()


# ------------------------------------------------------------------ P_SN
C_COR = np.sqrt(1 / np.sqrt(np.pi) + 1) - 1


def m_psn(task, rec):
    from hera_pspec import utils

    def flags(a, t, k, pol):
        return a == 3 and t == 2

    au = autos((1, 2, 3), (0, 1, 2), (-5, -6), flags=flags)
    types = ["P_N", "P_SN", ["P_N"], ["P_SN"], ["P_N", "P_SN"], ["P_SN", "P_N"]]
    combos = list(itertools.product(types, (True, False, None), (None, "e", "P_N"), ((), ("e",), ("P_N",), ("P_N", "P_SN", "e")), ("mixed", "negative", "zero", "large"), ("same", "ragged")))
    for i, (et, cor, pre, prior, power, lay) in enumerate(combos):
        if i % task["of"] != task["part"] or (pre is not None and pre not in prior):
            continue
        if lay == "ragged":
            rows = [(BLPS[0], 0, 1), (BLPS[1], 0, 0), (BLPS[0], 2, 2), (BLPS[2], 1, 1)]
            u = B.uvp(rows=rows, spws=SPWS["ab"], pols=POLS["yx"], omega=True, win=False, stats=list(prior))
        else:
            u = B.uvp(blps=BLPS[:2], tps=TPS["same"], spws=SPWS["a"], pols=POLS["x"], omega=True, win=False, stats=list(prior))
        v0 = indexed(u)
        # powers relative to the noise: P_N varies over many orders
        for s in range(u.Nspws):
            d = u.data_array[s]
            f = {"mixed": 1.0, "negative": -1.0, "zero": 0.0, "large": 1e6}[power]
            u.data_array[s] = (np.abs(d.real) * f if power != "mixed" else d.real) * 10.0 + 1j * d.imag
        for s in prior:
            for w in range(u.Nspws):
                x = np.abs(u.stats_array[s][w].real) * 20.0
                x[0, 1] = np.inf
                u.stats_array[s][w] = x + 0j
        v0 = indexed(u)
        t0 = T.table(u)
        ets = [et] if isinstance(et, str) else et
        kw = {} if cor is None else dict(P_SN_correction=cor)
        if pre is not None:
            kw["precomp_P_N"] = pre
        tr = dict(task, i=i, err_type=et, cor=cor, precomp=pre, prior=list(prior), power=power, lay=lay)
        noauto = pre is not None and i % 2
        rec.step()
        ok, _ = rec.attempt("P_SN", utils.uvp_noise_error, u, None if noauto else au, err_type=et, num_steps_scalar=40, trace=tr, **kw)
        if not ok:
            continue
        rec.expect(sorted(u.stats_array) == sorted(set(prior) | set(ets)), "P_SN:names", list(u.stats_array), tr)
        untouched(rec, u, t0, ets, tr, "P_SN:changed")
        want = p_n(v0, CO, True, "none", flags, 40, omegas) if pre is None else None
        v = indexed(u)
        bad = None
        for k, c in v.items():
            pns = [v0[k]["stat:" + pre].real] if pre else [np.full(len(c["dly"]), w) for w in want[k]]
            hit = False
            for pn in pns:
                good = True
                if "P_N" in ets:
                    good &= close(c["stat:P_N"], pn)
                if "P_SN" in ets:
                    ps = np.clip(v0[k]["data"].real, 0, None)
                    with np.errstate(all="ignore"):
                        x = np.sqrt(np.sqrt(2) * ps * pn + pn**2)
                        x[np.isnan(x)] = np.inf
                        if cor is not False:
                            f = 1 - C_COR * pn / x
                            x = np.where(np.isfinite(f) & (f > 0), x * f, np.inf)
                    good &= close(c["stat:P_SN"], x)
                hit |= bool(good)
            if not hit:
                bad = (k, {s: c["stat:" + s][:2] for s in ets}, pns[0][:2])
                break
        rec.expect(bad is None, "P_SN", bad, tr)
        rec.outcome(tr)
        rec.state([u.stats_array[s][0] for s in sorted(u.stats_array)])
    rec.trace()
    # folded spectra are refused, not mislabelled
    u = B.uvp(blps=BLPS[:2], tps=TPS["same"], spws=[(0, 6, 6)], pols=POLS["x"], omega=True, win=False, folded=True)
    rec.step()
    rec.expect(rec.raises(utils.uvp_noise_error, u, au, num_steps_scalar=40) and not any(True for s in getattr(u, "stats_array", {})), "P_N:folded", "", task)


def close(g, w):
    g, w = np.asarray(g), np.asarray(w)
    inf = np.isinf(w)
    return bool(np.all(np.isposinf(g.real[inf])) and np.all(np.isfinite(g[~inf])) and np.allclose(g[~inf], w[~inf], rtol=4e-5))


# ------------------------------------------------------------------ Tsys
def m_tsys(task, rec):
    from pyuvdata import UVData

    from hera_pspec import conversions, pspecbeam, utils

    fb = B.F0 - 5 * B.DF + 4 * B.DF * np.arange(9)
    om = lambda a: {p: a * (1 + 0.1 * i) * (fb / fb[0]) ** (-2 - 0.2 * i) for i, p in enumerate(("XX", "YY", "pI"))}  # noqa: E731
    co = conversions.Cosmo_Conversions()
    arr = pspecbeam.PSpecBeamFromArray(om(0.02), om(0.01), fb, cosmo=co)
    gauss = pspecbeam.PSpecBeamGauss(0.15, fb, cosmo=co)
    names = {-5: "XX", -6: "YY", 1: "pI", 2: "pI", 3: "pI", 4: "pI"}

    def omega(kind, pol, fr):
        from scipy.interpolate import interp1d

        if kind == "gauss":
            return np.full(len(fr), 2 * np.pi * 0.15**2 / (8 * np.log(2)))
        if kind == "uvp":
            x, y = np.linspace(B.F0 - 20 * B.DF, B.F0 + 40 * B.DF, 7), np.array([B.omega_of((pol, pol), i)[0] for i in range(7)])
        else:
            x, y = fb, om(0.02)[names[pol]]
        return interp1d(x / 1e6, y, kind="quadratic", fill_value="extrapolate")(fr / 1e6)

    polsets = [p for n in (1, 2, 3, 4) for p in itertools.permutations((-5, -6, -7, -8), n) if n < 3 or -5 in p] + [(1,), (1, 2), (2, 1), (4, 1, 3), (1, 2, 3, 4)]
    seen = []

    class Loader(pspecbeam.PSpecBeamUV):
        def __new__(cls, name, *a, **k):
            seen.append(name)
            return arr

    for n, pols in enumerate(polsets):
        if n % task["of"] != task["part"]:
            continue
        auto_p = sorted({1 if p > 0 else p for p in pols if p in names})
        for kind, cross, outfile, order in itertools.product(("array", "gauss", "uvp", "path"), (False, True), (False, True), ("time", "bl")):
            if outfile and (cross or kind in ("gauss", "path")):
                continue
            u = V.cached(bls=((1, 2), (1, 3)) if cross else ((1, 1), (2, 2)), autos=cross, nf=7, pols=pols, times=(0, 1, 2), chan0=B.F0, df=B.DF,
                         pos=tuple((a, x, y) for a, (x, y) in B.ANT.items()), order=order, flags=chess)
            u0 = copy.deepcopy((u.data_array, u.flag_array, u.polarization_array))
            if kind == "uvp":
                up = [(p, p) for p in (auto_p[::-1] if order == "bl" else auto_p)] + [(-7, -7)] * (len(pols) == 1 and pols[0] < 0)
                beam = B.uvp(blps=BLPS[:1], tps=[(0, 0)], pols=up, omega=True, win=False)
            else:
                beam = {"array": arr, "gauss": gauss, "path": "my.beamfits"}[kind]
            tr = dict(task, pols=pols, kind=kind, cross=cross, outfile=outfile, order=order)
            d = fresh()
            orig = pspecbeam.PSpecBeamUV
            pspecbeam.PSpecBeamUV = Loader
            try:
                f = os.path.join(d, "t.uvh5") if outfile else None
                rec.step()
                if not auto_p:
                    rec.expect(rec.raises(utils.uvd_to_Tsys, u, beam, f), "tsys:none", "no autocorrelation polarization", tr)
                    continue
                ok, t = rec.attempt("tsys", utils.uvd_to_Tsys, u, beam, f, trace=tr)
                if not ok:
                    continue
                for res in [t] + ([UVData.from_file(f)] if outfile else []):
                    rec.expect(sorted(res.polarization_array.tolist()) == auto_p and all(a == b for a, b in res.get_antpairs()), "tsys:labels", (res.polarization_array, res.get_antpairs()), tr)
                    ix = T_index(res)
                    bad = None
                    for j in range(res.Nblts):
                        a = int(res.ant_1_array[j])
                        for p, pol in enumerate(res.polarization_array.tolist()):
                            w = V.vis((a, a), pol, ix[j], 7).real * 1e-23 * 2.99792458e10**2 / (2 * 1.380649e-16 * res.freq_array**2 * omega(kind, pol, res.freq_array))
                            if not np.allclose(res.data_array[j, :, p], w, rtol=2e-6) or not np.array_equal(res.flag_array[j, :, p], chess((a, a), pol, ix[j], 7)):
                                bad = (a, pol, ix[j], res.data_array[j, :2, p], w[:2])
                    rec.expect(bad is None, "tsys:values", bad, tr)
                rec.expect(all(np.array_equal(x, y) for x, y in zip(u0, (u.data_array, u.flag_array, u.polarization_array))), "tsys:changed", "", tr)
                rec.outcome((pols, kind, cross, outfile, order))
                rec.state(t.data_array)
            finally:
                pspecbeam.PSpecBeamUV = orig
                shutil.rmtree(d)
    rec.expect(set(seen) == {"my.beamfits"}, "tsys:path", seen[:3], task)
    u = V.cached(bls=((1, 1),), nf=7, pols=(-5,), times=(0,), chan0=B.F0, df=B.DF, pos=tuple((a, x, y) for a, (x, y) in B.ANT.items()))
    for bad in (12.0, None, B.uvp(omega=False)):
        rec.step()
        rec.expect(rec.raises(utils.uvd_to_Tsys, u, bad), "tsys:refuse", type(bad), task)
    rec.trace()


def chess(bl, pol, t, nf):
    return np.array([(bl[0] + pol + t + k) % 3 == 0 for k in range(nf)])


# ------------------------------------------------------------------ set_stats_slice
def m_slice(task, rec):
    lens = {b: np.mean([np.hypot(*(np.array(B.ANT[x[1]]) - np.array(B.ANT[x[0]]))) for x in b]) for b in BLPS}
    for kind, order, (m, b), above, val in itertools.product(
        ("plain", "ragged", "folded", "averaged"), ("bt", "tb"), ((0.0, 0.0), (0.0, 2000.0), (100.0, 500.0), (170.0, 0.0), (0.0, 1e9), (90.0, -200.0), (-50.0, 3000.0)), (False, True, None), (1e20, np.inf, 0.0, None)):
        kw = dict(spws=[(0, 6, 6), (20, 5, 5)], omega=True, order=order, win=False, stats=["P_N", "o"])
        if kind == "ragged":
            rows = [(BLPS[0], 0, 1), (BLPS[1], 0, 0), (BLPS[0], 2, 2), (BLPS[2], 0, 1), (BLPS[2], 4, 5), (BLPS[2], 2, 2)]
            u = B.uvp(rows=rows if order == "bt" else rows[::-1], **kw)
        else:
            u = B.uvp(blps=BLPS, tps=[(0, 1), (2, 2)], folded=kind in ("folded", "averaged"), **kw)
        if kind == "averaged":
            u.average_spectra(time_avg=True, error_field=["P_N", "o"])
        tr = dict(task, kind=kind, order=order, m=m, b=b, above=above, val=val)
        v0 = A.view(u)
        t0 = T.table(u)
        args = {} if above is None else dict(above=above)
        if val is not None:
            args["val"] = val
        rec.step()
        ok, _ = rec.attempt("slice", u.set_stats_slice, "P_N", m, b, trace=tr, **args)
        if not ok:
            continue
        v1 = A.view(u)
        bad = None
        for k, c in v0.items():
            y = lens[k[2]] * m + b
            x = np.abs(c["dly"]) * 1e9
            if np.min(np.abs(x - y)) < 1e-6 * (1 + abs(y)) and y != 0:
                continue
            hit = x > y if above else x < y
            w = np.where(hit, 1e20 if val is None else val, c["stat:P_N"])
            if not np.array_equal(v1[k]["stat:P_N"], w):
                bad = (k, v1[k]["stat:P_N"], w)
                break
        rec.expect(bad is None, "slice:values", bad, tr)
        untouched(rec, u, t0, ["P_N"], tr, "slice:changed")
        rec.outcome(tr)
        rec.state(u.stats_array["P_N"][0])
    u = B.uvp(stats=["P_N"])
    rec.expect(rec.raises(u.set_stats_slice, "nope", 0.0, 0.0), "slice:refuse", "", task)
    rec.step()
    rec.trace()


# ------------------------------------------------------------------ approximate covariance
def m_approx(task, rec):
    from uvtools import dspec

    for taper, stat, inplace, prior, order, spws in itertools.product(
        ("none", "hann", "blackmanharris", "blackman-harris", "tukey", None), ("P_N", "o", None), (True, False, None), (False, True), ("bt", "tb"), ([(0, 6, 6), (20, 5, 5)], [(4, 7, 7)])):
        u = B.uvp(blps=BLPS, tps=[(0, 1), (2, 2)], spws=spws, order=order, win=False, cov=prior, stats=["P_N", "o"])
        tr = dict(task, taper=taper, stat=stat, inplace=inplace, prior=prior, order=order, spws=spws)
        t0 = T.table(u)
        kw = {k: x for k, x in (("taper", taper), ("variance_stat", stat), ("inplace", inplace)) if x is not None}
        rec.step()
        ok, r = rec.attempt("approx", u.add_approximate_covariance, trace=tr, **kw)
        if not ok:
            continue
        if inplace is False:
            rec.expect(T.diff(T.table(u), t0) is None, "approx:copy", "the original changed", tr)
        else:
            r = u
        bad = None
        for k, c in A.view(r).items():
            n = len(c["dly"])
            w = dspec.gen_window(taper or "blackmanharris", n) ** 2
            row = np.array([abs(sum(w[x] * np.exp(-2j * np.pi * x * d / n) for x in range(n))) ** 2 for d in range(n)])
            e = c["stat:" + (stat or "P_N")].real
            want = np.array([[e[i] * e[j] * row[(i - j) % n] / row.max() for j in range(n)] for i in range(n)])
            if not np.allclose(c["covr"], want, rtol=1e-9, atol=1e-9 * np.max(np.abs(want))) or np.any(c["covi"] != 0):
                bad = (k, c["covr"][0], want[0])
                break
        rec.expect(bad is None, "approx:values", bad, tr)
        skip = ("covr", "covi")
        d = T.diff({k: {f: x for f, x in c.items() if f not in skip} for k, c in T.table(r).items()}, {k: {f: x for f, x in c.items() if f not in skip} for k, c in t0.items()})
        rec.expect(d is None, "approx:changed", d, tr)
        rec.outcome(tr)
        rec.state(r.cov_array_real[0])
    u = B.uvp(stats=["P_N"])
    rec.expect(rec.raises(u.add_approximate_covariance, "nope"), "approx:refuse", "", task)
    rec.step()
    rec.trace()


# ------------------------------------------------------------------ script
def m_script(task, rec):
    from hera_pspec import PSpecContainer, conversions, pspecbeam, utils

    fb = B.F0 - 5 * B.DF + 4 * B.DF * np.arange(9)
    om = lambda a: {p: a * (1 + 0.1 * i) * (fb / fb[0]) ** -2 for i, p in enumerate(("XX", "YY"))}  # noqa: E731
    arr = pspecbeam.PSpecBeamFromArray(om(0.02), om(0.01), fb, cosmo=conversions.Cosmo_Conversions())

    class Loader(pspecbeam.PSpecBeamUV):
        def __new__(cls, name, *a, **k):
            assert name == "my.beamfits"
            return arr

    names = [("g1", "a_x_b"), ("g1", "c"), ("g2", "a_x_b")]
    d = fresh()
    orig = pspecbeam.PSpecBeamUV
    pspecbeam.PSpecBeamUV = Loader
    fn = inspect.unwrap(utils.uvp_noise_error)
    num = fn.__defaults__  # (only to save time: a coarser delay grid of the scalar integration)
    if num is not None:
        fn.__defaults__ = tuple(40 if x == 2000 else x for x in num)
    try:
        au = autos((1, 2, 3), (0, 1, 2, 3), (-5, -6))
        af = os.path.join(d, "autos.uvh5")
        au.write_uvh5(af)
        auto_T = utils.uvd_to_Tsys(au, arr)
        objs = {n: B.uvp(blps=BLPS[:2], tps=[(0, 1), (2, 2)], spws=SPWS["a"], pols=POLS["yx"] if i else POLS["x"], omega=True, salt=i) for i, n in enumerate(names)}
        want = {}
        types = {None: "P_N", "P_N": ["P_N"], "P_SN": ["P_SN"], "P_N P_SN": ["P_N", "P_SN"]}
        for et in types:
            for n, u in objs.items():
                w = copy.deepcopy(u)
                utils.uvp_noise_error(w, auto_T, err_type=types[et])
                want[et, n] = w
        groups = [None, ["g1"], ["g2"], ["g2", "g1"]]
        spectra = [None] + [list(c) for k in (1, 2, 3) for c in itertools.combinations(["/".join(n) for n in names], k)]
        for i, (g, s, et) in enumerate(itertools.product(groups, spectra, types)):
            if (i // 4 + i % 4) % task["of"] != task["part"]:
                continue
            f = os.path.join(d, f"c{i}.h5")
            psc = PSpecContainer(f, mode="rw", keep_open=False)
            for n, u in objs.items():
                psc.set_pspec(*n, u)
            argv = [f, af, "my.beamfits"]
            opts = (["--groups"] + g if g else []) + (["--spectra"] + s if s else []) + (["--err_type"] + et.split() if et else [])
            tr = dict(task, argv=opts)
            rec.step()
            ok, _ = rec.attempt("script", script, argv + opts, trace=tr)
            if ok:
                p = PSpecContainer(f, mode="r", keep_open=False)
                rec.expect({k: sorted(x) for k, x in p.tree(return_str=False).items()} == {"g1": ["a_x_b", "c"], "g2": ["a_x_b"]}, "script:names", p.tree(return_str=False), tr)
                for n, u in objs.items():
                    hit = (g is None or n[0] in g) and (s is None or "/".join(n) in s)
                    df = T.diff(T.table(p.get_pspec(*n)), T.table(want[et, n] if hit else u), rtol=1e-9)
                    rec.expect(df is None, "script:" + ("hit" if hit else "left alone"), (n, df), tr)
                    rec.state((g, s, et, n, hit))
                rec.outcome(opts)
            os.remove(f)
    finally:
        pspecbeam.PSpecBeamUV = orig
        fn.__defaults__ = num
        shutil.rmtree(d)
    rec.trace()


def script(argv):
    import logging

    import hera_pspec

    path = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(hera_pspec.__file__)))), "scripts", "auto_noise_run.py")
    old, handlers = sys.argv, logging.getLogger().handlers[:]
    sys.argv = ["auto_noise_run.py"] + argv
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
        logging.getLogger().handlers[:] = handlers
