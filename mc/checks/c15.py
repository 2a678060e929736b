"""C15 - the spherical average is the weighted mean of the bandpowers whose |k| lies in each bin."""

import copy
import itertools

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C15"
LEVEL = "model_checking"
RULE = (
    "Every combination of {row layout} x {order of times} x {one to three baseline-pairs of different lengths} x {no, delay, exact "
    "window functions} x {flagging pattern} x {uniform, error, covariance weights} x {eight families of |k| bins: full, gappy, "
    "narrow, one bin, unequal widths, beyond the data, partly empty, theory bins} x {h, no h} x {time average} x {groups}, and data in other units (1e-12 to 1e9); every "
    "bin of every window, polarization pair and time is compared with a weighted least-squares mean written from the |k| of each "
    "bandpower. States are distinct results; transitions are calls."
)
ASSUMPTIONS = [
    "unfolded objects with a cosmology; error bars real, within six decades of each other, infinite or NaN where flagged",
    "every baseline-pair lists its times in the same order",
    "no bandpower lies within rounding of a bin edge (checked by the harness when it builds the bins)",
]

# an array wide enough for k_perp to move bandpowers between bins (metres)
B.ANT = {1: (0.0, 0.0), 2: (640.0, 0.0), 3: (1510.0, 0.0), 4: (320.0, 550.0), 5: (960.0, 550.0), 6: (640.0, 2330.0)}

BL = [((1, 2), (1, 2)), ((1, 2), (2, 1)), ((1, 3), (1, 3)), ((2, 6), (2, 6))]
WRAP = B.WRAP
TIMES = {
    "one": [(3, 3)],
    "up": [(0, 1), (2, 2), (4, 5)],
    "down": [(4, 5), (2, 2), (0, 1)],
    "mix": [(2, 3), (5, 5), (0, 0)],
    "wrap": [(WRAP - 3, WRAP - 2), (WRAP + 1, WRAP + 2), (WRAP + 4, WRAP + 4)],
    "cross": [(0, 4), (1, 1), (2, 0)],
}
SETS = {"a": [0], "ab": [0, 1], "ac": [0, 2], "acd": [0, 2, 3], "dca": [3, 2, 0]}
BINS = ("full", "gappy", "narrow", "one", "unequal", "beyond", "empty", "coarse")


def make(cfg):
    nd = cfg.get("nd", 6)
    u = B.uvp(
        blps=[BL[i] for i in SETS[cfg["set"]]], tps=TIMES[cfg["times"]], order=cfg["order"],
        spws=[(0, nd, nd), (20, 5, 5)] if cfg.get("two", True) else [(0, nd, nd)],
        pols=[(-5, -5), (1, 2)] if cfg.get("pols", 2) == 2 else [(-5, -5)],
        cov=cfg["w"] == "cov" or cfg.get("cov", False), win=cfg["win"] != "none", exact=cfg["win"] == "exact", stats=["P_N", "e"] if cfg.get("stats", True) else [],
    )
    for s in getattr(u, "stats_array", {}):
        for i in range(u.Nspws):
            u.stats_array[s][i] = (np.abs(u.stats_array[s][i].real) % 7 + 0.5) + 0j
    if hasattr(u, "cov_array_real"):
        for i in range(u.Nspws):
            m = np.moveaxis(u.cov_array_real[i], 3, 1) / 1000.0
            m = m + np.swapaxes(m, -1, -2)
            n = m.shape[-1]
            m = 0.05 * m + np.eye(n) * (2 + np.arange(n))
            u.cov_array_real[i] = np.moveaxis(m, 1, 3)
    if cfg["win"] == "exact":  # window functions are densities on a (k_perp, k_para) grid that covers the bins
        for i in range(u.Nspws):
            u.window_function_array[i] = np.abs(u.window_function_array[i])
            km = kmax(u, i)
            for p in range(u.Npols):
                u.window_function_kperp[i][:, p] = km * np.array([0.011, 0.23, 0.61]) * (1 + 0.07 * p)
                u.window_function_kpara[i][:, p] = km * np.array([0.02, 0.28, 0.57, 0.83]) * (1 + 0.05 * p)
    n = cfg.get("flag", 0)
    for i in range(u.Nspws):
        for j in range(u.Nbltpairs):
            if (n >> (j % 5)) & 1 and (i + j) % 3 != 2:
                # without data: no integration time, no samples, or neither
                k = (n + i + j) % 3
                if k != 1:
                    u.integration_array[i][j] = 0.0
                if k:
                    u.nsample_array[i][j] = 0.0
                if "stats_array" in u.__dict__:
                    u.stats_array["P_N"][i][j] = np.inf
    if cfg.get("inf"):
        for i in range(u.Nspws):
            x = u.stats_array["P_N"][i]
            x[:, (cfg["inf"] + i) % x.shape[1]] = np.inf
            if cfg["inf"] > 3:
                x[:, x.shape[1] // 2:] = np.inf
    if cfg.get("scale"):
        u.stats_array["P_N"][0][:, 1:3] *= 1e5
        u.stats_array["P_N"][0][:, 4] *= 1e-1
    if cfg.get("units"):  # nothing may depend on the units of the power
        for i in range(u.Nspws):
            u.data_array[i] *= cfg["units"]
            for x in u.__dict__.get("stats_array", {}).values():
                x[i] *= cfg["units"]
            if "cov_array_real" in u.__dict__:
                u.cov_array_real[i] *= cfg["units"] ** 2
                u.cov_array_imag[i] *= cfg["units"] ** 2
    return u


def cosmo_k(u, i):
    f = u.freq_array[np.asarray(u.spw_freq_array) == i]
    z = u.cosmo.f2z(np.mean(f))
    return u.cosmo.bl_to_kperp(z, little_h=True), u.cosmo.tau_to_kpara(z, little_h=True)


def sep(bl):
    (x0, y0), (x1, y1) = B.ANT[bl[0]], B.ANT[bl[1]]
    return float(np.hypot(x1 - x0, y1 - y0))


def blp_sep(blp):
    return 0.5 * (sep(blp[0]) + sep(blp[1]))


def kmags(u, i, blp, dly=None):
    kp, kl = cosmo_k(u, i)
    d = u.dly_array[np.asarray(u.spw_dly_array) == i] if dly is None else dly
    return np.sqrt((kp * blp_sep(blp)) ** 2 + (kl * d) ** 2)


def kmax(u, i):
    return max(kmags(u, i, T.blp_key(b)).max() for b in set(u.blpair_array.tolist()))


def bins(u, kind):
    """(centres, widths) in h/Mpc; never an edge within 1e-6 of a bandpower."""
    ks = np.unique(np.concatenate([kmags(u, i, T.blp_key(b)) for i in range(u.Nspws) for b in set(u.blpair_array.tolist())]).round(9))
    top = ks.max()
    n = {"full": 7, "gappy": 6, "narrow": 9, "one": 1, "unequal": 4, "beyond": 6, "empty": 8, "coarse": 3}[kind]
    for shift in np.linspace(0, 0.2, 23):
        w = top / (n - 0.6)
        c = (np.arange(n) + shift * 0.5) * w
        wd = np.full(n, w)
        if kind == "gappy":
            wd = wd * 0.55
        elif kind == "narrow":
            wd = wd * 0.11
        elif kind == "one":
            c, wd = np.array([top * 0.5]), np.array([top * 0.71 + shift * 0.1])
        elif kind == "unequal":
            e = top * np.array([0, 0.13, 0.3, 0.71, 0.9]) + shift * 0.01 * top
            c, wd = 0.5 * (e[1:] + e[:-1]), np.diff(e)
        elif kind == "beyond":
            c = c * 2.3 + top * 0.4
            wd = wd * 2.2
        elif kind == "empty":
            c = c * 0.4
            wd = wd * 0.4
        e = np.concatenate([c - wd / 2, c + wd / 2])
        if np.min(np.abs(e[:, None] - ks[None])) > 1e-5 * top:
            return c, wd
    raise RuntimeError("no safe bins")


def reference(v, u, c, wd, weight, ew, cth=None, wth=None):
    """(spw, pp, slot) -> dict of arrays over bins."""
    out = {}
    for i, (sk, _) in enumerate(sorted({(k[0], 0) for k in v}, key=lambda s: [T.spw_key(u, j) for j in range(u.Nspws)].index(s[0]))):
        for pp in dict.fromkeys(k[1] for k in v):
            by = {}
            for k, x in v.items():
                if k[:2] == (sk, pp):
                    by.setdefault(k[2], []).append((k, x))
            blps = list(by)
            for t in range(len(by[blps[0]])):
                xs = [by[b][t][1] for b in blps]
                nd = len(xs[0]["data"])
                nf = sk[1]
                fdly = np.fft.fftshift(np.fft.fftfreq(nf, d=B.DF))
                Am = np.zeros((nd * len(xs), len(c)))
                E = np.zeros((nd * len(xs),) * 2)
                for n, (b, x) in enumerate(zip(blps, xs)):
                    km = kmags(u, i, b)
                    for m in range(len(c)):
                        Am[n * nd:(n + 1) * nd, m] = (km > c[m] - wd[m] / 2) & (km < c[m] + wd[m] / 2)
                    sl = slice(n * nd, (n + 1) * nd)
                    if weight == "cov":
                        E[sl, sl] = np.linalg.inv(x["covr"])
                    elif weight == "err":
                        s = np.asarray(x["stat:" + ew]).real
                        E[sl, sl] = np.diag(np.where(np.isfinite(s), 1 / np.where(np.isfinite(s), s, 1.0) ** 2, 0.0))
                    else:
                        E[sl, sl] = np.eye(nd) * (0.0 if x["int"] * x["nsmp"] == 0 else 1.0)
                M = Am.T @ E @ Am
                live = np.diag(M) > 0
                H = np.zeros_like(Am)
                H[:, live] = E @ Am[:, live] @ np.linalg.inv(M[np.ix_(live, live)])
                d = np.concatenate([x["data"] for x in xs])
                r = {"data": H.T @ d, "H": H, "A": Am, "live": live}
                for f in xs[0]:
                    if f.startswith("stat:"):
                        s = np.concatenate([np.asarray(x[f]).real for x in xs])
                        q = np.zeros(len(c))
                        for m in range(len(c)):
                            use = H[:, m] != 0
                            q[m] = np.sqrt(np.sum(H[use, m] ** 2 * s[use] ** 2))
                        r[f] = q
                if "covr" in xs[0]:
                    C = np.zeros((nd * len(xs),) * 2)
                    for n, x in enumerate(xs):
                        C[n * nd:(n + 1) * nd, n * nd:(n + 1) * nd] = x["covr"]
                    r["cov"] = H.T @ C @ H
                if "win" in xs[0] and np.ndim(xs[0]["win"]) == 2:
                    ct, wt = (c, wd) if cth is None else (cth, wth)
                    r["win"] = 0
                    r["safe"] = True
                    for n, (b, x) in enumerate(zip(blps, xs)):
                        kf = kmags(u, i, b, fdly)
                        Aw = np.array([(kf > ct[m] - wt[m] / 2) & (kf < ct[m] + wt[m] / 2) for m in range(len(ct))], float).T
                        ed = np.concatenate([ct - wt / 2, ct + wt / 2])
                        r["safe"] &= np.min(np.abs(kf[:, None] - ed[None])) > 1e-6 * kf.max()
                        r["win"] = r["win"] + H[n * nd:(n + 1) * nd].T @ x["win"] @ Aw
                r["nsmp"] = sum(x["nsmp"] for x in xs)
                # integration: mean over pairs weighted by their total weight
                tw = np.array([np.trace(E[n * nd:(n + 1) * nd, n * nd:(n + 1) * nd]) for n in range(len(xs))])
                r["int"] = float(np.sum(tw * [x["int"] for x in xs]) / max(tw.sum(), 1e-40))
                head = by[blps[0]][t]
                r["label"] = {f: head[1][f] for f in ("t1", "t2", "ta", "lst1", "lst2", "lsta", "lab1", "lab2", "scalar")}
                r["blp"] = blps[0]
                out[(i, pp, t)] = r
    return out


def close(a, b, rtol=1e-8, floor=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = max(np.max(np.abs(b[np.isfinite(b)]), initial=0.0), floor)
    return bool(np.all(np.isfinite(a) == np.isfinite(b)) and np.allclose(np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0), rtol=0, atol=rtol * s))


def compare(rec, s, u, want, c, tr, kth=None):
    """s: the spherical average; want: the reference."""
    nt = 1 + max(k[2] for k in want)
    Nk = len(c)
    rec.expect(s.Nblpairs == 1 and s.Nbltpairs == nt and s.Ntpairs == nt == s.Ntimes and s.Nspws == u.Nspws and s.Npols == u.Npols, "counts",
               (s.Nblpairs, s.Nbltpairs, s.Ntpairs, s.Ntimes, nt), tr)
    for nm in ("time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array", "blpair_array"):
        if not rec.expect(len(getattr(s, nm)) == nt, "len:" + nm, (len(getattr(s, nm)), nt), tr):
            return
    rec.expect(np.all(s.bl_vecs == 0), "bl_vecs", s.bl_vecs, tr)
    bls = sorted({B.ants_to_bl(b) for b in next(iter(want.values()))["blp"]})
    rec.expect(list(s.bl_array) == bls and s.Nbls == len(bls) and len(s.bl_vecs) == len(bls), "bl_array", (s.bl_array, bls), tr)
    pps = [T.pp_key(p) for p in s.polpair_array]
    for (i, pp, t), r in want.items():
        p = pps.index(pp)
        at = dict(tr, cell=(i, pp, t))
        rec.expect(np.allclose(s.get_kparas(i), c, rtol=1e-9, atol=1e-12), "kbins", f"{s.get_kparas(i)} vs {c}", at)
        if not rec.expect(s.data_array[i].shape == (nt, Nk, s.Npols), "shape", s.data_array[i].shape, at):
            return
        lab = {"t1": s.time_1_array[t], "t2": s.time_2_array[t], "ta": s.time_avg_array[t], "lst1": s.lst_1_array[t], "lst2": s.lst_2_array[t],
               "lsta": s.lst_avg_array[t]}
        for f, g in lab.items():
            w = r["label"][f]
            e = abs(g - w) if f[0] == "t" else abs((g - w + np.pi) % (2 * np.pi) - np.pi)
            rec.expect(e < (2e-9 if f[0] == "t" else 1e-8), "label:" + f, f"slot {t}: {g} want {w}", at)
        rec.expect(T.blp_key(s.blpair_array[t]) == r["blp"], "label:blp", s.blpair_array[t], at)
        rec.expect(str(s.labels[s.label_1_array[i, t, p]]) == r["label"]["lab1"] and str(s.labels[s.label_2_array[i, t, p]]) == r["label"]["lab2"], "label:dset", "", at)
        rec.expect(close(s.data_array[i][t, :, p], r["data"]), "data", f"got {s.data_array[i][t, :, p][:4]} want {r['data'][:4]}", at)
        rec.expect(close(s.nsample_array[i][t, p], r["nsmp"], 1e-10), "nsample", (s.nsample_array[i][t, p], r["nsmp"]), at)
        rec.expect(close(s.integration_array[i][t, p], r["int"], 1e-8), "integration", (s.integration_array[i][t, p], r["int"]), at)
        rec.expect(np.all(s.wgt_array[i][t] >= 0) and s.wgt_array[i].shape == (nt, u.wgt_array[i].shape[1], 2, u.Npols), "wgt", "", at)
        for f in r:
            if f.startswith("stat:"):
                g = s.stats_array[f[5:]][i][t, :, p].real
                rec.expect(close(g[r["live"]], r[f][r["live"]]), f, f"got {g} want {r[f]}", at)
                rec.expect(np.all(g[~r["live"]] >= 1e10), f + ":empty", f"{g} at bins without data", at)
        if "cov" in r:
            rec.expect(close(s.cov_array_real[i][t, :, :, p], r["cov"]) and np.all(s.cov_array_imag[i][t] == 0), "cov", f"got {s.cov_array_real[i][t, :2, :2, p]} want {r['cov'][:2, :2]}", at)
        if "win" in r and r["safe"]:
            g = s.window_function_array[i][t, :, :, p]
            rec.expect(close(g, r["win"], floor=1e-6), "window", f"got {g[:2]} want {r['win'][:2]}", at)


_MEMO = {}


def source(cfg):
    k = repr(sorted(cfg.items()))
    if k not in _MEMO:
        if len(_MEMO) > 20:
            _MEMO.clear()
        u = make(cfg)
        _MEMO[k] = (u, A.view(u), T.table(u))
    return _MEMO[k]


def one(rec, cfg, kind, little_h=True, time_avg=False, groups=None, gw=None, theory=False, scalar_width=False):
    from hera_pspec import grouping

    tr = dict(cfg, bins=kind, little_h=little_h, time_avg=time_avg, groups=groups, gw=gw, theory=theory)
    u0, v0, t0 = source(cfg)
    u = copy.deepcopy(u0)
    ew = {"err": "P_N", "cov": None, "uni": None}[cfg["w"]]
    sel = [BL[i] for i in SETS[cfg["set"]]]
    gl = None if groups is None else [[sel[i] for i in g] for g in groups]
    v = v0
    if gl is not None or time_avg:
        v = A.average(v0, groups=gl, weights=gw, time_avg=time_avg, error_field=(), error_weights=ew)
        for x in v.values():
            for f in [f for f in x if f.startswith("stat:") and f != "stat:" + str(ew)]:
                del x[f]
    c, wd = bins(u, kind)
    cth = wth = None
    if theory:
        cth = np.linspace(0.05, 1.1, 6) * kmax(u, 0)
        wth = np.ones(6) * np.diff(cth).mean()
    h = u.cosmo.h
    args = [c * (1 if little_h else h), wd * (1 if little_h else h)]
    if scalar_width:
        args[1] = float(args[1][0])
    keep = [np.copy(x) for x in args]
    th = None if cth is None else cth * (1 if little_h else h)
    kth = None if th is None else th.copy()
    Ad = {}
    kw = dict(kbins_theory=th, blpair_groups=gl, time_avg=time_avg, blpair_weights=gw, weight_by_cov=cfg["w"] == "cov", error_weights=ew, little_h=little_h, A=Ad)
    if cfg["win"] == "exact":
        kw.pop("kbins_theory") if th is None else None
    gcopy = copy.deepcopy(gl)
    ok, s = rec.attempt("spherical", grouping.spherical_average, u, *args, trace=tr, **kw)
    rec.step()
    rec.trace()
    if not ok:
        return None
    rec.expect(T.diff(T.table(u), t0) is None and u.dly_array is not None, "input", "the input object was modified", tr)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(args, keep)) and (th is None or np.array_equal(th, kth)), "arguments", "bin arguments modified", tr)
    rec.expect(gl == gcopy, "groups-arg", "", tr)
    want = reference(v, u0, c, wd, cfg["w"], ew, cth, wth)
    compare(rec, s, u0, want, c, tr)
    pps = [T.pp_key(p) for p in s.polpair_array]
    for (i, pp, t), r in want.items():
        if Ad[i].shape[1] == len(r["A"]):
            # pairs left out of the groups follow them in any order
            rec.expect(groups is not None or np.array_equal(Ad[i][t, :, :, pps.index(pp)], r["A"]), "design", "design matrix", tr)
        else:
            rec.expect(False, "design:shape", (Ad[i].shape, r["A"].shape), tr)
    rec.state(("sph", [s.data_array[i].round(6).tobytes() for i in range(s.Nspws)], tr))
    rec.outcome((cfg["set"], cfg["win"], cfg["w"], kind, time_avg, repr(groups)))
    return s


def tasks(tier, seed):
    out = []
    for st in SETS:
        for order in ("bt", "tb"):
            for tm in TIMES:
                out.append(dict(mode="main", set=st, order=order, times=tm))
    for st in SETS:
        for win in ("none", "delay"):
            out.append(dict(mode="flags", set=st, win=win, tier=tier))
    for st in ("ab", "ac", "acd", "dca"):
        out.append(dict(mode="groups", set=st))
    for st in ("a", "ab", "acd"):
        for tm in TIMES:
            out.append(dict(mode="exact", set=st, times=tm))
    return out


def run(task, rec):
    if task["mode"] == "main":
        n = 0
        for win, w, kind in itertools.product(("none", "delay"), ("uni", "err", "cov"), BINS):
            n += 1
            cfg = dict(set=task["set"], order=task["order"], times=task["times"], win=win, w=w, cov=n % 3 == 0, pols=2 if n % 2 else 1, two=n % 5 != 0)
            one(rec, cfg, kind, little_h=n % 2 == 0, time_avg=n % 4 == 3, theory=n % 3 == 1 and win == "delay", scalar_width=kind in ("full", "gappy") and n % 7 == 0)
        rec.sample(f"{task} -> {n} averages")
    elif task["mode"] == "flags":
        for flag in range(32):
            for w in ("uni", "err"):
                cfg = dict(set=task["set"], order="bt" if flag % 2 else "tb", times="up", win=task["win"], w=w, flag=flag, pols=1, two=False)
                one(rec, cfg, "coarse" if flag % 3 else "full", time_avg=False)
        for inf in range(1, 6):
            cfg = dict(set=task["set"], order="bt", times="up", win=task["win"], w="err", inf=inf, pols=1)
            one(rec, cfg, "full")
            one(rec, cfg, "coarse", time_avg=True)
        one(rec, dict(set=task["set"], order="bt", times="up", win=task["win"], w="err", scale=1), "full")
        for k, (kind, units) in enumerate(itertools.product(("full", "gappy"), (1e-12, 1e-3, 1e9))):
            for w in ("uni", "err", "cov"):
                one(rec, dict(set=task["set"], order="bt", times="up", win=task["win"], w=w, units=units, cov=True, pols=1), kind, time_avg=k % 2 == 1)
    elif task["mode"] == "groups":
        n = len(SETS[task["set"]])
        gs = [[[0, 1]], [[1, 0]], [[1], [0]], [[0]]] if n == 2 else [[[0, 1, 2]], [[1, 0], [2]], [[2], [0, 1]], [[0, 2]], [[2, 1]], [[1]]]
        k = 0
        for g in gs:
            for ta in (False, True):
                for w in ("uni", "err", "cov"):
                    for gw in (None, [[1.0 + 2 * (j + m) for j, _ in enumerate(x)] for m, x in enumerate(g)]):
                        k += 1
                        cfg = dict(set=task["set"], order="bt" if k % 2 else "tb", times=("up", "wrap", "mix")[k % 3], win="delay" if k % 2 else "none", w=w, pols=1 + k % 2)
                        one(rec, cfg, "full" if k % 3 else "gappy", time_avg=ta, groups=g, gw=gw, little_h=k % 4 != 0)
    elif task["mode"] == "exact":
        exact(rec, task)


def wf_reference(v, u, edges, eth, groups, ta, ew, spw):
    """Exact spherical window functions: (pp, slot) -> (Nk, Nk_theory)."""
    sk = T.spw_key(u, spw)
    c = A.average(v, groups=groups, time_avg=ta, error_weights=ew, keep_rest=False)
    out = {}
    for pp in dict.fromkeys(k[1] for k in v):
        by = {}
        for k, x in c.items():
            if k[:2] == (sk, pp):
                by.setdefault(k[2], []).append(x)
        for t in range(len(next(iter(by.values())))):
            W = np.zeros((len(edges) - 1, len(eth) - 1))
            for m in range(len(edges) - 1):
                acc, n = 0, 0
                for b, xs in by.items():
                    km = kmags(u, spw, b)
                    for d in np.nonzero((km > edges[m]) & (km < edges[m + 1]))[0]:
                        acc, n = acc + xs[t]["win"][d], n + 1
                if n:
                    x = next(iter(by.values()))[t]
                    kt = np.sqrt(x["kperp"][:, None] ** 2 + x["kpara"][None] ** 2)
                    for q in range(len(eth) - 1):
                        s = (kt >= eth[q]) & (kt < eth[q + 1])
                        if s.any():
                            W[m, q] = (acc / n)[s].mean()
                    if W[m].sum() != 0:
                        W[m] /= W[m].sum()
            out[(pp, t)] = W
    return out


def safe_edges(u, n, top):
    ks = np.unique(np.concatenate([kmags(u, i, T.blp_key(b)) for i in range(u.Nspws) for b in set(u.blpair_array.tolist())]).round(9))
    for w, o in itertools.product(np.linspace(1.0 / n, 1.35 / n, 60), np.linspace(0.003, 0.2, 9)):
        e = top * (o + w * np.arange(n + 1))
        if np.min(np.abs(e[:, None] - ks[None])) > 2e-3 * top:
            return e
    raise RuntimeError("no safe edges")


def exact(rec, task):
    from hera_pspec import grouping

    sel = [BL[i] for i in SETS[task["set"]]]
    n = len(sel)
    gs = {1: [None, [[0]]], 2: [None, [[0], [1]], [[1], [0]], [[1]], [[0, 1]]], 3: [None, [[2], [0], [1]], [[0, 1], [2]], [[1]], [[2, 1, 0]]]}[n]
    k = 0
    for g, ta, pols, order in itertools.product(gs, (False, True), (1, 2), ("bt", "tb")):
        k += 1
        cfg = dict(set=task["set"], order=order, times=task["times"], win="exact", w="uni" if k % 3 else "err", pols=pols, two=k % 2 == 0, nd=4 + k % 3)
        u0, v0, t0 = source(cfg)
        u = copy.deepcopy(u0)
        ew = "P_N" if cfg["w"] == "err" else None
        gl = None if g is None else [[sel[i] for i in x] for x in g]
        # default: redundant groups (equal lengths and orientations): every pair of this array is alone in its group, except equal vectors
        if gl is None:
            red = {}
            for b in sel:
                red.setdefault(round(sep(b[0]), 3), []).append(b)
            ref_groups = list(red.values())
        else:
            ref_groups = gl
        tr = dict(cfg, groups=g, time_avg=ta)
        edges = safe_edges(u, (3, 5, 6)[k % 3], kmax(u, 0))
        eth = np.linspace(0.0, 1.05, 5 + k % 2) * kmax(u, 0) if k % 2 else None
        nh = k % 4 == 1  # power spectra in Mpc^3
        if nh:
            u.norm_units = "Mpc^3"
        h = u.cosmo.h
        a, b = edges.copy(), None if eth is None else eth.copy()
        ok, wf = rec.attempt("wf", grouping.spherical_wf_from_uvp, u, a, kbin_edges_theory=b, blpair_groups=copy.deepcopy(gl), error_weights=ew, time_avg=ta,
                             spw_array=None if k % 3 else [u.Nspws - 1], little_h=True, trace=tr)
        rec.step()
        rec.trace()
        if not ok:
            continue
        rec.expect(np.array_equal(a, edges) and (b is None or np.array_equal(b, eth)), "wf:arguments", "the caller's bin edges were modified", tr)
        u.norm_units = u0.norm_units
        rec.expect(T.diff(T.table(u), t0) is None, "wf:input", "", tr)
        spws = list(range(u.Nspws)) if k % 3 else [u.Nspws - 1]
        if not rec.expect(sorted(wf) == spws, "wf:spws", sorted(wf), tr):
            continue
        pps = [T.pp_key(p) for p in u.polpair_array]
        et = edges if eth is None else eth
        for i in spws:
            # with Mpc^-1 grids the stored k grid is read in Mpc^-1
            if nh:
                want = wf_reference_units(v0, u0, edges, et, ref_groups, ta, ew, i, h)
            else:
                want = wf_reference(v0, u0, edges, et, ref_groups, ta, ew, i)
            nt = 1 + max(t for _, t in want)
            if not rec.expect(wf[i].shape == (nt, len(edges) - 1, len(et) - 1, u.Npols), "wf:shape", wf[i].shape, tr):
                continue
            for (pp, t), W in want.items():
                got = wf[i][t, :, :, pps.index(pp)]
                rec.expect(close(got, W, 1e-8, floor=1e-6), "wf:value", f"spw {i} pol {pp} slot {t}: got {got[:2]} want {W[:2]}", tr)
        if nh:
            continue
        # the same window functions inside the spherical average, whose data are averaged over the same groups and times
        c, wd = 0.5 * (edges[1:] + edges[:-1]), np.diff(edges)
        cth = None if eth is None else 0.5 * (eth[1:] + eth[:-1])
        ok, s = rec.attempt("exact", grouping.spherical_average, u, c, wd, kbins_theory=cth, blpair_groups=copy.deepcopy(gl), error_weights=ew, time_avg=ta, trace=tr)
        rec.step()
        rec.trace()
        if not ok:
            continue
        v = v0
        if gl is not None or ta:
            v = A.average(v0, groups=gl, time_avg=ta, error_field=(), error_weights=ew, keep_rest=False)
            for x in v.values():
                for f in [f for f in x if f.startswith("stat:") and f != "stat:" + str(ew)]:
                    del x[f]
        want = reference(v, u0, c, wd, cfg["w"], ew)
        compare(rec, s, u0, want, c, tr)
        for i in range(u.Nspws):
            w = wf_reference(v0, u0, edges, et, ref_groups, ta, ew, i)
            for (pp, t), W in w.items():
                if not rec.expect(s.window_function_array[i].shape == (1 + max(q for _, q in w), len(c), len(et) - 1, u.Npols), "exact:shape", s.window_function_array[i].shape, tr):
                    break
                got = s.window_function_array[i][t, :, :, pps.index(pp)]
                rec.expect(close(got, W, 1e-8, floor=1e-6), "exact:window", f"spw {i} pol {pp} slot {t}: got {got[:2]} want {W[:2]}", tr)
        rec.outcome(("x", task["set"], repr(g), ta, pols))
    rec.sample(f"{task} -> {k} window-function calls")


def wf_reference_units(v, u, edges, eth, groups, ta, ew, spw, h):
    """As wf_reference with the k grid of the stored windows in 1/Mpc."""
    w = {}
    for key, x in v.items():
        x = dict(x)
        x["kperp"], x["kpara"] = x["kperp"] / h, x["kpara"] / h
        w[key] = x
    return wf_reference(w, u, edges, eth, groups, ta, ew, spw)
